// FLAVOR: asan
// PROPS: C12
#include "mc.hpp"
#include "env.hpp"
#include "engine.hpp"
// What was asked for: the second property only, or all; the configuration.
static int only; static Cfg asked;
static void verify(Ds* d, int version, const char* when) {
	MC_CHECK(alive.count(d) && d->magic == 0x51D, "dataset:freed", "%s: the data set is gone", when); d->error = false; It it; memset(&it, 0, sizeof it); fiftyoneDegreesDataReset(&it.data); auto s = nameAt(d, 0, &it);
	MC_CHECK(s, "dataset:unreadable", "%s: a data set in use can not be read", when); S v(&s->value); FIFTYONE_DEGREES_COLLECTION_RELEASE(d->names, &it); MC_CHECK(v == mc::fmt("version-%d", version), "dataset:version", "%s: %s instead of version %d", when, v.c_str(), version);
	static const char* N[] = { "alpha", "beta" }; int n = only ? 1 : 2; MC_CHECK(d->b.available && (int)d->b.available->count == n, "dataset:properties", "%s: %u properties instead of %d", when, d->b.available ? d->b.available->count : 0, n);
	for (int i = 0; i < n; i++) MC_CHECK(!strcmp(FIFTYONE_DEGREES_STRING(d->b.available->items[i].name.data.ptr), N[only + i]) && (int)d->b.available->items[i].propertyIndex == only + i && d->b.available->items[i].evidenceProperties->items[0] == 7, "dataset:properties", "%s: properties are not those of the data", when);
	MC_CHECK(!memcmp(&d->cfg, &asked, sizeof asked) && d->b.config == &d->cfg, "dataset:config", "%s: another configuration", when);
	MC_CHECK(d->b.uniqueHeaders && d->b.uniqueHeaders->count == 4 && d->b.overridable && (int)d->b.overridable->count == n, "dataset:headers", "%s: headers or overrides are missing", when);
}
static size_t temps() { return env::listDir(env::scratch() + "/tmp").size(); }
MC_SUITE(C12, reload, 5, "five storage configurations (in memory, from file, cached, temporary file, shared temporary file), all properties or one of them: every history of up to 3 (thorough 4) reloads (from file and memory, missing and truncated file, refusing initialiser), gets and releases, with a memory request or an open, read, write or seek (thorough: one of each) failing at every point of every reload") {
	static const char* MN[] = { "memory", "file", "cache", "temp", "shared temp" }; env::cleanScratch(); env::makeDir(env::scratch() + "/tmp"); alive.clear(); refuse = 0; int mode = mc::choose(5); mc::note("%s:", MN[mode]);
	S tmp = env::scratch() + "/tmp"; const char* tdirs[] = { tmp.c_str() }; Cfg c; memset(&c, 0, sizeof c); c.b.allInMemory = mode == 0; c.b.useTempFile = mode >= 3; c.b.reuseTempFile = mode == 4; c.b.tempDirs = tdirs; c.b.tempDirCount = 1; c.c.concurrency = 1; c.c.capacity = mode == 2 ? 6 : 0; c.c.loaded = mode == 3 ? 2 : 0; memcpy(&asked, &c, sizeof c); only = mode == 0 || mode == 1 || mode == 3;
	S files[6]; std::vector<std::unique_ptr<char[]>> mems; Ex e; auto clear = [&] { memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; };
	for (int i = 0; i < 6; i++) { files[i] = env::scratch() + mc::fmt("/v%d-%d.dat", i, mc::workerIndex()); env::writeFile(files[i], image(i, false)); } S cut = env::scratch() + "/cut.dat", none = env::scratch() + "/none.dat"; env::writeFile(cut, image(9, true));
	fiftyoneDegreesResourceManager m; Ds* first = (Ds*)fiftyoneDegreesMalloc(sizeof(Ds)); clear(); fiftyoneDegreesPropertiesRequired props = fiftyoneDegreesPropertiesDefault; if (only) props.string = "beta"; mc::label("dataset:init"); int ist = initFile(first, &c, &props, files[0].c_str(), &e); MC_CHECK(ist == OK_, "dataset:init", "the first data set was not created: %d", ist); fiftyoneDegreesResourceManagerInit(&m, first, &first->b.handle, freeDs);
	struct Held { Ds* d; int v; }; std::vector<Held> held; int active = 0, next = 1, len = 1 + mc::choose(mc::tierOf(2, 3, 4)); int faulty = mc::choose(len + 1) - 1, mf = 0, io = 0; if (faulty >= 0) { if (mc::thorough()) mf = io = 1; else if (mc::flip()) mf = 1; else io = 1; }
	auto look = [&](const char* when) {
		env::memFaults = env::ioFaults = 0; mc::label("dataset:get"); Ds* d = (Ds*)dsGet(&m); verify(d, active, when); dsRelease(&d->b); std::set<Ds*> need; need.insert(d); for (auto& h : held) { verify(h.d, h.v, when); need.insert(h.d); }
		MC_CHECK(alive == need, "dataset:not-freed", "%s: %zu data sets exist, %zu are active or held", when, alive.size(), need.size()); if (mode == 3) { size_t f = 0; for (auto x : need) f += x->b.fileName[0] != 0; MC_CHECK(temps() == f, "dataset:temp-files", "%s: %zu temporary files for %zu data sets", when, temps(), f); } };
	look("at the start");
	for (int s = 0; s < len; s++) {
		int op = mc::choose(7); mc::step(); size_t blocks = env::liveBlocks(); int open = env::openFiles();
		if (op == 5) { if (held.size() >= 2) mc::prune(); mc::note("get"); mc::label("dataset:get"); Ds* d = (Ds*)dsGet(&m); held.push_back({ d, active }); look("after get"); continue; }
		if (op == 6) { if (held.empty()) mc::prune(); mc::note("release"); mc::label("dataset:release"); Ds* d = held[0].d; held.erase(held.begin()); dsRelease(&d->b); look("after release"); continue; }
		static const char* ON[] = { "file", "memory", "missing", "truncated", "refused" }; mc::note("%s", ON[op]); mc::label("dataset:reload %s", ON[op]); int v = next; if (op < 2) { v = next++; } refuse = op == 4; bool reuseFile = op == 0 && mode == 4 && mc::flip(); if (reuseFile) { next--; v = active; }
		clear(); env::faultsFired = false; env::lastFault.clear(); env::memFaults = faulty == s ? mf : 0; env::ioFaults = faulty == s ? io : 0; env::faultMask = env::F_ALL & ~(env::F_REMOVE | env::F_CLOSE); int st;
		if (op == 1) { S im = image(v, false); mems.emplace_back(new char[im.size()]); memcpy(mems.back().get(), im.data(), im.size()); st = dsReloadMemory(&m, mems.back().get(), (long)im.size(), sizeof(Ds), initMemory, &e); }
		else st = dsReloadFile(&m, op == 2 ? none.c_str() : op == 3 ? cut.c_str() : op == 4 ? files[5].c_str() : files[v].c_str(), sizeof(Ds), initFile, &e);
		env::memFaults = env::ioFaults = 0; refuse = 0; mc::outcome(mc::fmt("%d", st));
		if (st == OK_) { MC_CHECK(op < 2, "dataset:success", "success for a %s file", ON[op]); active = v; look("after a successful reload"); }
		else { MC_CHECK(env::faultsFired || op >= 2, "dataset:refused", "status %d for good data", st); if (op < 2 && !reuseFile) next--; look("after a failed reload"); MC_CHECK(env::liveBlocks() == blocks, "dataset:leak", "status %d after %s: %ld block(s) more than before", st, env::lastFault.c_str(), (long)env::liveBlocks() - (long)blocks); MC_CHECK(env::openFiles() == open, "dataset:file-leak", "status %d after %s: %d files open, before %d", st, env::lastFault.c_str(), env::openFiles(), open); }
		mc::state(mc::hashStr(mc::fmt("%d %zu %zu %d", mode, held.size(), alive.size(), active)));
	}
	bool freeFirst = held.empty() ? true : mc::flip(); mc::label("dataset:free"); if (freeFirst) fiftyoneDegreesResourceManagerFree(&m);
	while (!held.empty()) { Held h = held.back(); held.pop_back(); verify(h.d, h.v, "at the end"); dsRelease(&h.d->b); } if (!freeFirst) fiftyoneDegreesResourceManagerFree(&m);
	MC_CHECK(alive.empty(), "dataset:not-freed", "%zu data sets never freed", alive.size()); MC_CHECK(temps() == 0, "dataset:temp-files", "%zu temporary files left", temps()); env::checkBalanced("dataset");
}
