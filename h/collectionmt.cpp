// FLAVOR: sched
// PROPS: C10
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
extern "C" FILE* __wrap_fopen(const char*, const char*); extern "C" int __wrap_fclose(FILE*); // the files the library sees
typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex;
struct Config { const char* name; uint32_t loaded, capacity; uint16_t concurrency; bool memory; };
static std::vector<std::string> items; static std::vector<uint32_t> keys; static Coll* coll; static bool faulty; static int refused;
static void check(const It& it, int k, const char* when) { const char* p = (const char*)it.data.ptr; if (!p || memcmp(p, items[k].data(), items[k].size())) mc::fail("collection:bytes", "item %d holds other bytes %s", k, when); }
static bool get(int k, It& it) {
	sched::op("get"); memset(&it, 0xA5, sizeof it); fiftyoneDegreesDataReset(&it.data); Ex e; memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET;
	void* p = coll->get(coll, keys[k], &it, &e); bool bad = e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != FIFTYONE_DEGREES_STATUS_SUCCESS;
	if (k >= (int)items.size()) { MC_CHECK(!p && bad, "collection:beyond", "something beyond the data was returned, or no error"); return false; }
	if (faulty && !p) { MC_CHECK(bad, "collection:silent", "no item and no error"); refused++; return false; }
	MC_CHECK(p && !bad, "collection:refused", "item %d was refused with status %d", k, (int)e.status); check(it, k, "on get"); return true;
}
static void rel(int k, It& it) { check(it, k, "before release"); sched::op("release"); FIFTYONE_DEGREES_COLLECTION_RELEASE(coll, &it); }
// digit = get, hold a moment, release; '(' d = get and hold; ')' = release the oldest held
static void program(const char* p) {
	struct H { It it; int k; }; std::vector<H*> held; bool open = false;
	for (; *p; p++) {
		if (*p == '(') { open = true; continue; }
		if (*p == ')') { if (!held.empty()) { rel(held[0]->k, held[0]->it); delete held[0]; held.erase(held.begin()); } continue; }
		H* h = new H; h->k = *p - '0'; if (!get(h->k, h->it)) { delete h; open = false; continue; }
		if (open) { held.push_back(h); open = false; } else { sched::op("hold"); sched::point(); for (auto x : held) check(x->it, x->k, "while held"); rel(h->k, h->it); delete h; }
	}
	for (auto h : held) { rel(h->k, h->it); delete h; }
}
static const char* nm[] = { "t0", "t1", "t2" };
static void race(const Config& c, bool variable, const std::vector<const char*>& ps, int pb, int io, bool every) {
	sched::begin(); items.clear(); keys.clear(); std::string body; faulty = io != 0; refused = 0;
	for (int i = 0; i < 4; i++) { std::string b; if (variable) { int16_t l = (int16_t)(1 + i); b.assign((char*)&l, 2); b += std::string(l, (char)('a' + i)); keys.push_back((uint32_t)body.size()); } else { b = std::string(4, (char)('a' + i)); keys.push_back(i); } items.push_back(b); body += b; }
	for (int i = 0; i < 4; i++) keys.push_back(variable ? (uint32_t)body.size() + i : 4 + i);
	uint32_t sz = (uint32_t)body.size(); std::string data((char*)&sz, 4); data += body; sched::putFile("d.bin", data); uint16_t handles = (uint16_t)ps.size();
	mc::note("%s %s", c.name, variable ? "variable" : "fixed"); for (auto p : ps) mc::note("[%s]", p);
	Ex e; memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; fiftyoneDegreesFilePool pool; MC_CHECK(fiftyoneDegreesFilePoolInit(&pool, "d.bin", handles, &e) == FIFTYONE_DEGREES_STATUS_SUCCESS, "pool", "not created");
	FILE* f = __wrap_fopen("d.bin", "rb"); auto h = fiftyoneDegreesCollectionHeaderFromFile(f, variable ? 0 : 4, false); fiftyoneDegreesCollectionConfig cc = { c.loaded, c.capacity, c.concurrency };
	coll = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &cc, h, variable ? fiftyoneDegreesStringRead : fiftyoneDegreesCollectionReadFileFixed); __wrap_fclose(f); MC_CHECK(coll, "collection:create", "not created");
	sched::preemptions = pb; sched::everyAccess = every; sched::horizon = 60000; sched::ioFaults = io;
	for (size_t i = 0; i < ps.size(); i++) { const char* p = ps[i]; sched::spawn(nm[i], [p] { program(p); }); }
	sched::run(); sched::ioFaults = 0; faulty = false;
	if (sched::sharedHandleUse) mc::fail("collection:shared-handle", "two threads used one file handle at the same time");
	std::vector<fiftyoneDegreesFileHandle*> hs; for (int i = 0; i < handles; i++) { auto x = fiftyoneDegreesFileHandleGet(&pool, &e); MC_CHECK(x, "collection:handle-lost", "only %d of %d handles are available at the end", i, handles); hs.push_back(x); } for (auto x : hs) fiftyoneDegreesFileHandleRelease(x);
	uint32_t can = c.capacity ? c.capacity : 4; std::vector<It> its(4); for (uint32_t i = 0; i < 4 && i < can; i++) { if (!get(i, its[i])) mc::fail("collection:entry-lost", "item %u", i); }
	for (uint32_t i = 0; i < 4 && i < can; i++) rel(i, its[i]);
	coll->freeCollection(coll); fiftyoneDegreesFilePoolRelease(&pool); MC_CHECK(sched::liveBlocks() == 0, "collection:leak", "%zu blocks not returned", sched::liveBlocks()); MC_CHECK(sched::openFiles() == 0, "collection:file-leak", "%d files left open", sched::openFiles());
	mc::outcome(mc::fmt("refused %d", refused));
}
static const Config CFG[] = { { "file", 0, 0, 0 }, { "cache of 4 in 2 shards", 0, 4, 2 }, { "2 loaded, then file", 2, 0, 0 }, { "1 loaded, then cache of 4", 1, 4, 2 }, { "cache of 2", 0, 2, 1 }, { "wholly loaded", 9, 0, 0 } };
// programs respect the bounds: each thread holds one item at a time unless the configuration has room for more
MC_SUITE(C10, two, 4, "2 threads, 6 storage configurations, fixed and variable width: 10 pairs of programs of 2 to 3 gets (same and different items, beyond the data), all interleavings of synchronisation and racing accesses up to the preemption bound") {
	static const char* P[][2] = { { "01", "10" }, { "00", "00" }, { "012", "2" }, { "0123", "3" }, { "05", "10" }, { "13", "13" }, { "02", "20" }, { "33", "1" }, { "02", "24" }, { "31", "13" } };
	int c = mc::choose(6); bool v = mc::flip(); int p = mc::choose(10); race(CFG[c], v, { P[p][0], P[p][1] }, mc::tier(3, 4), 0, false);
}
MC_SUITE(C10, every, 4, "2 threads, 4 configurations: 4 pairs of programs, all interleavings of every memory access up to the preemption bound") {
	static const char* P[][2] = { { "0", "0" }, { "0", "1" }, { "01", "0" }, { "3", "1" } };
	int c = mc::choose(4); int p = mc::choose(4); race(CFG[c], mc::flip(), { P[p][0], P[p][1] }, mc::tier(2, 3), 0, true);
}
MC_SUITE(C10, three, 4, "3 threads, file, partly loaded and single shard cache (as many entries and handles as threads)") {
	static const Config C3[] = { { "file", 0, 0, 0 }, { "cache of 9 in 3 shards", 0, 9, 3 }, { "cache of 3", 0, 3, 1 }, { "1 loaded, then file", 1, 0, 0 } };
	static const char* P[][3] = { { "0", "0", "0" }, { "0", "1", "2" }, { "01", "1", "0" }, { "3", "0", "3" } };
	int c = mc::choose(4); int p = mc::choose(4); race(C3[c], mc::flip(), { P[p][0], P[p][1], P[p][2] }, mc::tier(2, 3), 0, false);
}
MC_SUITE(C10, holding, 4, "2 threads that hold one item while getting others, caches with exactly the entries needed") {
	static const Config C4[] = { { "file", 0, 0, 0 }, { "cache of 4", 0, 4, 1 }, { "cache of 8 in 2 shards", 0, 8, 2 }, { "1 loaded, then cache of 4", 1, 4, 1 } };
	static const char* P[][2] = { { "(01)2", "(10)3" }, { "(0(1))", "(1(0))" }, { "(00)", "(0(0))1" } };
	int c = mc::choose(4); int p = mc::choose(3); race(C4[c], mc::flip(), { P[p][0], P[p][1] }, mc::tier(3, 4), 0, false);
}
MC_SUITE(C10, faults, 4, "2 threads, 4 configurations, with one failing seek or read anywhere: the getter concerned gets an error, everybody else goes on, nothing is lost") {
	static const char* P[][2] = { { "01", "10" }, { "00", "0" }, { "3", "13" } };
	int c = mc::choose(4); int p = mc::choose(3); race(CFG[c], mc::flip(), { P[p][0], P[p][1] }, mc::tier(2, 3), 1, false);
}
