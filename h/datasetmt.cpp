// FLAVOR: sched
// PROPS: C13
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
typedef fiftyoneDegreesDataSetBase Base; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex; typedef fiftyoneDegreesStatusCode St;
enum { OK_ = FIFTYONE_DEGREES_STATUS_SUCCESS };
extern "C" {
void dsReset(Base*) asm("fiftyoneDegreesDataSetReset"); void dsFree(Base*) asm("fiftyoneDegreesDataSetFree");
int dsInitProperties(Base*, fiftyoneDegreesPropertiesRequired*, void*, fiftyoneDegreesPropertiesGetMethod, fiftyoneDegreesEvidencePropertiesGetMethod) asm("fiftyoneDegreesDataSetInitProperties");
Base* dsGet(fiftyoneDegreesResourceManager*) asm("fiftyoneDegreesDataSetGet"); void dsRelease(Base*) asm("fiftyoneDegreesDataSetRelease");
int dsReloadMemory(fiftyoneDegreesResourceManager*, void*, long, size_t, fiftyoneDegreesDataSetInitFromMemoryMethod, Ex*) asm("fiftyoneDegreesDataSetReloadManagerFromMemory"); int dsReloadFile(fiftyoneDegreesResourceManager*, const char*, size_t, fiftyoneDegreesDataSetInitFromFileMethod, Ex*) asm("fiftyoneDegreesDataSetReloadManagerFromFile");
}
struct Ds { Base b; fiftyoneDegreesConfigBase cfg; fiftyoneDegreesCollection coll; fiftyoneDegreesString* names[2]; uint64_t magic; int id; };
struct Info { Ds* d; int freed, holders; bool ok; long t0, t1; }; // t1: when the reload reported success
static std::vector<Info> info; static fiftyoneDegreesResourceManager* mgr; static bool uaf; static int reloading, mine[8], budget;
static bool tolerate(const sched::Access& a) { // the handle's own memory: see the findings of C01
	if (!strcmp(a.kind, "null")) { if (uaf || reloading) mc::prune(); return false; }
	if (strcmp(a.kind, "use-after-free") || a.blockSize != sizeof(fiftyoneDegreesResourceHandle)) return false; uaf = true; return true;
}
static uint32_t noRelease; static void itemRelease(It*) { noRelease++; }
static fiftyoneDegreesString* getName(void* s, uint32_t i, It* it) { Ds* d = (Ds*)s; if (i >= 2) return nullptr; it->data.ptr = (byte*)d->names[i]; it->collection = &d->coll; return d->names[i]; }
static uint32_t getEvidence(void*, fiftyoneDegreesPropertyAvailable*, fiftyoneDegreesEvidenceProperties* e) { if (e) e->items[0] = 7; return 1; }
static void freeInner(Ds* d) { dsFree(&d->b); for (auto& n : d->names) { if (n) fiftyoneDegreesFree(n); n = nullptr; } }
static void freeDs(void* p) {
	Ds* d = (Ds*)p; if (!sched::isLive(d)) mc::fail("reload:double-free", "a data set was freed that no longer exists"); int id = d->id; if (id < 0 || id >= (int)info.size() || info[id].d != d) mc::fail("reload:unknown-freed", "something that is not a data set was freed");
	Info& f = info[id]; if (f.freed++) mc::fail("reload:double-free", "data set %d freed twice", id); if (f.holders > 0) mc::fail("reload:freed-in-use", "data set %d freed while %d thread(s) hold it", id, f.holders);
	mc::note("free d%d", id); d->magic = 0; freeInner(d); fiftyoneDegreesFree(d);
}
static St init(Ds* d, const void* config, fiftyoneDegreesPropertiesRequired* props, int mode) {
	if (config && sched::self() >= 0 && (!sched::isLive(config) || (props->existing && !sched::isLive(props->existing)))) mc::fail("reload:source-gone", "the initialiser was given the config or properties of a data set that has been freed");
	static fiftyoneDegreesConfigBase zero; memset((void*)d, 0, sizeof *d); dsReset(&d->b); if (config) memcpy((void*)&d->cfg, config, sizeof d->cfg); else d->cfg = zero; d->b.config = &d->cfg; d->coll.release = itemRelease; d->id = (int)info.size(); info.push_back({ d, 0, 0, false, sched::now(), -1 }); if (sched::self() >= 0) mine[sched::self()] = d->id;
	static const char* N[] = { "alpha", "beta" }; for (int i = 0; i < 2; i++) { d->names[i] = (fiftyoneDegreesString*)fiftyoneDegreesMalloc(32); if (!d->names[i]) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; memset((void*)d->names[i], 0, 32); d->names[i]->size = (int16_t)strlen(N[i]) + 1; memcpy(&d->names[i]->value, N[i], strlen(N[i]) + 1); }
	d->b.isInMemory = true; if (sched::self() >= 0) sched::point(); int st = dsInitProperties(&d->b, props, d, getName, getEvidence); if (st != OK_) return (St)st; if (sched::self() >= 0) sched::point();
	if (config && !sched::isLive(config)) mc::fail("reload:source-gone", "the data set being replaced was freed while its successor was initialised"); d->magic = 0x51D; return mode ? FIFTYONE_DEGREES_STATUS_CORRUPT_DATA : FIFTYONE_DEGREES_STATUS_SUCCESS;
}
static void* const GOOD = (void*)0x1000; static void* const BADSRC = (void*)0x2000;
static St fromMemory(void* ds, const void* c, fiftyoneDegreesPropertiesRequired* p, void* m, long, Ex*) { Ds* d = (Ds*)ds; St s = init(d, c, p, m == BADSRC); if (s != OK_) { info[d->id].freed++; freeInner(d); } return s; }
static St fromFile(void* ds, const void* c, fiftyoneDegreesPropertiesRequired* p, const char* f, Ex*) { Ds* d = (Ds*)ds; St s = init(d, c, p, !strcmp(f, "bad")); if (s != OK_) freeDs(d); return s; }
static void whole(Ds* d, const char* when) {
	if (!sched::isLive(d) || d->magic != 0x51D || !d->b.available || !sched::isLive(d->b.available) || d->b.available->count != 2) mc::fail("reload:incomplete", "%s: the data set is not complete or gone", when);
	for (int i = 0; i < 2; i++) { auto n = (fiftyoneDegreesString*)d->b.available->items[i].name.data.ptr; if (!n || !sched::isLive(n) || n != d->names[i]) mc::fail("reload:incomplete", "%s: a property name of data set %d is not its own", when, d->id); }
}
static Ds* get() {
	sched::op("get"); long t = sched::now(); Ds* d = (Ds*)dsGet(mgr); if (!d || !sched::isLive(d)) mc::fail("reload:got-freed", "get returned a data set that does not exist"); int id = d->id; if (id < 0 || id >= (int)info.size() || info[id].d != d) mc::fail("reload:unknown", "get returned something else");
	if (info[id].freed) mc::fail("reload:got-freed", "get returned data set %d which was freed", id); info[id].holders++; whole(d, "on get");
	for (auto& j : info) if (j.t1 >= 0 && j.t1 < t && info[id].t1 >= 0 && info[id].t1 < j.t0) mc::fail("reload:stale", "get returned data set %d although %d had replaced it", id, j.d->id); mc::note("got d%d", id); return d;
}
static void rel(Ds* d) { sched::op("release"); whole(d, "before release"); info[d->id].holders--; dsRelease(&d->b); }
static void reload(bool file, bool good) {
	sched::op("reload"); Ex e; memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; int t = sched::self(); mine[t] = -1; reloading++;
	int st = file ? dsReloadFile(mgr, good ? "good" : "bad", sizeof(Ds), fromFile, &e) : dsReloadMemory(mgr, good ? GOOD : BADSRC, 64, sizeof(Ds), fromMemory, &e); reloading--; mc::note("reload %d", st);
	if (st == OK_) { MC_CHECK(good && mine[t] >= 0, "reload:success", "success although the initialiser failed"); info[mine[t]].ok = true; info[mine[t]].t1 = sched::now(); }
	else { MC_CHECK(!good || sched::memFaults < budget, "reload:refused", "status %d for good data", st); if (mine[t] >= 0) MC_CHECK(info[mine[t]].freed == 1, "reload:not-freed", "the data set of a failed reload was freed %d times", info[mine[t]].freed); }
}
// U get, use, release; N two at once; M reload from memory, F from file, m and f with data the engine refuses
static void program(const char* p) {
	for (; *p; p++) switch (*p) {
	case 'U': { Ds* d = get(); sched::op("use"); sched::point(); whole(d, "in use"); rel(d); break; }
	case 'N': { Ds* a = get(); Ds* b = get(); sched::op("use"); sched::point(); whole(a, "in use"); whole(b, "in use"); rel(a); whole(b, "in use"); rel(b); break; }
	case 'M': reload(false, true); break; case 'F': reload(true, true); break; case 'm': reload(false, false); break; case 'f': reload(true, false); break;
	}
}
static const char* nm[] = { "t0", "t1", "t2" };
static void race(const std::vector<const char*>& ps, int pb, bool every, int mem) {
	sched::begin(); info.clear(); uaf = false; reloading = 0; budget = 0; for (auto p : ps) mc::note("[%s]", p); sched::horizon = 30000; sched::everyAccess = every;
	mgr = (fiftyoneDegreesResourceManager*)sched::alloc(sizeof *mgr, "manager"); Ds* first = (Ds*)fiftyoneDegreesMalloc(sizeof(Ds)); fiftyoneDegreesPropertiesRequired props = fiftyoneDegreesPropertiesDefault;
	MC_CHECK((int)init(first, nullptr, &props, 0) == OK_, "reload:init", "not created"); fiftyoneDegreesResourceManagerInit(mgr, first, &first->b.handle, freeDs); info[0].ok = true; info[0].t0 = info[0].t1 = 0;
	sched::onBadAccess = tolerate; sched::preemptions = pb; sched::memFaults = budget = mem; for (size_t i = 0; i < ps.size(); i++) { const char* p = ps[i]; sched::spawn(nm[i], [p] { program(p); }); }
	sched::run(); sched::memFaults = budget = 0;
	Ds* d = get(); int a = d->id; MC_CHECK(info[a].ok, "reload:active-failed", "the active data set %d is one whose reload failed", a);
	for (auto& j : info) if (j.ok && j.t1 >= 0 && info[a].t1 < j.t0) mc::fail("reload:lost", "data set %d is active although %d replaced it later", a, j.d->id);
	rel(d); for (size_t i = 0; i < info.size(); i++) MC_CHECK(info[i].freed == ((int)i == a ? 0 : 1), "reload:not-freed", "data set %zu was freed %d times, active is %d", i, info[i].freed, a);
	mc::outcome(mc::fmt("%d of %zu", a, info.size())); fiftyoneDegreesResourceManagerFree(mgr); MC_CHECK(info[a].freed == 1, "reload:not-freed", "the active data set was freed %d times when the manager was freed", info[a].freed);
	sched::release(mgr); MC_CHECK(sched::liveBlocks() == 0, "reload:leak", "%zu block(s) left", sched::liveBlocks());
}
MC_SUITE(C13, two_threads, 4, "a user or reloading thread against a reloading thread, from memory or file, good or refused data, all schedules with at most 2 (thorough 3) preemptions at any memory access") {
	static std::vector<std::vector<const char*>> t = { { "U", "M" }, { "U", "F" }, { "UU", "M" }, { "N", "F" }, { "U", "mM" }, { "U", "Ff" }, { "M", "M" }, { "M", "F" }, { "F", "f" }, { "MU", "M" } };
	race(mc::pick(t), mc::tier(2, 3), true, 0);
}
MC_SUITE(C13, three_threads, 4, "users and reloading threads, three at once, all schedules with at most 2 (thorough 3) preemptions at atomic operations, contended accesses and steps of the initialiser") {
	static std::vector<std::vector<const char*>> t = { { "U", "M", "F" }, { "U", "U", "M" }, { "M", "M", "F" }, { "U", "m", "F" }, { "N", "U", "M" }, { "UU", "MM", "F" } };
	race(mc::pick(t), mc::tier(2, 3), false, 0);
}
MC_SUITE(C13, sync_deep, 4, "two threads, longer programs, all schedules with at most 3 (thorough 5) preemptions at atomic operations, contended accesses and steps of the initialiser") {
	static std::vector<std::vector<const char*>> t = { { "UU", "MM" }, { "NU", "FM" }, { "MU", "FU" }, { "MM", "MM" }, { "UfU", "MfF" } };
	race(mc::pick(t), mc::tier(3, 5), false, 0);
}
MC_SUITE(C13, memory_faults, 4, "two threads with one memory request failing at every point, all schedules with at most 2 preemptions at any memory access") {
	static std::vector<std::vector<const char*>> t = { { "U", "M" }, { "U", "F" }, { "M", "F" }, { "U", "MF" } };
	race(mc::pick(t), 2, mc::thorough(), 1);
}
static struct Setup { Setup() { mc_suite_C13_three_threads.setup = mc_suite_C13_sync_deep.setup = mc_suite_C13_memory_faults.setup = [] { sched::learnRaces([] { static std::vector<std::vector<const char*>> t = { { "U", "M" }, { "M", "F" }, { "UU", "F" } }; race(mc::pick(t), 2, true, 0); }, 4000); }; } } setup_;
