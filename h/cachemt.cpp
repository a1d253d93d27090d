// FLAVOR: sched
// PROPS: C06
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
#include <set>
static int loads[64], gets, hitsExp; static int failKey; static int loaderTag; static fiftyoneDegreesCache* cache; static int inLoader[64];
static int64_t val(int k) { return (int64_t)k * 1000003 + 17; }
static void loader(const void* st, fiftyoneDegreesData* data, const void* key, fiftyoneDegreesException* exception) {
	int k = *(const int32_t*)key; loads[k]++; inLoader[k]++; mc::note("load %d", k);
	sched::point();
	if (!fiftyoneDegreesDataMalloc(data, 16)) { exception->status = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; inLoader[k]--; return; }
	int64_t* v = (int64_t*)data->ptr; if (!sched::isLive(v)) mc::fail("cache:data-dead", "the loader was given freed memory");
	v[0] = val(k); sched::point(); v[1] = ~val(k); data->used = 16; inLoader[k]--;
	if (k == failKey) exception->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR;
}
static void checkValue(fiftyoneDegreesCacheNode* n, int k, const char* when) {
	const int64_t* v = (const int64_t*)n->data.ptr;
	if (!v || !sched::isLive(v) || n->data.used != 16 || v[0] != val(k) || v[1] != ~val(k)) mc::fail("cache:wrong-value", "the entry of key %d holds another value %s", k, when);
}
static fiftyoneDegreesCacheNode* get(int k, bool mayFail) {
	sched::op("get"); int32_t key = k; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; gets++;
	auto n = fiftyoneDegreesCacheGet(cache, &key, &e);
	if (k == failKey) { MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR, "cache:no-error", "the loader failed for key %d, status %d", k, e.status); return nullptr; }
	if (!n) { if (mayFail) return nullptr; mc::fail("cache:false-full", "get of key %d failed although an entry is free", k); }
	MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == FIFTYONE_DEGREES_STATUS_SUCCESS, "cache:false-error", "status %d", e.status);
	checkValue(n, k, "on get"); return n;
}
static void rel(fiftyoneDegreesCacheNode* n, int k) { sched::op("release"); checkValue(n, k, "before release"); fiftyoneDegreesCacheRelease(n); }
// programs: digit = get, hold, release; '(' d = get and hold on; ')' = release the oldest held one
static void program(const char* p, bool mayFail) {
	std::vector<std::pair<fiftyoneDegreesCacheNode*, int>> held; bool open = false;
	for (; *p; p++) {
		if (*p == '(') { open = true; continue; }
		if (*p == ')') { if (!held.empty()) { rel(held[0].first, held[0].second); held.erase(held.begin()); } continue; }
		int k = *p - '0'; auto n = get(k, mayFail); if (!n) { open = false; continue; }
		if (open) { held.push_back({ n, k }); open = false; }
		else { sched::op("hold"); sched::point(); for (auto& h : held) checkValue(h.first, h.second, "while held"); rel(n, k); }
	}
	for (auto& h : held) rel(h.first, h.second);
}
static const char* nm[] = { "t0", "t1", "t2" };
static void race(uint32_t cap, uint16_t conc, const std::vector<const char*>& ps, int fk, int pb, bool every = true) {
	sched::begin(); memset(loads, 0, sizeof loads); memset(inLoader, 0, sizeof inLoader); gets = 0; failKey = fk; sched::preemptions = pb; sched::everyAccess = every; sched::horizon = 30000;
	mc::note("capacity=%u concurrency=%u failing=%d", cap, conc, fk); for (auto p : ps) mc::note("[%s]", p);
	cache = fiftyoneDegreesCacheCreate(cap, conc, loader, fiftyoneDegreesCacheHash32, &loaderTag); MC_CHECK(cache, "cache:create", "not created");
	// entries that one shard can be asked for at once: every thread holds at most its own
	for (size_t i = 0; i < ps.size(); i++) { const char* p = ps[i]; sched::spawn(nm[i], [p] { program(p, false); }); }
	sched::run();
	MC_CHECK((int)(cache->hits + cache->misses) == gets, "cache:counters", "%lu hits and %lu misses for %d gets", cache->hits, cache->misses, gets);
	int l = 0; for (int x : loads) l += x; MC_CHECK((int)cache->misses == l, "cache:counters", "%lu misses for %d loads", cache->misses, l);
	// keys that all fit their shard are loaded once
	std::set<int> used; for (auto p : ps) for (const char* q = p; *q; q++) if (*q >= '0' && *q <= '9') used.insert(*q - '0');
	if (used.size() <= cap / conc && !used.count(fk)) for (int k : used) MC_CHECK(loads[k] == 1, "cache:loaded-twice", "key %d loaded %d times although everything fits", k, loads[k]);
	std::string o; for (int k : used) o += mc::fmt("%d:%d ", k, loads[k]); mc::outcome(o);
	// full capacity is back
	failKey = -1; std::vector<fiftyoneDegreesCacheNode*> n; int want = cap / conc * conc;
	for (int i = 0; i < want; i++) n.push_back(get(20 + i, false));
	for (int i = 0; i < want; i++) checkValue(n[i], 20 + i, "at the end");
	for (int i = 0; i < want; i++) rel(n[i], 20 + i);
	fiftyoneDegreesCacheFree(cache); MC_CHECK(sched::liveBlocks() == 0, "cache:leak", "%zu block(s) left", sched::liveBlocks());
}
MC_SUITE(C06, two_threads, 4, "two threads getting and releasing the same or colliding keys of one or two shards, entries kept or evicted, loader failing, all schedules with at most 3 (thorough 4) preemptions at any memory access") {
	struct T { uint32_t cap; uint16_t conc; std::vector<const char*> p; int fail; };
	static std::vector<T> t = { { 2, 1, { "1", "1" }, -1 }, { 2, 1, { "1", "2" }, -1 }, { 2, 1, { "11", "12" }, -1 }, { 2, 1, { "12", "31" }, -1 }, { 3, 1, { "(12)", "(21)" }, -1 }, { 4, 1, { "(1(12", "(12" }, -1 },
		{ 4, 2, { "1", "2" }, -1 }, { 4, 2, { "12", "21" }, -1 }, { 4, 2, { "13", "31" }, -1 }, { 4, 2, { "(13)5", "1" }, -1 }, { 2, 1, { "1", "12" }, 2 }, { 2, 1, { "21", "2" }, 2 } };
	T x = mc::pick(t); race(x.cap, x.conc, x.p, x.fail, mc::tier(3, 4));
}
MC_SUITE(C06, three_threads, 4, "three threads, all schedules with at most 2 (thorough 3) preemptions at any memory access") {
	struct T { uint32_t cap; uint16_t conc; std::vector<const char*> p; int fail; };
	static std::vector<T> t = { { 3, 1, { "1", "1", "1" }, -1 }, { 3, 1, { "12", "2", "1" }, -1 }, { 3, 1, { "1", "2", "3" }, -1 }, { 3, 1, { "14", "25", "31" }, -1 }, { 9, 3, { "1", "2", "3" }, -1 }, { 6, 2, { "1", "3", "2" }, -1 }, { 3, 1, { "1", "2", "1" }, 2 } };
	T x = mc::pick(t); race(x.cap, x.conc, x.p, x.fail, mc::tier(2, 3));
}
MC_SUITE(C06, sync_deep, 4, "two threads, all schedules with at most 4 (thorough 6) preemptions at lock operations, loader steps and holds") {
	struct T { uint32_t cap; uint16_t conc; std::vector<const char*> p; int fail; };
	static std::vector<T> t = { { 2, 1, { "12", "21" }, -1 }, { 2, 1, { "11", "31" }, -1 }, { 4, 2, { "12", "23" }, -1 }, { 3, 1, { "(12)3", "13" }, -1 }, { 2, 1, { "12", "23" }, 2 } };
	T x = mc::pick(t);
	race(x.cap, x.conc, x.p, x.fail, mc::tier(4, 6), false);
}
