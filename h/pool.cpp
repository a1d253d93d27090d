// FLAVOR: sched
// PROPS: C03
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
typedef fiftyoneDegreesPoolItem PItem;
typedef fiftyoneDegreesException Exc;
struct Res { int id; };
static Res* res[16]; static int nRes, freedRes[16], owner_[16], failAt, createCalls; static Pool* pool; static int N; static int stateTag;
static void* create(Pool* p, void* st, Exc* exception) {
	MC_CHECK(st == &stateTag, "pool:create-state", "create callback got another state"); MC_CHECK(p == pool, "pool:create-pool", "create callback got another pool");
	createCalls++;
	if (createCalls == failAt) { exception->status = FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND; return nullptr; }
	int id = nRes++; res[id] = (Res*)sched::alloc(sizeof(Res), "pooled"); res[id]->id = id; freedRes[id] = 0; owner_[id] = -1; return res[id];
}
static void freeRes(Pool* p, void* r) {
	MC_CHECK(p == pool, "pool:free-pool", "free callback got another pool");
	for (int i = 0; i < nRes; i++) if (res[i] == r) { MC_CHECK(!freedRes[i]++, "pool:double-free", "resource %d freed twice", i); sched::release(r); return; }
	mc::fail("pool:free-unknown", "free callback got something that was not created");
}
struct Span { long s, e; bool ok; }; static std::vector<Span> spans; // e of an ok span: end of its release
static bool init(int n, int failing, int memF) {
	sched::begin(); nRes = 0; createCalls = 0; failAt = failing; N = n; spans.clear(); sched::horizon = 20000;
	pool = (Pool*)sched::alloc(sizeof(Pool), "pool"); memset(pool, 0xA5, sizeof(Pool));
	Exc e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; sched::memFaults = memF;
	fiftyoneDegreesPoolInit(pool, (uint16_t)n, &stateTag, create, freeRes, &e);
	bool faulted = memF && !sched::memFaults; sched::memFaults = 0;
	if (faulted) MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "pool:init-status", "status %d after a failed allocation", e.status);
	else if (failing && failing <= n) MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "pool:init-status", "status %d after a failed creation", e.status);
	else { MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == FIFTYONE_DEGREES_STATUS_SUCCESS, "pool:init-status", "status %d after success", e.status); MC_CHECK(nRes == n, "pool:init-count", "%d resources created for concurrency %d", nRes, n); return true; }
	return false;
}
static int idOf(PItem* it) {
	for (int i = 0; i < nRes; i++) if (res[i] == it->resource) return i;
	mc::fail("pool:wrong-item", "the item does not hold a created resource");
}
struct Got { PItem* it; int id; int span; };
static Got get(int who) {
	sched::op("get"); Exc e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; long s = sched::now();
	PItem* it = fiftyoneDegreesPoolItemGet(pool, &e); long t = sched::now();
	int k = (int)spans.size(); spans.push_back({ s, it ? -1 : t, it != nullptr });
	if (!it) { mc::note("t%d none", who); MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "pool:exhausted-status", "null item with status %d", e.status); return { nullptr, -1, k }; }
	MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == FIFTYONE_DEGREES_STATUS_SUCCESS, "pool:get-status", "item with status %d", e.status);
	int id = idOf(it); MC_CHECK(owner_[id] < 0, "pool:two-holders", "resource %d given to t%d while t%d holds it", id, who, owner_[id]);
	owner_[id] = who; mc::note("t%d got %d", who, id); return { it, id, k };
}
static void put(Got& g, int who) {
	sched::op("release"); MC_CHECK(owner_[g.id] == who, "pool:two-holders", "resource %d changed holder while held", g.id);
	MC_CHECK(g.it->resource == res[g.id], "pool:item-changed", "the held item now has another resource");
	owner_[g.id] = -1; fiftyoneDegreesPoolItemRelease(g.it); spans[g.span].e = sched::now(); g.it = nullptr;
}
static void finish(int heldByMain) {
	// every failed get must have seen a moment when all items were held (or were on the way in or out)
	for (auto& f : spans) if (!f.ok) {
		bool full = false;
		for (auto& c : spans) { long t = c.s < f.s ? f.s : c.s; if (c.ok && t <= f.e) { int k = 0; for (auto& x : spans) if (x.ok && x.s <= t && (x.e < 0 || x.e >= t)) k++; if (k >= N) full = true; } }
		if (N == 0) full = true;
		MC_CHECK(full, "pool:false-exhaustion", "a get failed although not all %d items were held at any moment of the call", N);
	}
	std::vector<Got> g; for (int i = heldByMain; i < N; i++) { Got x = get(9); MC_CHECK(x.it, "pool:item-lost", "only %d of %d items can be got after all were released", i, N); g.push_back(x); }
	Got x = get(9); MC_CHECK(!x.it, "pool:too-many", "more items than the pool has");
	for (auto& y : g) put(y, 9);
}
static void freePool() {
	fiftyoneDegreesPoolFree(pool);
	for (int i = 0; i < nRes; i++) MC_CHECK(freedRes[i] == 1, "pool:not-freed", "resource %d freed %d times", i, freedRes[i]);
	MC_CHECK(sched::liveBlocks() == 1, "pool:leak", "%zu block(s) left after the pool was freed", sched::liveBlocks() - 1);
	// a freed pool is empty: freeing it again does nothing
	fiftyoneDegreesPoolFree(pool); MC_CHECK(sched::liveBlocks() == 1, "pool:leak", "second free");
}
static void program(int who, const char* p) {
	std::vector<Got> h;
	for (; *p; p++) {
		if (*p == 'g') { Got g = get(who); if (g.it) h.push_back(g); }
		else if (*p == 'r') { if (!h.empty()) { Got g = h.front(); h.erase(h.begin()); sched::op("hold"); sched::point(); put(g, who); } }
		else if (*p == 'R') { if (!h.empty()) { Got g = h.back(); h.pop_back(); sched::point(); put(g, who); } }
	}
	for (auto& g : h) put(g, who);
}
static const char* nm[] = { "t0", "t1", "t2", "t3" };
static void race(const std::vector<const char*>& ps, int n, int pb) {
	init(n, 0, 0); sched::preemptions = pb; sched::everyAccess = true; mc::note("n=%d", n); for (auto p : ps) mc::note("[%s]", p);
	for (size_t i = 0; i < ps.size(); i++) { const char* p = ps[i]; int w = (int)i; sched::spawn(nm[i], [w, p] { program(w, p); }); }
	sched::run(); int nn = 0; for (auto& s : spans) nn += !s.ok;
	finish(0); mc::outcome(mc::fmt("%d threads %d items %d refusals", (int)ps.size(), n, nn)); freePool();
}
#ifndef FIFTYONE_DEGREES_NO_THREADING
MC_SUITE(C03, two_threads, 5, "two threads of get/release programs (up to two items held, released in either order) on pools of 1 to 3 items, all schedules with at most 4 (thorough 6) preemptions at any memory access") {
	static std::vector<const char*> ps = { "gr", "ggrr", "ggRR", "grgr" };
	int i = mc::choose(4), j = mc::choose(4); if (j < i) mc::prune();
	race({ ps[i], ps[j] }, 1 + mc::choose(3), mc::tier(4, 6));
}
MC_SUITE(C03, three_threads, 5, "three threads of get/release programs on pools of 1 to 3 items, all schedules with at most 3 (thorough 4) preemptions") {
	static std::vector<std::vector<const char*>> ps = { { "gr", "gr", "gr" }, { "grgr", "ggrr", "gr" }, { "gr", "ggRR", "gr" }, { "ggrr", "ggrr", "grgr" } };
	auto p = mc::pick(ps); race(p, 1 + mc::choose(3), mc::tier(3, 4));
}
MC_SUITE(C03, aba, 4, "one thread interrupted in a get or release while the others get and release the same items in every order, unbounded switches inside the first operation") {
	static std::vector<std::vector<const char*>> ps = { { "g", "ggrrgg" }, { "gr", "ggRgr" }, { "gg", "grgrgr" }, { "grg", "ggrgR" } };
	auto p = mc::pick(ps); race(p, 2 + mc::choose(2), mc::tier(4, 6));
}
#endif
MC_SUITE(C03, histories, 4, "all sequential histories of get and release (any held item) of up to 8 (thorough 10) operations on pools of 0 to 4 items, creation failing at every position, allocation failing") {
	int n = mc::choose(5); int f = mc::choose(n + 1); int m = mc::choose(2);
	mc::note("n=%d failing=%d", n, f);
	if (!init(n, f, m)) { freePool(); return; }
	if (m) mc::prune();
	std::vector<Got> held; int len = mc::tier(8, 10);
	for (int s = 0; s < len; s++) {
		int o = mc::choose(2 + (int)held.size()); if (o == 0) break;
		mc::step();
		if (o == 1) { Got g = get(0); MC_CHECK((g.it != nullptr) == ((int)held.size() < n), "pool:false-exhaustion", "%zu of %d held, get gave %s", held.size(), n, g.it ? "an item" : "none"); if (g.it) held.push_back(g); }
		else { Got g = held[o - 2]; held.erase(held.begin() + (o - 2)); put(g, 0); }
		std::string st = mc::fmt("%d|", n); for (int i = 0; i < n; i++) st += owner_[i] < 0 ? '0' : '1'; mc::state(mc::hashStr(st));
	}
	for (int i = (int)held.size(); i < n; i++) { Got g = get(0); MC_CHECK(g.it, "pool:item-lost", "item lost"); held.push_back(g); }
	if (mc::flip()) for (auto& g : held) put(g, 0);   // freeing a pool frees resources in use too
	freePool();
}
static int bigCreated; static char bigRes[70000]; static std::vector<int> bigFreed;
static void* bigCreate(Pool*, void*, Exc*) { return bigCreated < 70000 ? &bigRes[bigCreated++] : nullptr; }
static void bigFree(Pool*, void* r) { bigFreed[(char*)r - bigRes]++; }
MC_SUITE(C03, sizes, 1, "pools of every size class up to the largest concurrency: exactly that many items, each once, freed once") {
	static const int sizes[] = { 0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535 };
	int n = sizes[mc::choose(10)]; mc::note("n=%d", n); mc::label("n=%d", n); sched::begin(); bigCreated = 0; bigFreed.assign(70000, 0);
	pool = (Pool*)sched::alloc(sizeof(Pool), "pool"); Exc e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET;
	fiftyoneDegreesPoolInit(pool, (uint16_t)n, nullptr, bigCreate, bigFree, &e);
	MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET, "pool:init-status", "status %d", e.status); MC_CHECK(bigCreated == n, "pool:init-count", "%d resources created for concurrency %d", bigCreated, n);
	std::vector<PItem*> it; std::vector<char> seen(70000, 0);
	for (int i = 0; i < n; i++) { PItem* x = fiftyoneDegreesPoolItemGet(pool, &e); MC_CHECK(x, "pool:item-lost", "item %d of %d not available", i, n); int k = (int)((char*)x->resource - bigRes); MC_CHECK(!seen[k]++, "pool:two-holders", "same item twice"); it.push_back(x); }
	MC_CHECK(!fiftyoneDegreesPoolItemGet(pool, &e) && e.status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "pool:too-many", "no exhaustion after %d", n);
	for (auto x : it) fiftyoneDegreesPoolItemRelease(x);
	for (int i = 0; i < n; i++) MC_CHECK(fiftyoneDegreesPoolItemGet(pool, &e), "pool:item-lost", "item %d of %d not available again", i, n);
	fiftyoneDegreesPoolFree(pool); for (int i = 0; i < bigCreated; i++) MC_CHECK(bigFreed[i] == 1, "pool:not-freed", "resource %d freed %d times", i, bigFreed[i]);
	MC_CHECK(sched::liveBlocks() == 1, "pool:leak", "blocks left"); mc::state(n);
}
