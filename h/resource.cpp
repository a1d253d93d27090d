// FLAVOR: sched
// PROPS: C01 C02
#include "mc.hpp"
#include "sched.hpp"
#include "resource.h"
#include <string.h>
typedef fiftyoneDegreesResourceHandle Handle; typedef fiftyoneDegreesResourceManager Manager;
enum { MAXR = 12 };
struct Res { int id; };
static Res* res[MAXR]; static int freed[MAXR], holders[MAXR]; static long tInstallStart[MAXR], tInstallEnd[MAXR], tDrop[MAXR]; static int nRes;
static Manager* mgr; static bool uafTolerated, lifetime; // lifetime: this suite judges C01
static void freeResource(void* p) {
	if (p == nullptr) return;
	Res* r = (Res*)p; int id = -1; for (int i = 0; i < nRes; i++) if (res[i] == r) id = i;
	if (id < 0) mc::fail("resource:unknown-freed", "the free callback got something that is not a resource");
	if (freed[id]++) mc::fail("resource:double-free", "resource %d freed twice", id);
	if (holders[id] > 0) mc::fail("resource:freed-in-use", "resource %d freed while %d handle(s) to it are held", id, holders[id]);
	mc::note("free r%d", id);
	sched::release(r);
}
static int newRes() { int id = nRes++; res[id] = (Res*)sched::alloc(sizeof(Res), "resource"); res[id]->id = id; freed[id] = 0; holders[id] = 0; tInstallStart[id] = tInstallEnd[id] = -1; return id; }
// The handle's own memory: documented finding (see KNOWN_FINDINGS.txt). The
// exploration carries on as the freed block keeps its content.
static bool tolerate(const sched::Access& a) {
	if (strcmp(a.kind, "use-after-free") || !strcmp(a.tag, "resource")) return false;
	uafTolerated = true;
	if (lifetime) mc::report(mc::fmt("handle-touched-after-free:%s", a.op).c_str(), "%s of handle memory that was freed by a concurrent %s; %s", a.write ? "write" : "read", a.freedBy, mc::trace());
	return true;
}
static void init(bool reuse) {
	sched::begin(); nRes = 0; uafTolerated = false; sched::onBadAccess = tolerate; sched::reuse = reuse; sched::horizon = 20000;
	mgr = (Manager*)sched::alloc(sizeof(Manager), "manager");
	int r = newRes(); Handle* h = nullptr;
	fiftyoneDegreesResourceManagerInit(mgr, res[r], &h, freeResource);
	tInstallStart[r] = tInstallEnd[r] = 0;
	MC_CHECK(h != nullptr && h->resource == res[r], "resource:init-handle", "the handle set by init is not the resource's");
}
struct Held { Handle* h; int id; };
static Held acquire() {
	sched::op("acquire"); long t0 = sched::now();
	Handle* h = fiftyoneDegreesResourceHandleIncUse(mgr);
	if (!h) {
		// The handle read at the start was nulled by a replacement that overlaps the call: documented finding.
		bool overlap = uafTolerated; for (int j = 1; j < nRes; j++) if (tInstallStart[j] >= 0 && (tInstallEnd[j] < 0 || tInstallEnd[j] >= t0)) overlap = true;
		if (overlap && !lifetime) mc::prune();
		mc::fail(overlap ? "null-handle-under-replace" : "resource:null-handle", "acquire gave no handle");
	}
	Res* r = (Res*)h->resource; int id = -1; for (int i = 0; i < nRes; i++) if (res[i] == r) id = i;
	if (id < 0) mc::fail("resource:wrong", "acquire gave a handle to something that was never installed");
	if (freed[id]) mc::fail("resource:acquired-freed", "acquire gave resource %d which has been freed", id);
	holders[id]++;
	// not older than a replacement which had returned before this call
	for (int j = 0; j < nRes; j++) if (j != id && tInstallEnd[j] >= 0 && tInstallEnd[j] < t0 && tInstallEnd[id] >= 0 && tInstallEnd[id] < tInstallStart[j])
		mc::fail("resource:stale", "acquire returned resource %d although resource %d had replaced it before the call", id, j);
	mc::note("got r%d", id);
	return { h, id };
}
static void use(const Held& h) {
	if (!sched::isLive(res[h.id])) mc::fail("resource:freed-in-use", "resource %d gone while held", h.id);
	if (h.h->resource != res[h.id]) mc::fail("resource:handle-changed", "a held handle now refers to another resource");
}
static void release(const Held& h) { sched::op("release"); use(h); holders[h.id]--; fiftyoneDegreesResourceHandleDecUse(h.h); }
static void replace() {
	int id = newRes(); sched::op("replace"); tInstallStart[id] = sched::now(); Handle* nh = nullptr;
	fiftyoneDegreesResourceReplace(mgr, res[id], &nh);
	tInstallEnd[id] = sched::now();
	MC_CHECK(nh != nullptr, "resource:replace-null", "no handle reported for the replacement");
	mc::note("installed r%d", id);
	if (sched::isLive(nh)) MC_CHECK(nh->resource == res[id] || freed[id], "resource:replace-handle", "the handle reported by replace is not the new resource's");
}
static void quiescentChecks(bool freeManager, int stillHeld) {
	// every resource that is neither active nor held is freed, the active one is not
	Held h = acquire(); int active = h.id;
	MC_CHECK(fiftyoneDegreesResourceHandleGetUse(h.h) == holders[active], "resource:use-count", "use count %d, %d acquisitions not released", fiftyoneDegreesResourceHandleGetUse(h.h), holders[active]);
	for (int j = 0; j < nRes; j++) if (j != active && tInstallEnd[active] >= 0 && tInstallEnd[active] < tInstallStart[j])
		mc::fail("resource:lost-replacement", "resource %d is active although resource %d replaced it later", active, j);
	release(h);
	for (int j = 0; j < nRes; j++) {
		if (j == active) MC_CHECK(!freed[j], "resource:active-freed", "the active resource %d was freed", j);
		else if (holders[j] == 0) MC_CHECK(freed[j] == 1, "resource:not-freed", "resource %d is replaced and released but was not freed", j);
	}
	mc::outcome(mc::fmt("active %d of %d", active, nRes));
	if (freeManager) {
		fiftyoneDegreesResourceManagerFree(mgr);
		for (int j = 0; j < nRes; j++) if (holders[j] == 0) MC_CHECK(freed[j] == 1, "resource:not-freed", "resource %d not freed when the manager was freed", j);
	}
	if (!stillHeld && freeManager) MC_CHECK(sched::liveBlocks() == 1, "resource:leak", "%zu block(s) left after the manager was freed", sched::liveBlocks() - 1);
}
// One thread's program: letters. A acquire/use/release, H acquire and keep
// for the main thread, P replace, N two nested acquisitions.
static Held kept[8]; static int nKept;
static void program(const char* p) {
	for (; *p; p++) switch (*p) {
	case 'A': { Held h = acquire(); sched::op("use"); sched::point(); use(h); sched::point(); release(h); break; }
	case 'N': { Held a = acquire(); Held b = acquire(); sched::op("use"); sched::point(); use(a); use(b); release(a); use(b); sched::point(); release(b); break; }
	case 'H': { Held h = acquire(); kept[nKept++] = h; break; }
	case 'P': replace(); break;
	}
}
static const char* names[] = { "T0", "T1", "T2" };
static void race(std::vector<const char*> progs, int pb, bool every, bool reuse) {
	for (auto p : progs) mc::note("[%s]", p);
	init(reuse); nKept = 0; sched::preemptions = pb; sched::everyAccess = every;
	for (size_t i = 0; i < progs.size(); i++) { const char* p = progs[i]; sched::spawn(names[i], [p] { program(p); }); }
	sched::run();
	for (int i = 0; i < nKept; i++) use(kept[i]);
	int k = nKept;
	if (k && mc::flip()) { // free the manager first, handles later
		fiftyoneDegreesResourceManagerFree(mgr);
		for (int i = 0; i < k; i++) { use(kept[i]); release(kept[i]); }
		for (int j = 0; j < nRes; j++) MC_CHECK(freed[j] == 1, "resource:not-freed", "resource %d not freed after the manager was freed and all handles released", j);
		MC_CHECK(sched::liveBlocks() == 1, "resource:leak", "%zu block(s) left", sched::liveBlocks() - 1);
		return;
	}
	quiescentChecks(false, k);
	for (int i = 0; i < k; i++) release(kept[i]);
	quiescentChecks(true, 0);
}
static std::vector<const char*> two1 = { "A", "P", "N", "AA", "AP", "PA", "PP", "H", "HP", "PH" };
static void twoThreads(int pb) {
	int i = mc::choose((int)two1.size()), j = mc::choose((int)two1.size()); if (j < i) mc::prune();
	race({ two1[i], two1[j] }, pb, true, false);
}
#ifndef FIFTYONE_DEGREES_NO_THREADING
MC_SUITE(C01, two_threads, 5, "two threads, one to two operations each (acquire/use/release, nested, replace, keep), all schedules with at most 3 (thorough 4) preemptions at any memory access") { lifetime = true; twoThreads(mc::tier(3, 4)); }
MC_SUITE(C02, two_threads, 5, "two threads, one to two operations each, all schedules with at most 3 (thorough 4) preemptions at any memory access") { lifetime = false; twoThreads(mc::tier(3, 4)); }
static void threeThreads(int pb) {
	static std::vector<std::vector<const char*>> t = { { "A", "A", "P" }, { "A", "P", "P" }, { "P", "P", "P" }, { "H", "A", "P" }, { "H", "P", "P" }, { "N", "A", "P" }, { "A", "PP", "A" } };
	auto p = mc::pick(t); race(p, pb, true, false);
}
MC_SUITE(C01, three_threads, 5, "three threads, all schedules with at most 3 (thorough 4) preemptions") { lifetime = true; threeThreads(mc::tier(3, 4)); }
MC_SUITE(C02, three_threads, 5, "three threads, all schedules with at most 3 (thorough 4) preemptions") { lifetime = false; threeThreads(mc::tier(3, 4)); }
static void unbounded() {
	static std::vector<std::vector<const char*>> t = { { "A", "P" }, { "P", "P" }, { "A", "A" }, { "H", "P" } };
	auto p = mc::pick(t); race(p, mc::tier(6, 9), true, false);
}
MC_SUITE(C01, deep, 6, "two threads with one operation each, all schedules with at most 6 (thorough 9) preemptions") { lifetime = true; unbounded(); }
MC_SUITE(C02, deep, 6, "two threads with one operation each, all schedules with at most 6 (thorough 9) preemptions") { lifetime = false; unbounded(); }

// Freeing the manager while other threads release handles acquired before.
MC_SUITE(C01, free_race, 4, "one thread frees the manager while one or two others release handles acquired before, all schedules with at most 3 (thorough 5) preemptions") { lifetime = true;
	int n = 1 + mc::choose(2); bool rep = mc::flip(), same = mc::flip();
	init(false); sched::preemptions = n == 1 ? mc::tier(4, 6) : mc::tier(3, 4); sched::everyAccess = true;
	std::vector<Held> h; h.push_back(acquire()); if (rep) replace(); if (n == 2) h.push_back(acquire()); if (same) h.push_back(acquire());
	mc::note("holders=%zu replaced=%d", h.size(), rep);
	for (int i = 0; i < n; i++) { std::vector<Held> mine; mine.push_back(h[i]); if (same && i == 0) mine.push_back(h.back()); sched::spawn(names[i], [mine] { for (auto& x : mine) { sched::point(); release(x); } }); }
	sched::spawn("F", [] { sched::op("free"); fiftyoneDegreesResourceManagerFree(mgr); });
	sched::run();
	for (int j = 0; j < nRes; j++) MC_CHECK(freed[j] == 1, "resource:not-freed", "resource %d freed %d times at the end", j, freed[j]);
	MC_CHECK(sched::liveBlocks() == 1, "resource:leak", "%zu block(s) left", sched::liveBlocks() - 1);
	mc::outcome(mc::fmt("%d", n));
}
// Sequential histories.
#endif
MC_SUITE(C01, histories, 3, "all sequential histories of acquire, release of any held handle, replace and final free up to 7 (thorough 9) operations") { lifetime = true;
	init(mc::flip()); std::vector<Held> held; int len = mc::tier(7, 9);
	for (int s = 0; s < len; s++) {
		int n = 2 + (int)held.size(); int o = mc::choose(n + 1);
		if (o == 0) break;
		mc::step();
		if (o == 1) held.push_back(acquire());
		else if (o == 2) { if (nRes >= MAXR) mc::prune(); replace(); }
		else { int k = o - 3; Held h = held[k]; held.erase(held.begin() + k); release(h); }
		for (auto& h : held) { use(h); MC_CHECK(fiftyoneDegreesResourceHandleGetUse(h.h) == holders[h.id], "resource:use-count", "use count %d expected %d", fiftyoneDegreesResourceHandleGetUse(h.h), holders[h.id]); }
		for (int j = 0; j + 1 < nRes; j++) MC_CHECK((freed[j] == 1) == (holders[j] == 0), "resource:not-freed", "resource %d: %d holder(s) but freed=%d", j, holders[j], freed[j]);
		MC_CHECK(!freed[nRes - 1], "resource:active-freed", "the active resource was freed");
		std::string st; for (int j = 0; j < nRes; j++) st += mc::fmt("%d,%d;", holders[j], freed[j]); mc::state(mc::hashStr(st));
	}
	fiftyoneDegreesResourceManagerFree(mgr);
	while (!held.empty()) { int k = mc::choose((int)held.size()); Held h = held[k]; held.erase(held.begin() + k); use(h); release(h); }
	for (int j = 0; j < nRes; j++) MC_CHECK(freed[j] == 1, "resource:not-freed", "resource %d freed %d times at the end", j, freed[j]);
	MC_CHECK(sched::liveBlocks() == 1, "resource:leak", "%zu block(s) left", sched::liveBlocks() - 1);
}
