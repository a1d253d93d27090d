// FLAVOR: sched
// PROPS: C17
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
#include <set>
extern "C" { void* __wrap_malloc(size_t); void __wrap_free(void*); }
static size_t up(size_t n, size_t a) { return (n + a - 1) / a * a; }
// ---- histories of one thread ---------------------------------------------------------------
struct Blk { void* p; size_t size, figure; bool aligned, tracked; };
struct Req { size_t size; int align; };
static const Req REQ[] = { { 1, 0 }, { 24, 0 }, { 0, 0 }, { 1, 16 }, { 20, 16 }, { 32, 16 }, { 40, 64 }, { ((size_t)5 << 30) + 8, 0 }, { ((size_t)4 << 30), 16 } };
static size_t cur, mx; static std::vector<Blk> blks;
static void figures(const char* when) {
	size_t a = fiftyoneDegreesMemoryTrackingGetAllocated(), m = fiftyoneDegreesMemoryTrackingGetMax();
	MC_CHECK(a == cur, "memory:current", "%s: current %zu, blocks not freed hold %zu", when, a, cur); MC_CHECK(m == mx, "memory:max", "%s: maximum %zu, highest current %zu", when, m, mx);
}
static void freeBlock(size_t i) {
	Blk b = blks[i]; blks.erase(blks.begin() + i); if (b.tracked) cur -= b.figure;
	if (b.p) MC_CHECK(sched::isLive(b.p) || b.size == 0, "memory:gone", "a block that was not freed is gone");
	if (b.aligned) fiftyoneDegreesFreeAligned(b.p); else fiftyoneDegreesFree(b.p); if (b.p && b.size) MC_CHECK(!sched::isLive(b.p), "memory:kept", "a freed block was not given back");
}
static void history(int len, const std::vector<int>& reqs, int faults) {
	sched::begin(); sched::reuse = true; blks.clear(); cur = mx = 0; size_t base;
	fiftyoneDegreesSetUpMemoryTracking(); base = sched::liveBlocks(); figures("after set up"); bool on = true; int nr = (int)reqs.size();
	for (int s = 0; s < len; s++) {
		int op = mc::choose(nr + 6); mc::step(); size_t live = sched::liveBlocks();
		if (op < nr) {
			const Req& r = REQ[reqs[op]]; mc::note("alloc %zu/%d", r.size, r.align); sched::op("malloc"); size_t before = fiftyoneDegreesMemoryTrackingGetAllocated(); int f0 = sched::memFaults = faults; void* p = r.align ? fiftyoneDegreesMallocAligned(r.align, r.size) : fiftyoneDegreesMalloc(r.size); bool failed = sched::memFaults < f0; faults = sched::memFaults; sched::memFaults = 0;
			if (failed) { MC_CHECK(!p, "memory:half", "memory given although it could not be accounted for"); MC_CHECK(sched::liveBlocks() == live, "memory:leak", "a failed request left memory behind"); figures("after a failed request"); continue; }
			MC_CHECK(p, "memory:refused", "no memory"); if (r.align) MC_CHECK((uintptr_t)p % r.align == 0, "memory:alignment", "%p is not a multiple of %d", p, r.align);
			if (r.size && r.size < 1000) { MC_CHECK(sched::isLive(p) && sched::isLive((char*)p + r.size - 1), "memory:size", "less than %zu bytes", r.size); memset(p, 0x5A, r.size); }
			Blk b = { p, r.size, 0, r.align != 0, on }; if (on) { b.figure = fiftyoneDegreesMemoryTrackingGetAllocated() - before; size_t lo = r.size, hi = r.align ? up(r.size, r.align) : r.size; MC_CHECK(b.figure >= lo && b.figure <= hi, "memory:current", "a request for %zu bytes counted as %zu", r.size, b.figure); cur += b.figure; if (cur > mx) mx = cur; }
			blks.push_back(b); figures("after malloc");
		} else if (op == nr) { if (blks.empty()) mc::prune(); mc::note("free oldest"); sched::op("free"); freeBlock(0); figures("after free"); }
		else if (op == nr + 1) { if (blks.size() < 2) mc::prune(); mc::note("free newest"); sched::op("free"); freeBlock(blks.size() - 1); figures("after free"); }
		else if (op == nr + 2) { if (!on) mc::prune(); mc::note("reset"); sched::op("reset"); fiftyoneDegreesMemoryTrackingReset(); cur = mx = 0; for (auto& b : blks) b.tracked = false; figures("after reset"); }
		else if (op == nr + 3) {
			mc::note(on ? "unset" : "set up"); sched::op("set up"); if (on) { size_t r = fiftyoneDegreesUnsetMemoryTracking(); MC_CHECK(r == cur, "memory:unset", "%zu bytes reported, %zu not freed", r, cur); } else fiftyoneDegreesSetUpMemoryTracking();
			on = !on; cur = mx = 0; for (auto& b : blks) b.tracked = false; figures("after set up");
		} else if (op == nr + 4) { mc::note("free untracked"); sched::op("free"); void* p = fiftyoneDegreesMemoryStandardMalloc(8); fiftyoneDegreesFree(p); MC_CHECK(!sched::isLive(p), "memory:kept", "untracked memory was not given back"); figures("after freeing untracked memory"); }
		else { mc::note("free null"); sched::op("free"); fiftyoneDegreesFree(nullptr); figures("after freeing nothing"); }
		mc::state(mc::hashStr(mc::fmt("%zu %zu %d %zu", cur, mx, on, blks.size())));
	}
	while (!blks.empty()) freeBlock(0); figures("after freeing everything"); fiftyoneDegreesMemoryTrackingReset(); fiftyoneDegreesUnsetMemoryTracking(); mx = cur = 0; figures("at the end");
	MC_CHECK(sched::liveBlocks() == base, "memory:leak", "%ld block(s) left", (long)sched::liveBlocks() - (long)base);
}
MC_SUITE(C17, histories, 5, "every history of up to 7 (thorough 8) requests, frees (of tracked, untracked and no memory), resets and enabling or disabling, over plain and aligned requests including ones above 4 GiB, freed addresses being handed out again") { history(1 + mc::choose(mc::tierOf(6, 7, 8)), { 0, 4, 7 }, 0); }
MC_SUITE(C17, sizes, 4, "every history of up to 5 (thorough 6) operations over nine sizes and alignments") { history(1 + mc::choose(mc::tier(5, 6)), { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, 0); }
MC_SUITE(C17, faults, 4, "every history of up to 6 (thorough 7) operations with one (thorough two) requests to the system failing at every point") { history(1 + mc::choose(mc::tier(6, 7)), { 1, 4 }, mc::tier(1, 2)); }
// ---- threads -----------------------------------------------------------------------------------
// a, b, c: request 8, 24, aligned 32; f: free own oldest; x: free the next block left by the main thread
struct Step { size_t thread; long delta; };
static std::vector<void*> shared_; static size_t taken; static std::vector<std::vector<long>> deltas;
static void program(int t, const char* p) {
	std::vector<std::pair<void*, bool>> own;
	for (; *p; p++) switch (*p) {
	case 'a': case 'b': case 'c': { sched::op("malloc"); size_t n = *p == 'a' ? 8 : *p == 'b' ? 24 : 32; void* q = *p == 'c' ? fiftyoneDegreesMallocAligned(16, n) : fiftyoneDegreesMalloc(n); MC_CHECK(q && sched::isLive((char*)q + n - 1), "memory:size", "no or too little memory"); memset(q, t + 1, n); own.push_back({ q, *p == 'c' }); break; }
	case 'f': { sched::op("free"); auto o = own[0]; own.erase(own.begin()); MC_CHECK(sched::isLive(o.first) && *(char*)o.first == t + 1, "memory:gone", "memory not freed is gone or has been given to someone else"); o.second ? fiftyoneDegreesFreeAligned(o.first) : fiftyoneDegreesFree(o.first); break; }
	case 'x': { sched::op("free"); void* o = shared_[taken++]; fiftyoneDegreesFree(o); break; }
	}
	for (auto& o : own) shared_.push_back(o.first);
}
static const char* nm[] = { "t0", "t1", "t2" };
static void merges(const std::vector<std::vector<long>>& d, std::vector<size_t> at, long c, long m, std::set<long>& out, std::set<std::vector<long>>& seen) {
	std::vector<long> key(at.begin(), at.end()); key.push_back(c); key.push_back(m); if (!seen.insert(key).second) return; bool any = false;
	for (size_t i = 0; i < d.size(); i++) if (at[i] < d[i].size()) { any = true; long n = c + d[i][at[i]]; auto b = at; b[i]++; merges(d, b, n, std::max(m, n), out, seen); }
	if (!any) out.insert(m);
}
static void race(const std::vector<const char*>& ps, int pre, int pb, bool every) {
	sched::begin(); sched::preemptions = pb; sched::everyAccess = every; sched::reuse = true; for (auto p : ps) mc::note("[%s]", p); shared_.clear(); taken = 0;
	fiftyoneDegreesSetUpMemoryTracking(); size_t base = sched::liveBlocks(); for (int i = 0; i < pre; i++) shared_.push_back(fiftyoneDegreesMalloc(100)); shared_.reserve(64);
	deltas.assign(ps.size(), {}); for (size_t i = 0; i < ps.size(); i++) { std::vector<long> own; for (const char* p = ps[i]; *p; p++) { long n = *p == 'a' ? 8 : *p == 'b' ? 24 : 32; if (*p == 'x') deltas[i].push_back(-100); else if (*p == 'f') { deltas[i].push_back(-own[0]); own.erase(own.begin()); } else { own.push_back(n); deltas[i].push_back(n); } } }
	for (size_t i = 0; i < ps.size(); i++) { const char* p = ps[i]; sched::spawn(nm[i], [p, i] { program((int)i, p); }); } sched::run();
	long want = 100 * pre; for (auto& v : deltas) for (long x : v) want += x; long a = (long)fiftyoneDegreesMemoryTrackingGetAllocated(), m = (long)fiftyoneDegreesMemoryTrackingGetMax(); MC_CHECK(a == want, "memory:current", "current %ld, blocks not freed hold %ld", a, want);
	std::set<long> ok; std::set<std::vector<long>> seen; merges(deltas, std::vector<size_t>(ps.size(), 0), 100 * pre, 100 * pre, ok, seen); MC_CHECK(ok.count(m), "memory:max", "maximum %ld was never reached in any order of the operations", m); mc::outcome(mc::fmt("%ld %ld", a, m));
	sched::op("free"); for (size_t i = taken; i < shared_.size(); i++) fiftyoneDegreesFree(shared_[i]); MC_CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "memory:current", "%zu after freeing everything", fiftyoneDegreesMemoryTrackingGetAllocated());
	MC_CHECK(sched::liveBlocks() == base, "memory:leak", "%ld block(s) left", (long)sched::liveBlocks() - (long)base); MC_CHECK(fiftyoneDegreesUnsetMemoryTracking() == 0, "memory:unset", "bytes reported after freeing everything");
}
#ifndef FIFTYONE_DEGREES_NO_THREADING
MC_SUITE(C17, two_threads, 4, "two threads allocating and freeing their own and each other's blocks, all schedules with at most 3 (thorough 4) preemptions at any memory access") {
	static std::vector<std::vector<const char*>> t = { { "a", "b" }, { "af", "bf" }, { "xa", "xb" }, { "af", "x" }, { "abff", "c" } }; race(mc::pick(t), 2, mc::tier(3, 4), true);
}
MC_SUITE(C17, three_threads, 4, "three threads, and two with longer programs, all schedules with at most 4 (thorough 6) preemptions at lock operations") {
	static std::vector<std::vector<const char*>> t = { { "af", "bf", "cf" }, { "ab", "xa", "x" }, { "abfxf", "xbaff" } }; race(mc::pick(t), 2, mc::tier(4, 6), false);
}
#endif
