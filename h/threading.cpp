// FLAVOR: sched
// PROPS: C32
#include "mc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <string.h>
extern "C" { // not declared extern "C" by the library
fiftyoneDegreesSignal* newSignal() asm("fiftyoneDegreesSignalCreate"); void closeSignal(fiftyoneDegreesSignal*) asm("fiftyoneDegreesSignalClose"); void setSignal(fiftyoneDegreesSignal*) asm("fiftyoneDegreesSignalSet"); void waitSignal(fiftyoneDegreesSignal*) asm("fiftyoneDegreesSignalWait");
}
// A signal is an event that starts set: setting it sets it, a wait ends only when it is set and takes it.
struct Op { bool set; long from, to; }; // to < 0: not finished
static std::vector<Op> ops;
static bool explained(unsigned done, bool set, std::vector<char>& seen) { // is there an order of the operations that an event allows?
	size_t key = done * 2 + set; if (seen[key]) return false; seen[key] = 1; bool pending = false, all = true;
	for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) { if (ops[i].to >= 0) all = false; else pending = true; }
	if (all && !(pending && set)) return true;
	for (size_t i = 0; i < ops.size(); i++) {
		if (done >> i & 1 || ops[i].to < 0) continue; bool first = true; for (size_t j = 0; j < ops.size(); j++) if (j != i && !(done >> j & 1) && ops[j].to >= 0 && ops[j].to < ops[i].from) first = false;
		if (!first || (!ops[i].set && !set)) continue; if (explained(done | 1u << i, ops[i].set, seen)) return true;
	}
	return false;
}
static bool explain() { std::vector<char> seen(2u << ops.size(), 0); return explained(0, true, seen); }
static std::string show() { std::string s; for (auto& o : ops) s += mc::fmt("%s[%ld,%ld] ", o.set ? "set" : "wait", o.from, o.to); return s; }
static void scripts(int threads, int maxLen, int preemptions) {
	std::vector<std::vector<int>> sc(threads); int waits = 0; for (auto& s : sc) { int n = 1 + mc::choose(maxLen); for (int i = 0; i < n; i++) { s.push_back(mc::choose(2)); waits += s.back(); } } if (!waits) mc::prune();
	for (int i = 1; i < threads; i++) if (sc[i] < sc[i - 1]) mc::prune(); // the threads are alike
	std::string d; for (auto& s : sc) { for (int o : s) d += o ? "W" : "S"; d += " "; } mc::note("%s", d.c_str());
	sched::begin(); sched::preemptions = preemptions; sched::spurious = mc::tier(1, 2); sched::op("create"); fiftyoneDegreesSignal* g = newSignal(); MC_CHECK(g, "signal:create", "no signal"); ops.clear();
	for (auto& s : sc) sched::spawn(mc::fmt("t%d", (int)(&s - sc.data())).c_str(), [&s, g] { for (int o : s) { size_t me = ops.size(); ops.push_back({ o == 0, sched::now(), -1 }); sched::op(o ? "wait" : "set"); if (o) waitSignal(g); else setSignal(g); ops[me].to = sched::now(); } });
	bool stuck = false; sched::onStuck = [&] { stuck = true; for (auto& o : ops) if (o.set && o.to < 0) return false; return true; }; sched::run();
	MC_CHECK(explain(), stuck ? "signal:lost" : "signal:order", "no order of these is allowed: %s", show().c_str()); mc::outcome(mc::fmt("%zu %d", ops.size(), stuck));
	if (!stuck) { sched::op("close"); closeSignal(g); MC_CHECK(sched::liveSync() == 0 && sched::liveBlocks() == 0, "signal:leak", "%zu mutexes or conditions and %zu blocks left after closing", sched::liveSync(), sched::liveBlocks()); }
}
MC_SUITE(C32, signals2, 4, "2 threads with every script of up to 3 (thorough 4) sets and waits each, every interleaving of up to 4 (thorough 5) preemptions, a spurious wake-up (thorough two) anywhere: the outcome, also who stays blocked, is one an event that starts set allows") { scripts(2, mc::tier(3, 4), mc::tier(4, 5)); }
MC_SUITE(C32, signals3, 4, "3 threads with every script of up to 2 sets and waits each, every interleaving of up to 3 (thorough 4) preemptions, a spurious wake-up (thorough two) anywhere") { scripts(3, 2, mc::tier(3, 4)); }
MC_SUITE(C32, signals4, 4, "4 threads with one set or wait each, every interleaving of up to 3 (thorough 4) preemptions, a spurious wake-up (thorough two) anywhere") { scripts(4, 1, mc::tier(3, 4)); }
MC_SUITE(C32, mutex, 2, "2 or 3 threads entering a section guarded by a mutex twice each, every interleaving of up to 3 (thorough 4) preemptions, two mutexes in a row, creation and closing") {
	sched::begin(); int n = 2 + mc::choose(2); sched::preemptions = mc::tier(3, 4) - (n - 2); static fiftyoneDegreesMutex m[2]; int inside[2] = { 0, 0 }, entered = 0; sched::op("create"); for (auto& x : m) fiftyoneDegreesMutexCreate(&x); MC_CHECK(sched::liveSync() == 2, "mutex:create", "%zu of 2 mutexes", sched::liveSync());
	for (int i = 0; i < n; i++) sched::spawn(mc::fmt("t%d", i).c_str(), [&, i] { for (int k = 0; k < 2; k++) { int w = k; sched::op("lock"); fiftyoneDegreesMutexLock(&m[w]); MC_CHECK(++inside[w] == 1, "mutex:overlap", "%d threads in the section", inside[w]); sched::point(); sched::point(); entered++; MC_CHECK(--inside[w] == 0, "mutex:overlap", "%d threads in the section", inside[w] + 1); sched::op("unlock"); fiftyoneDegreesMutexUnlock(&m[w]); } });
	sched::run(); MC_CHECK(entered == 2 * n, "mutex:entered", "%d of %d entered", entered, 2 * n); sched::op("close"); for (auto& x : m) fiftyoneDegreesMutexClose(&x); MC_CHECK(sched::liveSync() == 0, "mutex:leak", "%zu mutexes left", sched::liveSync()); mc::outcome("ok");
}
MC_SUITE(C32, lifetime, 2, "creating and closing up to 3 signals in every order, with memory and every mutex or condition creation failing") {
	sched::begin(); sched::memFaults = 1; sched::initFaults = 2; std::vector<fiftyoneDegreesSignal*> live; int n = 1 + mc::choose(6); mc::note("%d", n);
	for (int i = 0; i < n; i++) {
		if (live.size() < 3 && (live.empty() || mc::flip())) { int f = sched::memFaults + sched::initFaults; sched::op("create"); auto g = newSignal(); bool hit = sched::memFaults + sched::initFaults != f; MC_CHECK((g != nullptr) == !hit, "signal:create", hit ? "a signal without what it needs" : "no signal"); if (g) live.push_back(g); }
		else { int k = mc::choose((int)live.size()); sched::op("close"); closeSignal(live[k]); live.erase(live.begin() + k); }
		MC_CHECK(sched::liveSync() == 2 * live.size(), "signal:leak", "%zu mutexes and conditions for %zu signals", sched::liveSync(), live.size()); MC_CHECK(sched::liveBlocks() == live.size(), "signal:leak-memory", "%zu blocks for %zu signals", sched::liveBlocks(), live.size());
	}
	closeSignal(nullptr); for (auto g : live) closeSignal(g); mc::outcome(mc::fmt("%zu", live.size()));
}
