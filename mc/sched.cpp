#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "sched.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <exception>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

extern "C" {
extern void* (*fiftyoneDegreesMalloc)(size_t);
extern void* (*fiftyoneDegreesMallocAligned)(int, size_t);
extern void (*fiftyoneDegreesFree)(void*);
extern void (*fiftyoneDegreesFreeAligned)(void*);
extern char __data_start, _end;
}
namespace mc { void exploreInline(void (*body)(), long maxExecs); }

namespace sched {
// ---- coroutines ---------------------------------------------------------------
extern "C" void mc_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
)");
enum { MAXT = 8, STACK = 256 * 1024 };
enum State { RUN, BLOCK_MUTEX, BLOCK_COND, DONE };
struct Thread {
	void* sp; char* stack; std::function<void()> f; std::string name; State st; const void* on; const char* op; long steps; int vc[MAXT];
};
static Thread th[MAXT]; static int nT = 0, cur = -1; static void* mainSp; static std::exception_ptr failure; static bool running = false;
static long steps; static bool inRuntime = false;

int preemptions; bool everyAccess, reuse; int spurious, memFaults, ioFaults, initFaults; long horizon; std::function<bool()> onStuck; std::function<bool(const Access&)> onBadAccess; bool sharedHandleUse;
static std::unordered_set<uintptr_t> racy; static bool learning = false;
size_t racyPoints() { return racy.size(); }
int self() { return cur; }
long now() { return steps; }

// ---- arena -----------------------------------------------------------------------
static char* const BASE = (char*)0x200000000000ULL; enum : size_t { ARENA = 64u << 20 };
static unsigned char* shadow; static size_t top; // shadow: 0 unallocated, 1 live, 2 freed
struct Block { size_t off, size; bool live; const char* tag; const char* freedBy; bool aligned; bool mutexLive; };
static std::vector<Block> blocks; static size_t live_, bytes_;
static std::map<size_t, std::vector<size_t>> freeLists;   // size -> block indexes
static bool inArena(const void* p) { return (char*)p >= BASE && (char*)p < BASE + ARENA; }
static Block* blockOf(const void* p) {
	size_t o = (char*)p - BASE; size_t lo = 0, hi = blocks.size();
	while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].off <= o) lo = m + 1; else hi = m; }
	return lo ? &blocks[lo - 1] : nullptr;
}
static const char* mainOp = "main";
static const char* curOp() { return cur >= 0 && th[cur].op ? th[cur].op : mainOp; }
static void* arenaAlloc(size_t n, size_t al, const char* tag, bool aligned) {
	if (reuse) { auto it = freeLists.find(n); if (it != freeLists.end() && !it->second.empty()) {
		for (int k = (int)it->second.size() - 1; k >= 0; k--) {
			Block& b = blocks[it->second[k]]; if (al && b.off % al) continue;
			it->second.erase(it->second.begin() + k); b.live = true; b.tag = tag; b.aligned = aligned; memset(shadow + b.off, 1, n); live_++; bytes_ += n; return BASE + b.off; }
	} }
	if (al < 16) al = 16;
	size_t o = (top + al - 1) / al * al; if (o + n + 32 > ARENA) { mc::fail("memory-exhausted", "more than %zu bytes allocated", (size_t)ARENA); }
	memset(shadow + o, 1, n); memset(BASE + o, 0xA5, n); blocks.push_back({ o, n, true, tag, nullptr, aligned, false }); top = o + n + 32; live_++; bytes_ += n; return BASE + o;
}
static void arenaFree(void* p, bool aligned, bool plain) {
	if (!p) return;
	Block* b = inArena(p) ? blockOf(p) : nullptr;
	if (!b || BASE + b->off != p) mc::fail("bad-free", "free of a wild pointer in %s", curOp());
	if (!b->live) { mc::fail(mc::fmt("double-free:%s", curOp()).c_str(), "block of %zu bytes freed by %s freed again by %s", b->size, b->freedBy, curOp()); }
	b->live = false; b->freedBy = curOp(); memset(shadow + b->off, 2, b->size); live_--; bytes_ -= b->size;
	if (reuse) freeLists[b->size].push_back(b - blocks.data());
}
static bool memFail() {
	if (memFaults > 0 && !learning && mc::choose(2)) { memFaults--; mc::note("ALLOC FAILS in %s", curOp()); return true; }
	return false;
}
static void* xmalloc(size_t n) { if (n >= (size_t)1 << 31) n = 48; /* only the request counts: nothing may touch it */ return memFail() ? nullptr : arenaAlloc(n, 0, curOp(), false); }
static void* xaligned(int al, size_t n) { if (n >= (size_t)1 << 31) n = 48; return memFail() ? nullptr : arenaAlloc(n, al, curOp(), true); }
static void xfree(void* p) { arenaFree(p, false, true); }
static void xfreeAligned(void* p) { arenaFree(p, true, true); }
void* alloc(size_t n, const char* tag) { return arenaAlloc(n, 0, tag, false); }
void release(void* p) { arenaFree(p, false, false); }
bool isLive(const void* p) { Block* b = inArena(p) ? blockOf(p) : nullptr; return b && b->live && (char*)p < BASE + b->off + b->size; }
const char* tagOf(const void* p) { Block* b = inArena(p) ? blockOf(p) : nullptr; return b ? b->tag : "?"; }
size_t liveBlocks() { return live_; }
size_t liveBytes() { return bytes_; }

// ---- mutexes, conditions, files (state per execution) ---------------------------------
struct Mutex { int owner = -1; bool alive = true, inited = false; int vc[MAXT] = { 0 }; };
static std::unordered_map<const void*, Mutex> mutexes; static std::unordered_map<const void*, bool> conds;
static std::map<std::string, std::string> vfs; struct Fake { std::string name; size_t pos; bool open, eof, err; int lastUser; };
static std::vector<Fake*> fakes;

size_t liveSync() { size_t n = 0; for (auto& m : mutexes) n += m.second.inited && m.second.alive; for (auto& c : conds) n += c.second; return n; }
static bool initFail() { if (initFaults > 0 && !learning && mc::choose(2)) { initFaults--; mc::note("INIT FAILS in %s", curOp()); return true; } return false; }
// ---- race detection (happens before) ------------------------------------------------
struct Cell { int wT = -1, wC = 0; uintptr_t wPc = 0; int rC[MAXT] = { 0 }; uintptr_t rPc[MAXT] = { 0 }; int sync[MAXT] = { 0 }; };
static std::unordered_map<uintptr_t, Cell> cells;
static void raceAccess(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc) {
	if (!learning || cur < 0) return;
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
		Cell& c = cells[g]; Thread& t = th[cur];
		if (atomic) for (int i = 0; i < nT; i++) t.vc[i] = std::max(t.vc[i], c.sync[i]);
		if (c.wT >= 0 && c.wT != cur && c.wC > t.vc[c.wT]) { if (c.wPc) racy.insert(c.wPc); if (!atomic) racy.insert(pc); }
		if (write) for (int i = 0; i < nT; i++) if (i != cur && c.rC[i] > t.vc[i]) { if (c.rPc[i]) racy.insert(c.rPc[i]); if (!atomic) racy.insert(pc); }
		if (write) { c.wT = cur; c.wC = t.vc[cur]; c.wPc = atomic ? 0 : pc; }
		else { c.rC[cur] = t.vc[cur]; c.rPc[cur] = atomic ? 0 : pc; }
		if (atomic) { for (int i = 0; i < nT; i++) c.sync[i] = std::max(c.sync[i], t.vc[i]); }
	}
	if (atomic) th[cur].vc[cur]++;
}

// ---- scheduler -------------------------------------------------------------------------
static void noteSwitch() {
	uint64_t h = 1469598103934665603ULL;
	const uint64_t* p = (const uint64_t*)BASE; size_t n = std::min<size_t>(top, 4096) / 8;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
	for (int i = 0; i < nT; i++) h = mc::mix(h, th[i].steps * 4 + th[i].st);
	mc::state(h);
}
static void switchTo(int t) {
	int from = cur; if (t == from) return;
	noteSwitch();
	cur = t; mc_switch(from >= 0 ? &th[from].sp : &mainSp, t >= 0 ? th[t].sp : mainSp);
}
static bool enabled(int i) {
	Thread& t = th[i];
	if (t.st == DONE || t.st == BLOCK_COND) return false;
	if (t.st == BLOCK_MUTEX) { auto it = mutexes.find(t.on); return it == mutexes.end() || it->second.owner < 0; }
	return true;
}
bool blocked(int i) { return th[i].st == BLOCK_COND || th[i].st == BLOCK_MUTEX; }
static void toMain() { switchTo(-1); }
static std::string where() {
	std::string s; for (int i = 0; i < nT; i++) s += mc::fmt("%s%s:%s/%s", i ? ", " : "", th[i].name.c_str(), th[i].op ? th[i].op : "-", th[i].st == DONE ? "done" : th[i].st == BLOCK_MUTEX ? "mutex" : th[i].st == BLOCK_COND ? "cond" : "runs");
	return s;
}
// Pick who runs next. mayContinue: the current thread is still able to run.
static void schedule(bool mayContinue) {
	int e[MAXT], n = 0;
	if (mayContinue) e[n++] = cur;
	for (int i = 0; i < nT; i++) if (i != cur && enabled(i)) e[n++] = i;
	if (n == 0) {
		bool all = true; for (int i = 0; i < nT; i++) if (th[i].st != DONE) all = false;
		if (all) { toMain(); return; }
		if (onStuck && onStuck()) { toMain(); return; }
		mc::fail("deadlock", "no thread can run: %s", where().c_str());
	}
	int c = 0;
	if (mayContinue && preemptions == 0) c = 0;
	else c = mc::choose(n);
	if (mayContinue && c != 0) { if (preemptions > 0) preemptions--; }
	if (e[c] != cur) mc::note("@%ld->%s", steps, th[e[c]].name.c_str());
	switchTo(e[c]);
}
static void tick() {
	steps++; th[cur].steps++; mc::step();
	if (steps > horizon) mc::fail("livelock", "%ld steps without finishing: %s", steps, where().c_str());
}
void point() { if (cur < 0 || inRuntime) return; tick(); schedule(true); }
static void entry() {
	try { th[cur].f(); }
	catch (...) { failure = std::current_exception(); }
	th[cur].st = DONE; th[cur].f = nullptr;
	if (failure) { toMain(); abort(); }
	try { schedule(false); } catch (...) { failure = std::current_exception(); toMain(); }
	abort();
}
void op(const char* label) { if (cur < 0) mainOp = label; else { th[cur].op = label; mc::note("%s:%s", th[cur].name.c_str(), label); } }
// The library's variables are put back to their initial values for each execution.
extern "C" { extern char __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak)), __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcdatr[] __attribute__((weak)), __stop_mcdatr[] __attribute__((weak)), __start_mcdatl[] __attribute__((weak)), __stop_mcdatl[] __attribute__((weak)); }
static void resetStatics() {
	static std::string image[4]; static bool taken; char* s[4] = { __start_mcbss, __start_mcdata, __start_mcdatr, __start_mcdatl }; char* e[4] = { __stop_mcbss, __stop_mcdata, __stop_mcdatr, __stop_mcdatl };
	for (int i = 0; i < 4; i++) if (s[i]) { if (!taken) image[i].assign(s[i], e[i] - s[i]); else memcpy(s[i], image[i].data(), image[i].size()); }
	taken = true;
}
void begin() {
	resetStatics();
	if (!shadow) {
		if (mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != BASE) { perror("arena"); exit(2); }
		shadow = (unsigned char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	memset(shadow, 0, top + 64); memset(BASE, 0, top + 64);
	top = 64; blocks.clear(); live_ = bytes_ = 0; freeLists.clear(); mutexes.clear(); conds.clear(); vfs.clear(); cells.clear();
	for (Fake* f : fakes) delete f; fakes.clear();
	mainOp = "main"; nT = 0; cur = -1; failure = nullptr; steps = 0; running = false; inRuntime = false;
	preemptions = 2; everyAccess = true; reuse = false; spurious = 0; memFaults = 0; ioFaults = 0; initFaults = 0; onStuck = nullptr; horizon = 200000; onBadAccess = nullptr; sharedHandleUse = false;
	fiftyoneDegreesMalloc = xmalloc; fiftyoneDegreesMallocAligned = xaligned; fiftyoneDegreesFree = xfree; fiftyoneDegreesFreeAligned = xfreeAligned;
}
void spawn(const char* name, std::function<void()> f) {
	Thread& t = th[nT]; if (!t.stack) t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	t.f = std::move(f); t.name = name; t.st = RUN; t.on = nullptr; t.op = nullptr; t.steps = 0; memset(t.vc, 0, sizeof t.vc); t.vc[nT] = 1;
	uintptr_t sp = ((uintptr_t)t.stack + STACK - 64) & ~(uintptr_t)15; sp -= 8;
	void** s = (void**)sp; *--s = (void*)entry; for (int i = 0; i < 6; i++) *--s = nullptr;
	t.sp = s; nT++;
}
void run() {
	if (!nT) return;
	running = true;
	schedule(false);    // first thread: free choice
	running = false; cur = -1;
	if (failure) { std::exception_ptr f = failure; failure = nullptr; nT = 0; std::rethrow_exception(f); }
	nT = 0;
}
void learnRaces(void (*body)(), long maxExecs) { learning = true; mc::exploreInline(body, maxExecs); learning = false; }

// ---- the access hook ----------------------------------------------------------------------
static void bad(const char* kind, const void* p, size_t n, bool w, bool at) {
	Block* b = inArena(p) ? blockOf(p) : nullptr;
	Access a = { kind, curOp(), b ? b->tag : "?", b && b->freedBy ? b->freedBy : "?", w, at, n, b ? (long)((char*)p - BASE - b->off) : 0, b ? b->size : 0 };
	if (onBadAccess && onBadAccess(a)) return;
	mc::fail(mc::fmt("%s:%s:%s:%s", kind, a.op, a.tag, at ? "atomic" : w ? "write" : "read").c_str(),
		"%s of %zu byte(s) at offset %ld of a %zu byte block allocated by %s%s%s, in %s; threads: %s", w ? "write" : "read", n, a.offset, a.blockSize, a.tag,
		b && !b->live ? ", freed by " : "", b && !b->live ? a.freedBy : "", a.op, where().c_str());
}
static inline bool tracked(const void* p) {
	if (inArena(p)) return true;
	return (char*)p >= &__data_start && (char*)p < &_end;
}
static void check(const void* p, size_t n, bool w, bool at) {
	if ((uintptr_t)p < 65536) { Access a = { "null", curOp(), "?", "?", w, at, n, 0, 0 }; if (onBadAccess) onBadAccess(a); /* may abandon the execution */ }
	if ((uintptr_t)p < 65536) mc::fail(mc::fmt("null-access:%s", curOp()).c_str(), "access through a null pointer in %s", curOp());
	if (!inArena(p) || n == 0) return;
	size_t o = (char*)p - BASE;
	if (o + n > ARENA) return;
	for (size_t i = 0; i < n; i++) if (shadow[o + i] != 1) { bad(shadow[o + i] == 2 ? "use-after-free" : "out-of-bounds", p, n, w, at); return; }
}
static inline void access(const void* p, size_t n, bool w, uintptr_t pc) {
	if (cur >= 0 && !inRuntime && tracked(p)) {
		if (everyAccess || racy.count(pc)) { point(); }
		raceAccess((uintptr_t)p, n ? n : 1, w, false, pc);
	}
	check(p, n, w, false);
}
static inline void atomicPoint(const volatile void* p, size_t n, bool w) {
	if (cur >= 0) { point(); raceAccess((uintptr_t)p, n, w, true, 0); }
	check((const void*)p, n, w, true);
}

// ---- pthread ---------------------------------------------------------------------------------
static Mutex& mutexOf(const void* m, bool init) {
	auto it = mutexes.find(m);
	if (it == mutexes.end()) { it = mutexes.emplace(m, Mutex()).first; }
	if (init) { it->second = Mutex(); }
	return it->second;
}
static void lockMutex(const void* m) {
	if (cur < 0) { Mutex& x = mutexOf(m, false); if (x.owner != -1) mc::fail("deadlock", "main blocks on a mutex"); x.owner = -2; return; }
	for (;;) {
		Mutex& x = mutexOf(m, false);
		if (!x.alive) mc::fail("mutex:destroyed", "lock of a destroyed mutex in %s", curOp());
		if (x.owner == -1) { x.owner = cur; if (learning) for (int i = 0; i < nT; i++) th[cur].vc[i] = std::max(th[cur].vc[i], x.vc[i]); return; }
		th[cur].st = BLOCK_MUTEX; th[cur].on = m; schedule(false); th[cur].st = RUN;
	}
}
static void unlockMutex(const void* m) {
	Mutex& x = mutexOf(m, false);
	if (cur < 0) { x.owner = -1; return; }
	if (x.owner != cur) mc::fail("mutex:not-owner", "unlock of a mutex not held in %s", curOp());
	if (learning) { for (int i = 0; i < nT; i++) x.vc[i] = std::max(x.vc[i], th[cur].vc[i]); th[cur].vc[cur]++; }
	x.owner = -1;
}
}  // namespace sched
using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))

extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { check(m, 1, true, false); if (initFail()) return EAGAIN; mutexOf(m, true).inited = true; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
	check(m, 1, true, false); Mutex& x = mutexOf(m, false); if (x.owner != -1) { mc::report("mutex:destroy-held", "a held mutex is destroyed in %s", curOp()); }
	x.alive = false; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); check(m, 1, true, false); lockMutex(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { point(); check(m, 1, true, false); Mutex& x = mutexOf(m, false); if (x.owner != -1) return EBUSY; x.owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { check(m, 1, true, false); unlockMutex(m); point(); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { if (initFail()) return EAGAIN; conds[c] = true; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { for (int i = 0; i < MAXT && i < nT; i++) if (th[i].st == BLOCK_COND && th[i].on == c) mc::report("cond:destroy-waited", "condition destroyed while waited on"); conds[c] = false; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	point(); check(c, 1, true, false);
	if (cur < 0) mc::fail("deadlock", "main waits on a condition");
	unlockMutex(m);
	if (spurious > 0 && mc::choose(2)) { spurious--; mc::note("spurious"); }
	else { th[cur].st = BLOCK_COND; th[cur].on = c; schedule(false); th[cur].st = RUN; }
	lockMutex(m); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
	point(); check(c, 1, true, false);
	int w[MAXT], n = 0; for (int i = 0; i < nT; i++) if (th[i].st == BLOCK_COND && th[i].on == c) w[n++] = i;
	if (n) { th[w[mc::choose(n)]].st = RUN; }
	point(); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { point(); for (int i = 0; i < nT; i++) if (th[i].st == BLOCK_COND && th[i].on == c) th[i].st = RUN; point(); return 0; }
int __wrap_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) { return EAGAIN; }
int __wrap_pthread_join(pthread_t, void**) { return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int __wrap_sched_yield(void) { point(); return 0; }
int __wrap_usleep(unsigned) { point(); return 0; }
int __wrap_nanosleep(const void*, void*) { point(); return 0; }

void* __wrap_malloc(size_t n) { return xmalloc(n); }
void* __wrap_calloc(size_t a, size_t b) { void* p = xmalloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { xfree(p); }
void* __wrap_realloc(void* p, size_t n) {
	void* q = xmalloc(n); if (q && p) { Block* b = blockOf(p); memcpy(q, p, std::min(n, b->size)); xfree(p); } return q;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return xaligned((int)a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { *p = xaligned((int)a, n); return *p ? 0 : ENOMEM; }

void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { sched::access(s, n, false, PC); sched::access(d, n, true, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { sched::access(s, n, false, PC); sched::access(d, n, true, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) sched::access(d, n, true, PC); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { sched::access(a, n, false, PC); sched::access(b, n, false, PC); } return memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { sched::access(s, 1, false, PC); size_t n = strlen(s); check(s, n + 1, false, false); return n; }
char* __wrap_strcpy(char* d, const char* s) { sched::access(s, 1, false, PC); size_t n = strlen(s) + 1; check(s, n, false, false); sched::access(d, n, true, PC); return strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { if (n) sched::access(d, n, true, PC); return strncpy(d, s, n); }
int __wrap_strcmp(const char* a, const char* b) { sched::access(a, 1, false, PC); sched::access(b, 1, false, PC); return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (n) { sched::access(a, 1, false, PC); sched::access(b, 1, false, PC); } return strncmp(a, b, n); }

// ---- files: in memory ----
static bool ioFail(const char* w) { if (ioFaults > 0 && mc::choose(2)) { ioFaults--; mc::note("%s FAILS in %s", w, curOp()); return true; } return false; }
static Fake* fake(FILE* f, const char* w) {
	for (Fake* x : fakes) if ((FILE*)x == f) { if (!x->open) mc::fail("file:closed-use", "%s on a closed file in %s", w, curOp()); return x; }
	mc::fail("file:wild", "%s on something that is not an open file in %s", w, curOp());
}
FILE* __wrap_fopen(const char* n, const char* mode) {
	point(); auto it = vfs.find(n); if (it == vfs.end()) { errno = ENOENT; return nullptr; }
	if (ioFail("fopen")) { errno = EMFILE; return nullptr; }
	Fake* f = new Fake{ n, 0, true, false, false, -1 }; fakes.push_back(f); return (FILE*)f;
}
int __wrap_fclose(FILE* f) { point(); Fake* x = fake(f, "fclose"); x->open = false; return 0; }
size_t __wrap_fread(void* d, size_t a, size_t b, FILE* f) {
	point(); Fake* x = fake(f, "fread"); size_t want = a * b; if (!want) return 0;
	std::string& s = vfs[x->name]; size_t got = x->pos < s.size() ? std::min(want, s.size() - x->pos) : 0;
	if (ioFail("fread")) { x->err = true; return 0; }
	if (got) { sched::access(d, got, true, PC); memcpy(d, s.data() + x->pos, got); }
	x->pos += got; if (got < want) x->eof = true; point(); return got / a;
}
int __wrap_fseek(FILE* f, long o, int wh) {
	point(); Fake* x = fake(f, "fseek"); if (ioFail("fseek")) return -1; long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)x->pos : (long)vfs[x->name].size();
	if (base + o < 0) { errno = EINVAL; return -1; } x->pos = base + o; x->eof = false; return 0;
}
int __wrap_feof(FILE* f) { return fake(f, "feof")->eof; }
int __wrap_ferror(FILE* f) { return fake(f, "ferror")->err; }
void __wrap_clearerr(FILE* f) { Fake* x = fake(f, "clearerr"); x->eof = x->err = false; }
void __wrap_rewind(FILE* f) { if (__wrap_fseek(f, 0, SEEK_SET) == 0) __wrap_clearerr(f); }
long __wrap_ftell(FILE* f) { Fake* x = fake(f, "ftell"); return (long)x->pos; }
size_t __wrap_fwrite(const void*, size_t, size_t, FILE* f) { fake(f, "fwrite"); return 0; }

// ---- the ThreadSanitizer ABI ----
#define RW(n) void __tsan_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_write##n(void* p) { sched::access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { sched::access(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { sched::access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true, PC); } \
	void __tsan_read_write##n(void* p) { sched::access(p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { sched::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) sched::access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) sched::access(p, n, true, PC); }
void __tsan_func_entry(void*) {} void __tsan_func_exit(void) {} void __tsan_init(void) {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) {}
typedef unsigned __int128 u128;
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T* a, int) { atomicPoint(a, sizeof(T), false); return *a; } \
	void __tsan_atomic##N##_store(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); *a = v; } \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { atomicPoint(a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomicPoint(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomicPoint(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomicPoint(a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
// library forms of the double width operations
bool mc_cas16(volatile void* a, void* c, u128 v, bool, int, int) asm("__atomic_compare_exchange_16");
bool mc_cas16(volatile void* a, void* c, u128 v, bool, int, int) {
	atomicPoint(a, 16, true); u128 o; memcpy(&o, (void*)a, 16); if (!memcmp(&o, c, 16)) { memcpy((void*)a, &v, 16); return true; } memcpy(c, &o, 16); return false;
}
bool mc_casN(size_t n, void* a, void* c, void* v, int, int) asm("__atomic_compare_exchange");
bool mc_casN(size_t n, void* a, void* c, void* v, int, int) {
	atomicPoint(a, n, true); if (!memcmp(a, c, n)) { memcpy(a, v, n); return true; } memcpy(c, a, n); return false;
}
u128 mc_load16(const volatile void* a, int) asm("__atomic_load_16");
u128 mc_load16(const volatile void* a, int) { atomicPoint(a, 16, false); u128 o; memcpy(&o, (void*)a, 16); return o; }
void mc_store16(volatile void* a, u128 v, int) asm("__atomic_store_16");
void mc_store16(volatile void* a, u128 v, int) { atomicPoint(a, 16, true); memcpy((void*)a, &v, 16); }
void mc_loadN(size_t n, void* a, void* r, int) asm("__atomic_load");
void mc_loadN(size_t n, void* a, void* r, int) { atomicPoint(a, n, false); memcpy(r, a, n); }
void mc_storeN(size_t n, void* a, void* v, int) asm("__atomic_store");
void mc_storeN(size_t n, void* a, void* v, int) { atomicPoint(a, n, true); memcpy(a, v, n); }
u128 mc_exch16(volatile void* a, u128 v, int) asm("__atomic_exchange_16");
u128 mc_exch16(volatile void* a, u128 v, int) { atomicPoint(a, 16, true); u128 o; memcpy(&o, (void*)a, 16); memcpy((void*)a, &v, 16); return o; }
bool mc_lockfree(size_t n, const volatile void*) asm("__atomic_is_lock_free");
bool mc_lockfree(size_t n, const volatile void*) { return n <= 16; }
}
namespace sched {
void putFile(const std::string& n, const std::string& d) { vfs[n] = d; }
int openFiles() { int k = 0; for (Fake* f : fakes) k += f->open; return k; }
}
