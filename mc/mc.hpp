// Bounded exhaustive exploration engine. See DESIGN.md section 1.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>

namespace mc {

struct Abort {};   // this execution is over (violation recorded or pruned)

// ---- choices -------------------------------------------------------------
// Returns a value in [0,n); the engine enumerates all of them. n==1 is free.
int choose(int n);
// A choice made the same way, but which costs one unit of a deviation budget
// when it is not 0.
inline bool flip() { return choose(2) != 0; }
template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
// Abandon this execution silently (not part of the space).
[[noreturn]] void prune();

// ---- bookkeeping ---------------------------------------------------------
void state(uint64_t h);              // a distinct state (canonical hash) was reached
void step(int n = 1);                // transitions executed on the implementation
void outcome(const std::string& s);  // observable outcome of this execution (counted distinct)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appends to the trace of this execution
void label(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // class used to name a crash in this execution
const char* trace();
bool tracing();                      // replaying verbosely?

// Record a violation. sig identifies the class (stable across refactorings of
// the library: made from operation and oracle names only).
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Record and carry on.
void report(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// A finding that is listed under the property a suite was written for: not to be
// reported again where the suite is built with other options.
#ifdef VP_AS
#define known(...) prune()
#else
#define known(...) fail(__VA_ARGS__)
#endif
#define MC_CHECK(c, sig, ...) do { if (!(c)) mc::fail(sig, __VA_ARGS__); } while (0)

// ---- tiers ---------------------------------------------------------------
bool thorough();
int tier(int quick, int thoroughValue);
// Are items given back? In the MEMORY_ONLY build that is left out, since there
// every item is a pointer into the data.
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
constexpr bool memoryOnly = true;
#else
constexpr bool memoryOnly = false;
#endif
// the same, one step less deep in a harness built with other options (below)
#ifdef VP_AS
inline int tierOf(int other, int quick, int) { return tier(other, quick); }
#else
inline int tierOf(int, int quick, int thoroughValue) { return tier(quick, thoroughValue); }
#endif

// ---- suites --------------------------------------------------------------
struct Suite {
	const char* prop; const char* name; void (*body)(); int split; const char* what;
	Suite* next;
	void (*setup)() = nullptr;   // run once in every worker before exploring
};
void registerSuite(Suite* s);
struct Reg { Reg(Suite* s) { registerSuite(s); } };
// A harness built a second time with other options of the library (DEFS) names
// the property and a tag its suites belong to before including the first one.
#ifdef VP_AS
#define MC_PROP(prop) VP_AS
#define MC_NAME(prop, name) VP_TAG "-" prop "-" name
#else
#define MC_PROP(prop) prop
#define MC_NAME(prop, name) name
#endif
#define MC_SUITE(prop, name, split, what) \
	static void mc_body_##prop##_##name(); \
	static mc::Suite mc_suite_##prop##_##name = { MC_PROP(#prop), MC_NAME(#prop, #name), mc_body_##prop##_##name, split, what, nullptr, nullptr }; \
	static mc::Reg mc_reg_##prop##_##name(&mc_suite_##prop##_##name); \
	static void mc_body_##prop##_##name()

// hooks the environment installs: called at the start / end of an execution
extern std::vector<std::function<void()>> onBegin, onEnd;

// beat: progress mark for the hang detector, call in long loops of harness code
void beat();
int workerIndex();

// ---- hashing -------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 27; return h;
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string quoted(const std::string& s);

// ---- explicit state search over a real object ----------------------------
// Breadth first over canonical states reached by operation histories.
// run(history, last) must build a fresh real object, replay the history, check
// the oracle on the last operation, and return the canonical state; ops(canon)
// gives how many operations exist. Returns number of states.
struct BfsResult { size_t states = 0, transitions = 0; int depth = 0; bool complete = true; };
BfsResult bfs(int nOps, const std::function<bool(const std::vector<int>&, std::string& canon)>& run,
	size_t maxStates, const std::function<std::string(int)>& opName = nullptr, int maxDepth = 1000);

}
