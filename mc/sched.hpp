// Controlled scheduler: threads are coroutines, every memory access, atomic
// operation and pthread call of the library is a potential scheduling point.
#pragma once
#include "mc.hpp"
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Access { const char* kind; const char* op; const char* tag; const char* freedBy; bool write, atomic; size_t size; long offset; size_t blockSize; };

// ---- settings of this execution (reset before each) -------------------------
extern int preemptions;        // remaining preemptions (negative: unbounded)
extern bool everyAccess;       // plain accesses are scheduling points too (else: synchronisation, atomics and accesses learnt to race)
extern bool reuse;             // freed memory is handed out again (most recent first)
extern int spurious;           // spurious wake-ups allowed
extern int memFaults;          // allocations that may fail
extern int ioFaults;           // file operations that may fail
extern int initFaults;         // mutex and condition creations that may fail
extern long horizon;           // steps before an execution counts as livelocked
// returns true when the access is to be tolerated (it has been reported)
extern std::function<bool(const Access&)> onBadAccess;

// called when no thread can run: true when that is a legitimate end (the blocked threads are abandoned)
extern std::function<bool()> onStuck;
bool blocked(int thread);                              // blocked now (for onStuck)
size_t liveSync();                                     // mutexes and conditions created and not destroyed
void begin();                                          // fresh arena; also installs allocator
void spawn(const char* name, std::function<void()> f);
void run();                                            // explore: returns when all threads have finished
void op(const char* label);                            // current operation of the running thread
int self();                                            // running thread, -1 outside
void point();                                          // explicit scheduling point
long now();                                            // logical time (steps so far)
void* alloc(size_t n, const char* tag);                // arena memory owned by the harness
void release(void* p);                                 // back to the arena (accesses are bad afterwards)
bool isLive(const void* p);
size_t liveBlocks(); size_t liveBytes();
const char* tagOf(const void* p);
void learnRaces(void (*body)(), long maxExecs);        // call from Suite::setup
size_t racyPoints();
// in-memory files
void putFile(const std::string& name, const std::string& data);
int openFiles();
extern bool sharedHandleUse;                           // a FILE was used by two threads at once
}
