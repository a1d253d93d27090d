// Environment of the library under exploration: allocator and files, with
// enumerated faults. Everything is interposed at the libc / allocator-pointer
// seam; nothing depends on how the library is written.
#pragma once
#include "mc.hpp"
#include <stdio.h>
#include <string>
#include <functional>
#include <vector>

namespace env {
// ---- allocator (installed in fiftyoneDegreesMalloc & co) -------------------
void installAllocator();
size_t liveBlocks(); size_t liveBytes();
size_t allocCount();                         // allocations made in this execution
// fault budget: number of requests that may still fail; every request that
// could fail is a choice point while budget > 0.
extern int memFaults;                         // remaining allocation faults
extern int ioFaults;                          // remaining device faults
extern bool faultsFired;                      // some fault happened in this execution
extern int memFaultsFired, ioFaultsFired;
extern std::string lastFault;
// Deterministic variant: fail exactly the k'th allocation from now (1 based), 0=never
extern long failAllocAt;
// Digest of everything the library holds in memory: the live blocks and the
// given objects of the caller, with pointers named by what they point to. Two
// equal digests are the same state of the implementation (up to addresses).
typedef std::vector<std::pair<const void*, size_t>> Ranges;
std::string heapState(const Ranges& roots = {}, const Ranges& ignored = {});
void eachBlock(const std::function<void(const void*, size_t)>& f); // every live block
void abandon();                               // what happens when a process dies: its files are closed, its memory is gone
void checkBalanced(const char* sig);          // no live blocks, no open files
// ---- files -----------------------------------------------------------------
std::string scratch();                        // this worker's private directory (cwd)
void cleanScratch();
void writeFile(const std::string& path, const std::string& data);   // not faultable
bool readFile(const std::string& path, std::string& out);
bool exists(const std::string& path);
std::vector<std::string> listDir(const std::string& path);
void makeDir(const std::string& path);
int openFiles();                              // FILEs open through the library
extern long randomCalls, sameRandom;               // calls of rand(); the first so many give 0 (negative: not controlled)
extern bool unbuffered;                       // give the library unbuffered streams (more fault points)
extern unsigned faultMask;                    // which device operations can fault
enum { F_OPEN = 1, F_READ = 2, F_SHORT = 4, F_WRITE = 8, F_SEEK = 16, F_CLOSE = 32, F_REMOVE = 64, F_ALL = 127 };
extern std::vector<std::string> opened;       // names opened for writing by the library
extern bool logOps; extern std::vector<std::string> ops;
// Called before each device operation of the library, and between the pieces of
// a write, which then happens in several: the places where a process can die or
// another one come in between.
extern std::function<void(const char* what)> hook;
extern std::vector<int> processes;            // other processes which can have files of the scratch area open
void reset();                                 // at the start of an execution
}
