#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "env.hpp"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <dirent.h>
#include <ftw.h>
#include <sys/stat.h>
#include <unordered_map>
#include <map>
#include <algorithm>

extern "C" {
extern void* (*fiftyoneDegreesMalloc)(size_t);
extern void* (*fiftyoneDegreesMallocAligned)(int, size_t);
extern void (*fiftyoneDegreesFree)(void*);
extern void (*fiftyoneDegreesFreeAligned)(void*);
}
namespace mc { extern std::string scratchRoot, workerScratch; }

namespace env {
struct Blk { size_t size; bool aligned; size_t seq = 0; };
static std::unordered_map<void*, Blk> live; static size_t bytes, count;
int memFaults = 0, ioFaults = 0, memFaultsFired = 0, ioFaultsFired = 0; bool faultsFired = false; std::string lastFault; long failAllocAt = 0;
long randomCalls = 0, sameRandom = -1; bool unbuffered = false; unsigned faultMask = F_ALL; std::vector<std::string> opened; bool logOps = false; std::vector<std::string> ops;
static bool failing(size_t n) {
	count++;
	if (failAllocAt > 0 && --failAllocAt == 0) { faultsFired = true; memFaultsFired++; lastFault = mc::fmt("alloc#%zu(%zu)", count, n); mc::note("FAULT %s", lastFault.c_str()); return true; }
	if (memFaults > 0 && mc::choose(2)) { memFaults--; memFaultsFired++; faultsFired = true; lastFault = mc::fmt("alloc#%zu(%zu)", count, n); mc::note("FAULT %s", lastFault.c_str()); return true; }
	return false;
}
static void* take(void* p, size_t n, bool al) {
	if (p) { live[p] = { n, al, count }; bytes += n; memset(p, 0xA5, n); }
	return p;
}
static const size_t MAXALLOC = (size_t)1 << 28;
static void* xmalloc(size_t n) {
	if (failing(n)) return nullptr;
	if (bytes + n > MAXALLOC) { return nullptr; }
	return take(malloc(n), n, false);
}
static void* xaligned(int al, size_t n) {
	if (failing(n)) return nullptr;
	if (bytes + n > MAXALLOC) return nullptr;
	void* p = nullptr; if (al < (int)sizeof(void*)) al = sizeof(void*);
	if (posix_memalign(&p, al, n)) p = nullptr;
	return take(p, n, true);
}
static void give(void* p, bool al) {
	if (!p) return;
	auto it = live.find(p);
	if (it == live.end()) mc::fail("bad-free", "free of a pointer that is not allocated (double free or wild)");
	if (it->second.aligned != al) mc::fail("mismatched-free", "aligned/plain mismatch between allocation and free");
	bytes -= it->second.size; live.erase(it);
	free(p);
}
static void xfree(void* p) { give(p, false); }
static void xfreeAligned(void* p) { give(p, true); }
void installAllocator() {
	fiftyoneDegreesMalloc = xmalloc; fiftyoneDegreesMallocAligned = xaligned;
	fiftyoneDegreesFree = xfree; fiftyoneDegreesFreeAligned = xfreeAligned;
}
size_t liveBlocks() { return live.size(); }
size_t liveBytes() { return bytes; }
size_t allocCount() { return count; }

void eachBlock(const std::function<void(const void*, size_t)>& f) { for (auto& b : live) f(b.first, b.second.size); }
std::string heapState(const Ranges& roots, const Ranges& ignored) {
	struct Obj { const unsigned char* p; size_t n; int id; };
	std::map<uintptr_t, Obj> objs; std::vector<Obj*> order;
	for (auto& r : roots) objs[(uintptr_t)r.first] = { (const unsigned char*)r.first, r.second, -1 };
	for (auto& b : live) objs[(uintptr_t)b.first] = { (const unsigned char*)b.first, b.second.size, -1 };
	auto find = [&](uintptr_t v) -> Obj* { auto i = objs.upper_bound(v); if (i == objs.begin()) return nullptr; --i; Obj& o = i->second; return v < (uintptr_t)o.p + o.n || (v == (uintptr_t)o.p && !o.n) ? &o : nullptr; };
	auto add = [&](Obj* o) { if (o->id < 0) { o->id = (int)order.size(); order.push_back(o); } };
	for (auto& r : roots) add(&objs[(uintptr_t)r.first]);
	std::vector<std::pair<size_t, void*>> bySeq; for (auto& b : live) bySeq.push_back({ b.second.seq, b.first });
	std::sort(bySeq.begin(), bySeq.end()); size_t next = 0;
	uint64_t h1 = 0x9E3779B97F4A7C15ull, h2 = 0xC2B2AE3D27D4EB4Full;
	auto mix = [&](uint64_t v) { h1 = (h1 ^ v) * 0xff51afd7ed558ccdull; h1 ^= h1 >> 32; h2 = (h2 + v) * 0x9FB21C651E98DF25ull; h2 ^= h2 >> 29; };
	for (size_t i = 0;; i++) {
		if (i == order.size()) { while (next < bySeq.size() && objs[(uintptr_t)bySeq[next].second].id >= 0) next++; if (next == bySeq.size()) break; add(&objs[(uintptr_t)bySeq[next].second]); }
		Obj* o = order[i]; mix(0xB10C); mix(o->n);
		for (size_t at = 0; at < o->n; at += 8) {
			uint64_t v = 0; size_t k = o->n - at < 8 ? o->n - at : 8; memcpy(&v, o->p + at, k);
			for (auto& g : ignored) for (size_t b = 0; b < k; b++) { uintptr_t x = (uintptr_t)o->p + at + b, s = (uintptr_t)g.first; if (x >= s && x < s + g.second) ((unsigned char*)&v)[b] = 0; }
			if (k == 8 && v >> 32) {
				if (Obj* t = find(v)) { add(t); mix(0x9017 + (uint64_t)t->id * 65536); mix(v - (uintptr_t)t->p); continue; }
				if ((v >> 40) >= 0x60 && (v >> 40) < 0x64) v = 0xDEAD;          // freed or foreign heap memory
				else if ((v >> 40) == 0x7f || (v >> 40) == 0x7e) v = 0x57AC;    // stacks and mappings
			}
			mix(v);
		}
	}
	std::string r((const char*)&h1, 8); r.append((const char*)&h2, 8); return r;
}

// ---- files ------------------------------------------------------------------
std::function<void(const char*)> hook;
std::vector<int> processes;
static void at(const char* what) { if (hook) hook(what); }
struct Stream { int fd; std::string name; bool write; bool full = false; };
static std::map<FILE*, Stream*> streams;
static std::map<DIR*, int> dirs; // which are open; how far it has come in /proc
static bool fire(const char* what, const std::string& name) {
	if (ioFaults > 0 && mc::choose(2)) {
		ioFaults--; ioFaultsFired++; faultsFired = true; lastFault = mc::fmt("%s(%s)", what, name.c_str()); mc::note("FAULT %s", lastFault.c_str());
		return true;
	}
	return false;
}
static void op(const char* what, const std::string& n) { if (logOps) ops.push_back(std::string(what) + " " + n); }
static ssize_t ckRead(void* c, char* b, size_t n) {
	Stream* s = (Stream*)c; at("read");
	if ((faultMask & F_READ) && fire("read", s->name)) { errno = EIO; return -1; }
	ssize_t r = read(s->fd, b, n);
	// premature end of file (truncated under the reader)
	if (r > 0 && (faultMask & F_SHORT) && fire("eof", s->name)) { lseek64(s->fd, -(off64_t)r, SEEK_CUR); return 0; }
	return r;
}
static ssize_t ckWrite(void* c, const char* b, size_t n) {
	Stream* s = (Stream*)c; op("write", s->name);
	if (s->full) { s->full = false; errno = ENOSPC; return 0; }
	if ((faultMask & F_WRITE) && fire("write", s->name)) {
		// disk full: part of the data gets there, and the caller is told how much of it or only that it failed
		if (n > 1) { ssize_t w = write(s->fd, b, n / 2); if (w > 0 && mc::flip()) { s->full = true; return w; } }
		errno = ENOSPC; return 0;
	}
	size_t d = 0, stops[3] = { n, n, n }; int k = 0; if (hook) { stops[0] = n > 1 ? 1 : n; stops[1] = n > 2 ? n / 2 : n; }
	while (d < n) { while (k < 2 && stops[k] <= d) k++; at("write"); ssize_t w = write(s->fd, b + d, stops[k] - d); if (w <= 0) return d ? (ssize_t)d : 0; d += w; }
	return (ssize_t)n;
}
static int ckSeek(void* c, off64_t* o, int wh) {
	Stream* s = (Stream*)c;
	if ((faultMask & F_SEEK) && fire("seek", s->name)) { errno = EIO; return -1; }
	off64_t r = lseek64(s->fd, *o, wh); if (r < 0) return -1; *o = r; return 0;
}
static int ckClose(void* c) {
	Stream* s = (Stream*)c; int r = 0; at("close");
	if ((faultMask & F_CLOSE) && s->write && fire("close", s->name)) { errno = EIO; r = -1; }
	close(s->fd); s->fd = -1; op("close", s->name);
	return r;
}
// A path is inside the scratch area when its directory resolves to it.
static bool inside(const char* path) {
	std::string p(path), d; size_t k = p.find_last_of('/');
	d = k == std::string::npos ? "." : (k == 0 ? "/" : p.substr(0, k));
	char r[PATH_MAX]; if (!realpath(d.c_str(), r)) return true;  // does not exist: nothing can be hurt
	std::string R(r); const std::string& s = mc::scratchRoot;
	return R.compare(0, s.size(), s) == 0 && (R.size() == s.size() || R[s.size()] == '/');
}
int openFiles() { return (int)streams.size(); }
std::string scratch() { return mc::workerScratch; }
static int rmE(const char* p, const struct stat*, int l, struct FTW*) { return l == 0 && 0 ? 0 : ::remove(p); }
void cleanScratch() {
	std::string s = scratch(); if (s.size() < 8) abort();
	for (auto& n : listDir(s)) nftw((s + "/" + n).c_str(), rmE, 16, FTW_DEPTH | FTW_PHYS);
}
void writeFile(const std::string& path, const std::string& data) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { perror(path.c_str()); abort(); }
	size_t d = 0; while (d < data.size()) { ssize_t w = write(fd, data.data() + d, data.size() - d); if (w <= 0) abort(); d += w; }
	close(fd);
}
bool readFile(const std::string& path, std::string& out) {
	out.clear(); int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return false;
	struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) { close(fd); return false; }
	char b[65536]; ssize_t r; while ((r = read(fd, b, sizeof b)) > 0) out.append(b, r);
	close(fd); return true;
}
bool exists(const std::string& p) { return access(p.c_str(), F_OK) == 0; }
std::vector<std::string> listDir(const std::string& path) {
	std::vector<std::string> v; DIR* d = opendir(path.c_str()); if (!d) return v;
	while (struct dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
	closedir(d); std::sort(v.begin(), v.end()); return v;
}
void makeDir(const std::string& p) { ::mkdir(p.c_str(), 0755); }
void reset() {
	for (auto& s : streams) { close(s.second->fd); s.second->fd = -1; }
	streams.clear(); for (auto& d : dirs) closedir(d.first); dirs.clear();   // FILE objects of aborted executions are abandoned
	for (auto& b : live) free(b.first);
	live.clear(); bytes = count = 0; memFaults = ioFaults = memFaultsFired = ioFaultsFired = 0; faultsFired = false; lastFault.clear(); failAllocAt = 0;
	randomCalls = 0; sameRandom = -1; unbuffered = false; faultMask = F_ALL; opened.clear(); ops.clear(); logOps = false; hook = nullptr; processes.clear();
	installAllocator();
}
void abandon() {
	for (auto& s : streams) { close(s.second->fd); s.second->fd = -1; }
	streams.clear(); for (auto& d : dirs) closedir(d.first); dirs.clear(); for (auto& b : live) free(b.first); live.clear(); bytes = 0;
}
void checkBalanced(const char* sig) {
	if (!live.empty()) {
		std::string sizes; int k = 0; for (auto& b : live) if (k++ < 6) sizes += mc::fmt(" %zu", b.second.size);
		mc::fail(mc::fmt("%s:leak", sig).c_str(), "%zu block(s) not returned, sizes:%s%s%s", live.size(), sizes.c_str(), lastFault.empty() ? "" : " after fault ", lastFault.c_str());
	}
	if (!streams.empty()) mc::fail(mc::fmt("%s:file-leak", sig).c_str(), "%zu file(s) left open%s%s", streams.size(), lastFault.empty() ? "" : " after fault ", lastFault.c_str());
}
struct Init { Init() { mc::onBegin.push_back(reset); mc::onEnd.push_back(reset); } } init;
}

using namespace env;
extern "C" {
FILE* __wrap_fopen(const char* path, const char* mode) {
	bool wr = strpbrk(mode, "wa+") != nullptr;
	if (wr && !inside(path)) { mc::report("escape", "opened %s for writing outside the scratch area", path); errno = EACCES; return nullptr; }
	at("open"); if ((faultMask & F_OPEN) && fire("open", path)) { errno = wr ? ENOSPC : EMFILE; return nullptr; }
	int fl = mode[0] == 'r' ? (wr ? O_RDWR : O_RDONLY) : (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
	int fd = open(path, fl | O_CLOEXEC, 0666); if (fd < 0) return nullptr;
	if (wr) opened.push_back(path);
	op("open", std::string(mode) + " " + path);
	Stream* s = new Stream{ fd, path, wr };
	cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
	FILE* f = fopencookie(s, mode, io);
	if (!f) { close(fd); delete s; return nullptr; }
	if (unbuffered) setvbuf(f, nullptr, _IONBF, 0);
	streams[f] = s; return f;
}
int __wrap_fclose(FILE* f) {
	auto it = streams.find(f);
	if (it == streams.end()) { mc::fail("bad-fclose", "fclose of a stream that is not open"); }
	Stream* s = it->second; int r = ::fclose(f); streams.erase(f); delete s; return r;
}
int __wrap_fileno(FILE* f) { auto it = streams.find(f); return it == streams.end() ? -1 : it->second->fd; }
static int guard(const char* what, const char* p) {
	if (!inside(p)) { mc::report("escape", "%s(%s) outside the scratch area", what, p); errno = EACCES; return -1; }
	op(what, p); at(what);
	if ((faultMask & F_REMOVE) && fire(what, p)) { errno = EACCES; return -1; }
	return 0;
}
int __wrap_remove(const char* p) { return guard("remove", p) ? -1 : ::remove(p); }
int __wrap_unlink(const char* p) { return guard("remove", p) ? -1 : ::unlink(p); }
int __wrap_rmdir(const char* p) { return guard("rmdir", p) ? -1 : ::rmdir(p); }
int __wrap_rename(const char* a, const char* b) { if (guard("rename", a) || guard("rename", b)) return -1; return ::rename(a, b); }
// Of the processes of the machine only this one, and those named, have files of
// the scratch area open. The rest is hidden, since looking through it takes long.
DIR* __wrap_opendir(const char* p) { DIR* d = ::opendir(p); if (d) dirs[d] = strcmp(p, "/proc") ? -1 : 0; return d; }
int __wrap_closedir(DIR* d) { dirs.erase(d); return ::closedir(d); }
struct dirent* __wrap_readdir(DIR* d) {
	auto i = dirs.find(d); if (i == dirs.end() || i->second < 0) return ::readdir(d);
	static struct dirent e; e.d_type = DT_DIR; size_t k = (size_t)i->second++, n = processes.size(), half = n / 2; if (k > n + 2) return nullptr;
	if (k < 2) strcpy(e.d_name, k ? ".." : "."); else if (k == 2 + half) snprintf(e.d_name, sizeof e.d_name, "%d", (int)getpid()); else snprintf(e.d_name, sizeof e.d_name, "%d", processes[k - 2 - (k > 2 + half)]); return &e;
}
int __wrap_rand() { long n = randomCalls++; return sameRandom < 0 ? ::rand() : n < sameRandom ? 0 : (int)(n - sameRandom + 1); }
int __wrap_mkdir(const char* p, mode_t m) { return guard("mkdir", p) ? -1 : ::mkdir(p, m); }
}
