// FLAVOR: asan
// PROPS: C14 C15 C16
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <set>
#include <map>
#include <memory>
#include <functional>
typedef std::string S;
extern "C" void dsReset(fiftyoneDegreesDataSetBase*) asm("fiftyoneDegreesDataSetReset");
extern "C" int dsInitFromFile(fiftyoneDegreesDataSetBase*, const char*, long) asm("fiftyoneDegreesDataSetInitFromFile");
enum { OK_ = FIFTYONE_DEGREES_STATUS_SUCCESS, NOMEM = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY };
static S bytesOf(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(1 + (i * 7 + i / 251) % 250); return s; }
static bool fault(const char* w) { return env::lastFault.compare(0, strlen(w), w) == 0; }
static const std::vector<size_t> SIZES = { 0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000 };

// ---- C14 ---------------------------------------------------------------------
static void balanced(const char* w) { env::ioFaults = env::memFaults = 0; env::checkBalanced(w); }
MC_SUITE(C14, write, 2, "every size around the buffer sizes x new or existing destination x missing directory x buffered or not x every point at which an open, write or close fails (up to two of them, thorough three)") {
	env::cleanScratch(); size_t n = mc::pick(SIZES); int before = mc::choose(2); bool missing = mc::choose(3) == 2; env::unbuffered = mc::flip(); S data = bytesOf(n), path = missing ? "none/out" : "out", got;
	if (before) env::writeFile("out", bytesOf(9000)); mc::note("write %zu before=%d missing=%d unbuffered=%d", n, before, missing, env::unbuffered); mc::label("write");
	env::ioFaults = mc::tier(2, 3); std::unique_ptr<char[]> exact(new char[n ? n : 1]); memcpy(exact.get(), data.data(), n); mc::step();
	int st = fiftyoneDegreesFileWrite(path.c_str(), exact.get(), n); env::ioFaults = 0; mc::outcome(mc::fmt("%d", st));
	if (st == OK_) { MC_CHECK(!missing, "write:success", "success writing into a missing directory"); MC_CHECK(env::readFile("out", got) && got == data, "write:content", "success but the file holds %zu of %zu bytes%s%s", got.size(), n, env::lastFault.empty() ? "" : " after ", env::lastFault.c_str()); MC_CHECK(!env::faultsFired, "write:hidden", "success although %s failed", env::lastFault.c_str()); }
	else MC_CHECK(env::faultsFired || missing, "write:refused", "status %d without a failure", st);
	balanced("write");
}
MC_SUITE(C14, copy, 2, "every size around the buffer sizes x new or existing destination x missing source or directory x buffered or not x every point at which an open, read, write, seek or close fails (up to two of them, thorough three, also the removal)") {
	env::cleanScratch(); size_t n = mc::pick(SIZES); int kind = mc::choose(4); env::unbuffered = n <= 100 && mc::flip(); S data = bytesOf(n), got; if (kind != 2) env::writeFile("in", data); if (kind == 1) env::writeFile("out", bytesOf(30000));
	mc::note("copy %zu kind=%d unbuffered=%d", n, kind, env::unbuffered); mc::label("copy"); env::faultMask = env::F_ALL & ~env::F_SHORT; env::ioFaults = mc::tier(2, 3); mc::step();
	int st = fiftyoneDegreesFileCopy("in", kind == 3 ? "none/out" : "out"); env::ioFaults = 0; mc::outcome(mc::fmt("%d", st)); bool there = env::readFile("out", got);
	if (st == OK_) { MC_CHECK(kind < 2, "copy:success", "success without source or directory"); MC_CHECK(there && got == data, "copy:content", "success but the copy holds %zu of %zu bytes%s%s", got.size(), n, env::lastFault.empty() ? "" : " after ", env::lastFault.c_str()); MC_CHECK(!fault("write") && !fault("close") && !fault("open"), "copy:hidden", "success although %s failed", env::lastFault.c_str()); }
	else {
		MC_CHECK(env::faultsFired || kind >= 2, "copy:refused", "status %d without a failure", st);
		if (kind == 2) MC_CHECK(!there, "copy:partial", "a destination without a source");
		// A failed copy leaves no destination, unless it could not be opened (then it is as it was) or removed.
		if (there && kind < 2 && !fault("remove") && !fault("unlink")) { bool untouched = kind == 1 && got == bytesOf(30000); MC_CHECK(untouched, "copy:partial", "status %d after %s but a destination of %zu bytes is left", st, env::lastFault.c_str(), got.size()); }
	}
	MC_CHECK(kind == 2 || (env::readFile("in", got) && got == data), "copy:source", "the source was changed"); balanced("copy");
}
MC_SUITE(C14, read, 2, "reading files of every size around the buffer sizes into memory and their sizes, missing files, every point at which an open, read, seek, end of file or memory request fails (up to two of them, thorough three)") {
	env::cleanScratch(); size_t n = mc::pick(SIZES); bool missing = mc::choose(3) == 2; env::unbuffered = n <= 100 && mc::flip(); S data = bytesOf(n); if (!missing) env::writeFile("in", data); fiftyoneDegreesMemoryReader r; memset(&r, 0, sizeof r);
	mc::note("read %zu missing=%d unbuffered=%d", n, missing, env::unbuffered); mc::label("read"); env::ioFaults = mc::tier(2, 3); env::memFaults = mc::tier(2, 3); mc::step(); int st = fiftyoneDegreesFileReadToByteArray("in", &r); env::ioFaults = env::memFaults = 0; mc::outcome(mc::fmt("%d", st));
	if (st == OK_) { MC_CHECK(!missing, "read:success", "success reading a missing file"); MC_CHECK(r.length == (long)n && r.current && r.startByte == r.current && r.lastByte == r.current + n, "read:reader", "length %ld of %zu after %s", (long)r.length, n, env::lastFault.c_str()); MC_CHECK(S((char*)r.current, n) == data, "read:content", "other bytes than the file's after %s", env::lastFault.c_str()); fiftyoneDegreesFree(r.startByte); }
	else { MC_CHECK(env::faultsFired || missing, "read:refused", "status %d without a failure", st); MC_CHECK(!r.current && !r.startByte, "read:partial", "status %d but the reader has a buffer", st); if (env::memFaultsFired && !env::ioFaultsFired) MC_CHECK(st == NOMEM, "read:status", "status %d when out of memory", st); }
	balanced("read");
	int sizeFaults = mc::choose(2); env::ioFaultsFired = 0; env::ioFaults = sizeFaults; mc::label("size"); long s = fiftyoneDegreesFileGetSize("in"); env::ioFaults = 0; MC_CHECK(s == (missing ? -1 : (long)n) || (s == -1 && env::ioFaultsFired), "size", "size %ld of %zu", s, n); balanced("size");
}
MC_SUITE(C14, pool, 2, "a pool of up to 3 (thorough 4) read handles on files of several sizes or a missing file, every point at which an open, read, seek or memory request fails (up to two, thorough three), then all its handles used at once") {
	env::cleanScratch(); static const std::vector<size_t> Z = { 1, 4, 5000 }; size_t n = mc::pick(Z); int conc = 1 + mc::choose(mc::tier(3, 4)); bool missing = mc::choose(3) == 2; S data = bytesOf(n); if (!missing) env::writeFile("in", data); env::unbuffered = mc::flip();
	fiftyoneDegreesFilePool p; memset(&p, 0xA5, sizeof p); fiftyoneDegreesFilePoolReset(&p); fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; e.file = e.func = nullptr; e.line = -1; mc::note("%zu bytes, %d handles, missing=%d", n, conc, missing); mc::label("pool");
	env::ioFaults = mc::tier(2, 3); env::memFaults = mc::tier(2, 3); mc::step(); int st = fiftyoneDegreesFilePoolInit(&p, "in", (uint16_t)conc, &e); mc::outcome(mc::fmt("%d", st)); env::ioFaults = env::memFaults = 0;
	if (st != OK_) { MC_CHECK(env::faultsFired || missing, "pool:refused", "status %d without a failure", st); balanced("pool:failed"); return; }
	MC_CHECK(!missing, "pool:success", "a pool of a missing file"); MC_CHECK(p.length == (long)n, "pool:length", "length %ld of %zu after %s", p.length, n, env::lastFault.c_str()); MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == OK_, "pool:exception", "success with exception %d", e.status);
	std::set<FILE*> files; std::vector<fiftyoneDegreesFileHandle*> hs; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; env::ioFaults = mc::tier(2, 3); bool hit = false;
	for (int i = 0; i < conc; i++) { env::ioFaultsFired = 0; auto h = fiftyoneDegreesFileHandleGet(&p, &e); if (!h || !h->file || e.status != FIFTYONE_DEGREES_STATUS_NOT_SET) { MC_CHECK(env::ioFaultsFired, "pool:get", "no handle %d of %d", i, conc); MC_CHECK(e.status != FIFTYONE_DEGREES_STATUS_NOT_SET, "pool:get", "no handle and no error"); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; hit = true; i--; continue; } MC_CHECK(files.insert(h->file).second, "pool:shared", "one file got twice"); hs.push_back(h); }
	env::ioFaults = 0; (void)hit;
	for (auto h : hs) { std::vector<char> b(n); MC_CHECK(!fseek(h->file, 0, SEEK_SET) && fread(b.data(), 1, n, h->file) == n && !memcmp(b.data(), data.data(), n), "pool:content", "a handle reads other bytes"); }
	for (auto h : hs) fiftyoneDegreesFileHandleRelease(h); fiftyoneDegreesFilePoolRelease(&p); balanced("pool");
}

// ---- C15 ---------------------------------------------------------------------
static S D(const char* n) { return env::scratch() + "/" + n; }
static std::vector<S> filesIn(const S& d) { return env::listDir(d); }
static bool copyIn(const S& dir, const S& name) { struct stat st; return !lstat((dir + "/" + name).c_str(), &st) && S_ISREG(st.st_mode); }
static void wipe() { env::cleanScratch(); }
MC_SUITE(C15, create, 2, "new and legacy temporary files of masters of 3 sizes over every list of up to 3 directories, each existing, with a trailing separator, missing, or not a directory, or no list at all, with every point at which opening, reading or writing fails") {
	wipe(); size_t n = mc::pick(std::vector<size_t>{ 1, 5, 9000 }); S data = bytesOf(n), base = mc::fmt("mas%d", mc::workerIndex()); bool dotDir = mc::flip(); S mdir = D(dotDir ? "m.x" : "m"); env::makeDir(mdir); S master = mdir + "/" + base + (mc::flip() ? ".dat" : ""); env::writeFile(master, data);
	int k = mc::choose(4); std::vector<S> dirs, shown; std::vector<int> kind; bool legacy = mc::flip();
	for (int i = 0; i < k; i++) { int q = mc::choose(4); kind.push_back(q); S d = D(mc::fmt("d%d", i).c_str()); dirs.push_back(d); if (q < 2) env::makeDir(d); if (q == 3) env::writeFile(d, "x"); shown.push_back(q == 1 ? d + "/" : d); }
	std::vector<const char*> paths; for (auto& s : shown) paths.push_back(s.c_str()); S ks; for (int q : kind) ks += (char)('0' + q); mc::note("%s of %zu bytes in dirs [%s] dot=%d %s", legacy ? "legacy" : "new", n, ks.c_str(), dotDir, master.c_str() + mdir.size());
	std::vector<char> dest(4096, 'x'); dest[0] = 0; env::faultMask = env::F_ALL & ~env::F_SHORT & ~env::F_REMOVE; env::ioFaults = mc::tier(1, 2); mc::label(legacy ? "create:legacy" : "create"); mc::step();
	int st = legacy ? fiftyoneDegreesFileCreateTempFile(master.c_str(), k ? paths.data() : nullptr, k, dest.data()) : fiftyoneDegreesFileNewTempFile(master.c_str(), k ? paths.data() : nullptr, k, dest.data(), dest.size()); env::ioFaults = 0; mc::outcome(mc::fmt("%d %d", st, legacy));
	S got; std::vector<S> made; std::vector<int> in;
	if (k) { for (int i = 0; i < k; i++) if (kind[i] < 2) for (auto& f : filesIn(dirs[i])) { made.push_back(dirs[i] + "/" + f); in.push_back(i); } }
	for (auto& f : filesIn(env::scratch())) { struct stat s; if (!lstat((env::scratch() + "/" + f).c_str(), &s) && S_ISREG(s.st_mode) && f[0] != 'd') { made.push_back(f); in.push_back(-1); } }
	int want = -2; if (!k) want = -1; else for (int i = 0; i < k; i++) if (kind[i] < 2) { want = i; break; }
	S f = env::lastFault; bool hit = env::faultsFired; bool inWanted = hit && ((want >= 0 && f.find(dirs[want] + "/") != S::npos && !fault("close")) || (want == -1));
	if (st == OK_) {
		MC_CHECK(made.size() == 1, "create:copies", "%zu new files for one temporary file", made.size()); S rep = dest.data(); S norm = rep; size_t p; while ((p = norm.find("//")) != S::npos) norm.erase(p, 1); if (norm.compare(0, 2, "./") == 0) norm = norm.substr(2);
		MC_CHECK(norm == made[0], "create:path", "reported %s, created %s", rep.c_str(), made[0].c_str()); MC_CHECK(env::readFile(made[0], got) && got == data, "create:content", "the copy has %zu of %zu bytes", got.size(), n);
		if (!hit) MC_CHECK(in[0] == want, "create:first", "created in directory %d, the first usable is %d", in[0], want);
		if (!legacy) { S nm = made[0].substr(made[0].rfind('/') == S::npos ? 0 : made[0].rfind('/') + 1); MC_CHECK(nm.compare(0, base.size() + 1, base + "-") == 0, "create:name", "%s is not named after %s", nm.c_str(), base.c_str()); }
		(void)inWanted;
	} else {
		MC_CHECK(hit || want == -2, "create:refused", "status %d although directory %d is usable", st, want); MC_CHECK(made.empty(), "create:partial", "failed with status %d but left %s", st, made[0].c_str());
		// A fault in one directory must not keep the others from being used.
		if (hit && k && want >= 0 && f.find(dirs[want] + "/") != S::npos) for (int i = want + 1; i < k; i++) MC_CHECK(kind[i] >= 2, "create:next", "%s failed and directory %d was not used", f.c_str(), i);
	}
	MC_CHECK(env::readFile(master, got) && got == data, "create:master", "the master was changed"); balanced("create");
}
// Kinds of file found in a temp directory.
enum { NONE, COPY, ALTFIRST, ALTLAST, SHORTER, LONGER, OTHER, SAMENAME, EXTENDS, OPENED, KINDS };
static S put(const S& dir, int kind, int slot, const S& base, const S& masterName, const S& data) {
	if (kind == NONE) return ""; S c = data, nm = mc::fmt("%s-%d-ABC%d", base.c_str(), 77, slot);
	switch (kind) { case ALTFIRST: if (c.empty()) return ""; c[0] ^= 1; break; case ALTLAST: if (c.empty()) return ""; c[c.size() - 1] ^= 1; break; case SHORTER: if (c.empty()) return ""; c.resize(c.size() - 1); break; case LONGER: c += "x"; break; case OTHER: nm = "z" + nm; break; case SAMENAME: nm = masterName; break; case EXTENDS: nm = base + mc::fmt("x%d", slot); break; }
	env::writeFile(dir + "/" + nm, c); return nm;
}
// 1: is a temp copy, 0: is not, -1: unspecified
static int isCopy(int kind, size_t n, long btc, bool fullDisagree) {
	switch (kind) {
	case COPY: case OPENED: return 1;
	case EXTENDS: return -1;
	case ALTFIRST: return btc == 0 ? -1 : 0;
	case ALTLAST: return btc < 0 || btc >= (long)n ? 0 : -1;   // outside the compared part: treated as a copy
	default: return 0; }
}
static void lookup(bool cwd) {
	wipe(); static const std::vector<std::pair<size_t, long>> SB = { { 5, -1 }, { 5, 3 }, { 5, 9 }, { 3000, -1 }, { 3000, 1500 }, { 3000, 2999 }, { 0, -1 } }; auto sb = mc::pick(SB); size_t n = sb.first; long btc = sb.second; S data = bytesOf(n), base = mc::fmt("mas%d", mc::workerIndex()); bool ext = !mc::flip();
	S masterName = base + (ext ? ".dat" : ""), mdir = D("m.x"); env::makeDir(mdir); S master = mdir + "/" + masterName; env::writeFile(master, data);
	S a = cwd ? env::scratch() : D("a"), b = D("b"); if (!cwd) env::makeDir(a); env::makeDir(b);
	int ka = mc::choose(KINDS), kb = mc::choose(KINDS), kc = mc::choose(cwd ? 2 : KINDS), form = cwd ? 0 : mc::choose(5); if (kb < ka) mc::prune(); if (kb == SAMENAME && ka == SAMENAME) mc::prune();
	struct F { S dir, name; int kind; }; std::vector<F> fs; auto add = [&](const S& d, int k, int slot) { S nm = put(d, k, slot, base, masterName, data); if (!nm.empty()) fs.push_back({ d, nm, k }); }; add(a, ka, 0); add(a, kb, 1); add(b, kc, 2);
	std::vector<S> ps; switch (form) { case 0: ps = { a }; break; case 1: ps = { a, b }; break; case 2: ps = { b, a }; break; case 3: ps = { D("none"), a }; break; case 4: ps = { a + "/", b + "/" }; break; }
	std::vector<const char*> paths; for (auto& s : ps) paths.push_back(s.c_str()); mc::note("n=%zu compare=%ld a={%d,%d} b={%d} form=%d cwd=%d ext=%d", n, btc, ka, kb, kc, form, cwd, ext);
	std::vector<int> fds; for (auto& f : fs) if (f.kind == OPENED) fds.push_back(open((f.dir + "/" + f.name).c_str(), O_RDONLY));
	auto searched = [&](const S& d) { for (auto p : ps) { if (p.back() == '/') p.pop_back(); if (p == d) return true; } return false; };
	auto closeAll = [&] { for (int fd : fds) close(fd); fds.clear(); };
	int must = 0, may = 0; for (auto& f : fs) if (searched(f.dir)) { int c = isCopy(f.kind, n, btc, false); must += c > 0; may += c != 0; }
	const char** P = cwd ? nullptr : paths.data(); int C = cwd ? 0 : (int)paths.size(); std::vector<char> dest(4096); mc::label("existing"); mc::step();
	bool found = fiftyoneDegreesFileGetExistingTempFile(master.c_str(), P, C, btc, dest.data());
	if (!found && must) { closeAll(); mc::fail("existing:missed", "a copy is there but none was found"); } if (found && !may) { closeAll(); mc::fail("existing:wrong", "found %s although there is no copy", dest.data()); }
	if (found) { S nm = dest.data(); size_t k = nm.rfind('/'); S d = k == S::npos ? env::scratch() : nm.substr(0, k); if (!d.empty() && d.back() == '/') d.pop_back(); nm = k == S::npos ? nm : nm.substr(k + 1); bool ok = false; for (auto& f : fs) if (f.name == nm && (f.dir == d || (cwd && d == ".")) && searched(f.dir)) ok = isCopy(f.kind, n, btc, false) != 0; if (!ok) { closeAll(); mc::fail("existing:wrong", "found %s which is not a copy of the master", dest.data()); } }
	mc::label("cleanup"); mc::step(); int del = fiftyoneDegreesFileDeleteUnusedTempFiles(master.c_str(), P, C, btc); closeAll(); int gone = 0;
	for (auto& f : fs) {
		bool there = env::exists(f.dir + "/" + f.name); gone += !there; int c = searched(f.dir) ? isCopy(f.kind, n, btc, false) : 0;
		if (f.kind == OPENED) MC_CHECK(there, "cleanup:open", "a file that is open was removed"); else if (c == 0) MC_CHECK(there, "cleanup:other", "%s (kind %d) is no temporary copy to be removed", f.name.c_str(), f.kind); else if (c == 1) MC_CHECK(!there, "cleanup:left", "%s in %s was not removed", f.name.c_str(), f.dir.c_str());
	}
	MC_CHECK(del == gone, "cleanup:count", "%d reported, %d removed", del, gone); S got; MC_CHECK(env::readFile(master, got) && got == data, "cleanup:master", "the master is gone or changed"); mc::outcome(mc::fmt("%d %d %d", found, del, may)); balanced("cleanup");
}
MC_SUITE(C15, collide, 2, "new and legacy temporary files made in a directory, two directories or the working directory when the first 0 to 4 names drawn, or part of the next, are those of files that exist: every file has a name of its own and the others keep their contents") {
	wipe(); S base = mc::fmt("mas%d", mc::workerIndex()), data = bytesOf(50), got; S mdir = D("m.x"); env::makeDir(mdir); S master = mdir + "/" + base + ".dat"; env::writeFile(master, data); int k = mc::choose(3); bool legacy = mc::flip(); S d[2] = { D("a"), D("b/") }; for (auto& x : d) env::makeDir(x); const char* paths[] = { d[0].c_str(), d[1].c_str() };
	char dest[4096]; std::map<S, S> kept; long per = 0;
	auto make = [&](long same) { env::randomCalls = 0; env::sameRandom = same; memset(dest, 0, sizeof dest); mc::label(legacy ? "create:legacy" : "create"); mc::step(); int st = legacy ? fiftyoneDegreesFileCreateTempFile(master.c_str(), k ? paths : nullptr, k, dest) : fiftyoneDegreesFileNewTempFile(master.c_str(), k ? paths : nullptr, k, dest, sizeof dest); env::sameRandom = -1; MC_CHECK(st == OK_, "create:refused", "status %d", st); MC_CHECK(!kept.count(dest), "create:overwritten", "%s existed", dest); MC_CHECK(env::readFile(dest, got) && got == data, "create:content", "the copy has %zu of %zu bytes", got.size(), data.size()); };
	make(1000000); per = env::randomCalls; env::writeFile(dest, "first"); kept[dest] = "first"; int n = 1 + mc::choose(3), part = mc::choose(3), same = mc::choose(5); mc::note("%s %d directories, %d files, %d names and %d/3 of one", legacy ? "legacy" : "new", k, n, same, part); if (per == 0) mc::prune();
	for (int i = 0; i < n; i++) { make(same * per + part * per / 3); S c = mc::fmt("file %d", i); env::writeFile(dest, c); kept[dest] = c; for (auto& f : kept) MC_CHECK(env::readFile(f.first, got) && got == f.second, "create:overwritten", "%s has lost its contents", f.first.c_str()); }
	mc::outcome(mc::fmt("%d %d", legacy, k)); balanced("collide");
}
MC_SUITE(C15, lookup, 3, "two directories with every combination of three files (copies, altered at the first or last byte, shorter, longer, other name, the master's name, longer name, open) x masters of 0, 5 and 3000 bytes x numbers of bytes compared x 5 lists of directories: search for a copy, then clean up") { lookup(false); }
MC_SUITE(C15, working, 3, "the same in the working directory with no list of directories") { lookup(true); }
MC_SUITE(C15, spelling, 2, "the directory given in ten spellings (absolute, relative, with ./, ../, doubled separators, a link to it), each of two copies open or not, by its name or another link, and a file of the same name in a directory below another one open or not: exactly the copies not open are removed and one of them is found") {
	wipe(); S base = mc::fmt("mas%d", mc::workerIndex()), root = env::scratch(); env::makeDir(D("m.x")); S master = D("m.x") + "/" + base + ".dat", a = D("a"), z = D("z"); env::writeFile(master, "data!"); env::makeDir(a); env::makeDir(z); env::makeDir(z + "/a"); S an = a.substr(a.rfind('/') + 1), up = root.substr(root.rfind('/') + 1); if (symlink(a.c_str(), D("l").c_str())) mc::fail("harness", "symlink"); S rel = a.compare(0, root.size() + 1, root + "/") == 0 ? a.substr(root.size() + 1) : a;
	std::vector<S> SP = { a, a + "/", a + "//", rel, "./" + rel, rel + "/.", "../" + up + "/" + rel, rel + "/../" + rel, D("l"), z + "/../" + an }; S sp = mc::pick(SP); S n1 = base + "-1-A", n2 = base + "-1-B"; int two = mc::choose(2); env::writeFile(a + "/" + n1, "data!"); if (two) env::writeFile(a + "/" + n2, "data!"); env::writeFile(z + "/a/" + n1, "data!");
	int o1 = mc::choose(3), o2 = two ? mc::choose(2) : 0, oz = mc::choose(2); std::vector<int> fds; if (o1 == 1) fds.push_back(open((a + "/" + n1).c_str(), O_RDONLY)); if (o1 == 2) fds.push_back(open((D("l") + "/" + n1).c_str(), O_RDONLY)); if (o2) fds.push_back(open((a + "/" + n2).c_str(), O_RDONLY)); if (oz) fds.push_back(open((z + "/a/" + n1).c_str(), O_RDONLY));
	mc::note("%s open=%d,%d other=%d two=%d", sp.c_str(), o1, o2, oz, two); const char* P[] = { sp.c_str() }; std::vector<char> dest(4096); mc::label("existing"); bool found = fiftyoneDegreesFileGetExistingTempFile(master.c_str(), P, 1, -1, dest.data()); S got; bool good = found && env::readFile(dest.data(), got) && got == "data!"; mc::label("cleanup"); mc::step(2); int del = fiftyoneDegreesFileDeleteUnusedTempFiles(master.c_str(), P, 1, -1); for (int fd : fds) close(fd);
	MC_CHECK(found && good, "existing:missed", "no copy found in %s", sp.c_str()); bool e1 = env::exists(a + "/" + n1), e2 = env::exists(a + "/" + n2); MC_CHECK(e1 == (o1 > 0), o1 ? "cleanup:open" : "cleanup:left", o1 ? "a file that is open was removed" : "a file that is not open was left"); if (two) MC_CHECK(e2 == (o2 > 0), o2 ? "cleanup:open" : "cleanup:left", o2 ? "the second file is open and was removed" : "the second file was left"); MC_CHECK(env::exists(z + "/a/" + n1), "cleanup:other", "a file in another directory was removed"); MC_CHECK(del == !e1 + (two && !e2), "cleanup:count", "%d reported", del); mc::outcome(mc::fmt("%d", del)); balanced("cleanup");
}
MC_SUITE(C15, many, 2, "cleaning up 1, 2, 255, 256, 257 and 300 copies in one directory, and two of them, reports the number removed") {
	wipe(); int n = mc::pick(std::vector<int>{ 1, 2, 255, 256, 257, 300 }); int dirs = 1 + mc::choose(2); S base = mc::fmt("mas%d", mc::workerIndex()), m = D((base + ".dat").c_str()); env::writeFile(m, "data!"); std::vector<S> ps; for (int i = 0; i < dirs; i++) { ps.push_back(D(mc::fmt("d%d", i).c_str())); env::makeDir(ps[i]); }
	for (int i = 0; i < n; i++) env::writeFile(ps[i % dirs] + mc::fmt("/%s-1-Q%d", base.c_str(), i), "data!"); std::vector<const char*> p; for (auto& s : ps) p.push_back(s.c_str()); mc::label("cleanup"); mc::step(n);
	int del = fiftyoneDegreesFileDeleteUnusedTempFiles(m.c_str(), p.data(), dirs, -1); size_t left = 0; for (auto& s : ps) left += filesIn(s).size(); MC_CHECK(left == 0, "cleanup:left", "%zu of %d copies left", left, n); MC_CHECK(del == n, "cleanup:count", "%d reported, %d removed", del, n); mc::outcome(mc::fmt("%d", n)); balanced("cleanup");
}
MC_SUITE(C15, faults, 3, "search and clean up over one copy and one altered file with every single open, read, seek or removal failing: never a file that is no copy") {
	wipe(); size_t n = mc::pick(std::vector<size_t>{ 5, 3000 }); S data = bytesOf(n), base = mc::fmt("mas%d", mc::workerIndex()), m = D((base + ".dat").c_str()), a = D("a"); env::writeFile(m, data); env::makeDir(a); int k = mc::pick(std::vector<int>{ COPY, ALTFIRST, ALTLAST, SHORTER, LONGER }); S alt = put(a, k, 1, base, base + ".dat", data); long btc = mc::flip() ? -1 : (long)n;
	const char* p[] = { a.c_str() }; char dest[4096]; dest[0] = 0; bool clean = mc::flip(); mc::note("n=%zu kind=%d %s", n, k, clean ? "clean" : "find"); mc::label(clean ? "cleanup" : "existing"); env::unbuffered = n == 5 && mc::flip(); env::ioFaults = mc::tier(2, 3); mc::step();
	if (!clean) { bool f = fiftyoneDegreesFileGetExistingTempFile(m.c_str(), p, 1, btc, dest); env::ioFaults = 0; MC_CHECK(!f || k == COPY, "existing:wrong", "found kind %d after %s", k, env::lastFault.c_str()); MC_CHECK(f || k != COPY || env::faultsFired, "existing:missed", "copy not found"); mc::outcome(mc::fmt("%d", f)); }
	else { int d = fiftyoneDegreesFileDeleteUnusedTempFiles(m.c_str(), p, 1, btc); env::ioFaults = 0; bool there = env::exists(a + "/" + alt); MC_CHECK(there || k == COPY, "cleanup:other", "removed kind %d after %s", k, env::lastFault.c_str()); MC_CHECK(d == !there, "cleanup:count", "%d reported, %d removed", d, !there); mc::outcome(mc::fmt("c%d", d)); }
	MC_CHECK(env::exists(m), "cleanup:master", "the master was removed"); balanced("cleanup");
}

// Making a directory or removing a file does that and nothing else, or says that it did not.
MC_SUITE(C14, entries, 2, "making a directory and removing a file, of every name of 12 (new, existing, below a missing one or a file, with separators), in every order of up to three (thorough four) of them, every point at which the system refuses") {
	env::cleanScratch(); env::makeDir("d"); env::writeFile("f", "data"); env::writeFile("d/g", "more"); static const char* N[] = { "n", "d", "f", "d/g", "d/n", "n/n", "n/f", "f/n", "x/y/z", "d/n/", "d//m", "./f" };
	auto tree = [] { std::map<S, S> t; std::function<void(const S&)> go = [&](const S& at) { for (auto& e : env::listDir(at.empty() ? "." : at)) { S n = at.empty() ? e : at + "/" + e; struct stat st; if (stat(n.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { t[n] = "/"; go(n); } else { S c; env::readFile(n, c); t[n] = c; } } }; go(""); return t; };
	auto clean = [](S n) { S o; for (char c : n) if (c != '/' || (!o.empty() && o.back() != '/')) o += c; while (!o.empty() && o.back() == '/') o.pop_back(); if (o.compare(0, 2, "./") == 0) o = o.substr(2); return o; };
	int len = 1 + mc::choose(mc::tier(3, 4)); for (int i = 0; i < len; i++) {
		const char* raw = N[mc::choose(12)]; bool make = mc::flip(); int faults = mc::choose(2); S n = clean(raw), up = n.find('/') == S::npos ? S() : n.substr(0, n.rfind('/')); auto before = tree(); bool parent = up.empty() || (before.count(up) && before[up] == "/");
		mc::note("%s %s%s", make ? "make" : "remove", raw, faults ? " refused" : ""); mc::step(); mc::label(make ? "directory:make" : "file:remove"); env::ioFaultsFired = 0; env::ioFaults = faults; int f0 = faults; int st = make ? fiftyoneDegreesFileCreateDirectory(raw) : fiftyoneDegreesFileDelete(raw); bool refused = f0 && env::ioFaultsFired > 0; env::ioFaults = 0; if (f0 && !refused) mc::prune();
		auto after = tree(), want = before; bool can = !refused && (make ? parent && !before.count(n) : before.count(n) && before[n] != "/"); if (can) { if (make) want[n] = "/"; else want.erase(n); }
		if (!make && before.count(n) && before[n] == "/") { MC_CHECK(before == after || after.size() + 1 == before.size(), "remove:other", "removing %s changed something else", raw); if (st != OK_) MC_CHECK(before == after, "remove:status", "reported as not removed but it is gone"); continue; }
		MC_CHECK(after == want, make ? "make:other" : "remove:other", "%s %s: something else was done", make ? "making" : "removing", raw); MC_CHECK((st == OK_) == can, make ? "make:status" : "remove:status", "%s %s: status %d", make ? "making" : "removing", raw, st);
		if (make && !can && !refused && before.count(n) && raw[strlen(raw) - 1] != '/') MC_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR, "make:status", "%s exists but the status is %d", raw, st);
		if (make && can) { env::writeFile(n + "/q", "q"); MC_CHECK(env::exists(n + "/q"), "make:unusable", "nothing can be put into %s", raw); ::unlink((n + "/q").c_str()); }
		mc::outcome(mc::fmt("%d %d %d", make, can, st)); mc::state(mc::hashStr(mc::fmt("%zu %zu", after.size(), std::hash<S>()(n))));
	}
	balanced("entries");
}

// ---- C16 ---------------------------------------------------------------------
static S word(int maxLen, const char* al, int minLen = 0) { int n = minLen + mc::choose(maxLen - minLen + 1); S s; for (int i = 0; i < n; i++) s += al[mc::choose((int)strlen(al))]; return s; }
struct Exact { char* p; size_t n; Exact(size_t n, char fill) : p((char*)malloc(n ? n : 1)), n(n) { memset(p, fill, n ? n : 1); } ~Exact() { free(p); } };
static char* exactStr(const S& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
MC_SUITE(C16, filename, 3, "the file name of every path of up to 6 (thorough 8) characters over separators, dot and letter, in a buffer of exactly its size") {
	S s = word(mc::tier(6, 8), "/\\.a"); char* p = exactStr(s); mc::note("%s", mc::quoted(s).c_str()); mc::label("filename"); mc::step(); const char* r = fiftyoneDegreesFileGetFileName(p); size_t k = s.find_last_of("/\\"); size_t want = k == S::npos ? 0 : k + 1;
	bool ok = r == p + want; S got = r >= p && r <= p + s.size() ? S(r) : S("(outside)"); free(p); MC_CHECK(ok, "filename", "file name of %s is %s, given %s", mc::quoted(s).c_str(), mc::quoted(s.substr(want)).c_str(), mc::quoted(got).c_str()); mc::outcome(s.substr(want));
}
static S baseOf(const S& s) { size_t k = s.find_last_of("/\\"); S n = k == S::npos ? s : s.substr(k + 1); size_t d = n.rfind('.'); return d == S::npos ? n : n.substr(0, d); }
MC_SUITE(C16, tempname, 3, "temporary names for every master path of up to 4 (thorough 5) characters over separator, dot and letter and for long names, at 2 positions, with every buffer length from 0 to 3 beyond the needed one, in a buffer of exactly that size") {
	S m = mc::choose(8) ? word(mc::tier(4, 5), "/.a", 1) : S(mc::pick(std::vector<int>{ 100, 4000 }), 'q') + (mc::flip() ? ".dat" : ""); S b = baseOf(m), pid = std::to_string((long)getpid()); size_t need = b.size() + 1 + pid.size() + 1 + 20 + 1, start = mc::choose(2) * 3, len;
	if (m.size() < 50 && b.size() + 2 < m.size() + 2 && mc::choose(2)) len = mc::choose((int)need + 4); else { static const int d[] = { -3, -2, -1, 0, 1, 3 }; len = need + d[mc::choose(6)]; } Exact x(start + len, 'x'); memset(x.p, 'p', start);
	mc::note("%s at %zu, length %zu of %zu", mc::quoted(m.substr(0, 20)).c_str(), start, len, need); mc::label("tempname"); char* mm = exactStr(m); mc::step(); env::cleanScratch(); int st = fiftyoneDegreesFileAddTempFileName(mm, x.p, start, len); free(mm);
	for (size_t i = 0; i < start; i++) MC_CHECK(x.p[i] == 'p', "tempname:before", "wrote before the position given");
	if (len < need) MC_CHECK(st == NOMEM, "tempname:status", "status %d for a length of %zu, needed %zu", st, len, need); else { MC_CHECK(st == OK_, "tempname:status", "status %d for a length of %zu, needed %zu", st, len, need); S got(x.p + start, strnlen(x.p + start, len)); MC_CHECK(got.size() + 1 == need && got.compare(0, b.size() + pid.size() + 2, b + "-" + pid + "-") == 0, "tempname:text", "%s for %s", got.c_str(), b.c_str()); }
	mc::outcome(mc::fmt("%d %zu", st, b.size())); balanced("tempname");
}
MC_SUITE(C16, temppath, 3, "temporary files in one directory or none, with every destination length from 1 to 3 beyond the needed one, in a buffer of exactly that size: success exactly when it fits, nothing left behind otherwise") {
	wipe(); env::makeDir(D("m.d")); S m = D("m.d/ab.c"); env::writeFile(m, "0123"); int form = mc::choose(3); S dir = form == 0 ? "" : form == 1 ? "t" : "t/"; env::makeDir(D("t")); S pid = std::to_string((long)getpid()); size_t need = (form ? 2 : 0) + 2 + 1 + pid.size() + 1 + 20 + 1, len = 1 + mc::choose((int)need + 3);
	Exact x(len, 0); const char* p[] = { dir.c_str() }; mc::note("form %d length %zu of %zu", form, len, need); mc::label("temppath"); mc::step(); int st = fiftyoneDegreesFileNewTempFile(m.c_str(), form ? p : nullptr, form ? 1 : 0, x.p, len); size_t made = filesIn(D("t")).size(); for (auto& f : filesIn(env::scratch())) made += copyIn(env::scratch(), f);
	if (len < need) { MC_CHECK(st == NOMEM, "temppath:status", "status %d for a length of %zu, needed %zu", st, len, need); MC_CHECK(!made, "temppath:left", "a file was left although its path does not fit"); } else { MC_CHECK(st == OK_, "temppath:status", "status %d for a length of %zu, needed %zu", st, len, need); S got(x.p, strnlen(x.p, len)); MC_CHECK(got.size() + 1 == need && env::exists(got) && made == 1, "temppath:text", "%s", got.c_str()); }
	mc::outcome(mc::fmt("%d %d", st, form)); balanced("temppath");
}
MC_SUITE(C16, getpath, 3, "finding a data file from a working directory three deep, placed at every subset of the levels, with destination lengths around the needed one, in a buffer of exactly that size") {
	wipe(); S cur = env::scratch(); std::vector<S> levels = { cur }; for (const char* d : { "x", "yy", "z" }) { cur += S("/") + d; env::makeDir(cur); levels.push_back(cur); } int mask = mc::choose(16); S want; int depth = 1 + mc::choose(3); S fname = mc::flip() ? "f.dat" : "g"; // the file name
	for (int i = 0; i < 4; i++) if (mask >> i & 1) { env::makeDir(levels[i] + "/data"); env::writeFile(levels[i] + "/data/" + fname, "1"); if (i <= depth) want = levels[i] + "/data/" + fname; }
	size_t need = want.size() + 1; static const int dl[] = { -2, -1, 0, 1, 50 }; int which = mc::choose(5); size_t len = want.empty() ? 200 : need + dl[which]; Exact x(len, 'x'); if (chdir(levels[depth].c_str())) abort(); mc::note("levels %x depth %d length %zu", mask, depth, len); mc::label("getpath"); mc::step();
	int st = fiftyoneDegreesFileGetPath("data", fname.c_str(), x.p, len); if (chdir(env::scratch().c_str())) abort(); S got(x.p, strnlen(x.p, len));
	if (want.empty()) MC_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "getpath:status", "status %d with no file", st); else if (len < need) MC_CHECK(st == NOMEM, "getpath:status", "status %d for a length of %zu, needed %zu", st, len, need); else { MC_CHECK(st == OK_, "getpath:status", "status %d", st); MC_CHECK(got == want, "getpath:path", "%s instead of %s", got.c_str(), want.c_str()); } mc::outcome(mc::fmt("%d", st)); balanced("getpath");
}
MC_SUITE(C16, longpaths, 3, "directory and master names of lengths around the longest path (4080 to 4100 characters) in every helper that takes one: refused or used, never written out of bounds") {
	wipe(); S m = D("ab.c"); env::writeFile(m, "0123"); size_t n = 4060 + mc::choose(45); int op = mc::choose(7); S lng; while (lng.size() + 1 < n) lng += "./"; lng.resize(n, '.'); if (mc::flip()) lng[n - 1] = '/'; S path = lng; if (mc::flip()) path = S(n, 'd'); const char* p[] = { path.c_str() };
	Exact x(4096, 0); mc::note("op %d length %zu %c", op, n, path[0]); mc::label("longpaths"); mc::step(); int st = 0;
	switch (op) {
	case 0: st = fiftyoneDegreesFileGetExistingTempFile(m.c_str(), p, 1, -1, x.p); MC_CHECK(!st || env::exists(x.p), "longpaths", "found a file that does not exist"); break;
	case 1: st = fiftyoneDegreesFileDeleteUnusedTempFiles(m.c_str(), p, 1, -1); break;
	case 2: st = fiftyoneDegreesFileNewTempFile(m.c_str(), p, 1, x.p, 4096) == OK_; MC_CHECK(!st || env::exists(x.p), "longpaths", "reported a file that does not exist"); break;
	case 3: st = fiftyoneDegreesFileCreateTempFile(m.c_str(), p, 1, x.p) == OK_; MC_CHECK(!st || env::exists(x.p), "longpaths", "reported a file that does not exist"); break;
	case 4: st = fiftyoneDegreesFileGetPath(path.c_str(), "f", x.p, 4096); MC_CHECK(st != OK_, "longpaths", "found a file that does not exist"); break;
	case 5: st = fiftyoneDegreesFileGetPath("data", path.c_str(), x.p, 4096); MC_CHECK(st != OK_, "longpaths", "found a file that does not exist"); break;
	case 6: { S q(n, 'b'); q += ".dat"; st = fiftyoneDegreesFileGetExistingTempFile(q.c_str(), nullptr, 0, -1, x.p); MC_CHECK(!st, "longpaths", "found a copy of a file that does not exist"); break; }
	}
	mc::outcome(mc::fmt("%d %d", op, st)); balanced("longpaths");
}
MC_SUITE(C16, dataset, 3, "the master file name of a data set of lengths around the longest path is taken over whole or refused") {
	size_t n = mc::choose(2) ? 4090 + mc::choose(12) : mc::choose(4); S nm(n, 'n'); char* p = exactStr(nm); auto ds = (fiftyoneDegreesDataSetBase*)malloc(sizeof(fiftyoneDegreesDataSetBase)); memset(ds, 0, sizeof *ds); fiftyoneDegreesConfigBase c; memset(&c, 0, sizeof c); dsReset(ds); ds->config = &c; mc::note("%zu", n); mc::label("dataset"); mc::step();
	int st = dsInitFromFile(ds, p, -1); bool ok = st == OK_ && S(ds->masterFileName) == nm && S(ds->fileName) == nm; free(p); free(ds); if (n >= 4096) MC_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG, "dataset:long", "status %d", st); else MC_CHECK(ok, "dataset:name", "status %d for %zu characters", st, n); mc::outcome(mc::fmt("%d", st));
}
