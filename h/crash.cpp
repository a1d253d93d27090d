// FLAVOR: asan
// PROPS: C36
// Processes that share directories of temporary files: one stops before a chosen
// device operation and dies there, or waits until the other has done a chosen
// number of its own.
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <unistd.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <signal.h>
#include <set>
#include <map>
#include <thread>
#include <mutex>
#include <condition_variable>
typedef std::string S;
enum { OK_ = FIFTYONE_DEGREES_STATUS_SUCCESS };
static const int END = 0x7fffffff;
static S content(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(1 + (i * 7 + i / 251) % 250); return s; }

// ---- what a process does ------------------------------------------------------
enum Kind { NEW, REUSE, CLEAN, KINDS };
struct Result { int status; bool existing; char path[2048]; int deleted; bool there, whole; bool done; };
struct World { size_t n; int dirs; long compare; S master; const char* paths[2]; S d[2]; std::vector<S> where() const { return dirs ? std::vector<S>(d, d + dirs) : std::vector<S>(1, env::scratch()); } };
static World w;
static void seen(Result& r) { S got; r.there = env::exists(r.path); r.whole = env::readFile(r.path, got) && got == content(w.n); }
static void act(Kind k, Result& r) {
	memset(&r, 0, sizeof r); const char** p = w.dirs ? w.paths : nullptr; r.status = OK_;
	if (k == CLEAN) r.deleted = fiftyoneDegreesFileDeleteUnusedTempFiles(w.master.c_str(), p, w.dirs, w.compare);
	else { r.existing = k == REUSE && fiftyoneDegreesFileGetExistingTempFile(w.master.c_str(), p, w.dirs, w.compare, r.path); if (!r.existing) r.status = fiftyoneDegreesFileNewTempFile(w.master.c_str(), p, w.dirs, r.path, sizeof r.path); if (r.status == OK_) seen(r); }
	r.done = true;
}
static const char* kindName[] = { "new", "reuse or new", "clean" };

// ---- the other process -----------------------------------------------------------
// A thread of the harness, which runs only while the harness waits for it.
struct Other {
	std::thread t; std::mutex m; std::condition_variable cv; bool running = false, over = true; int target = 0, n = 0; Result r;
	~Other() { advance(END); if (t.joinable()) t.join(); }
	// Starts it up to before its at'th operation. True if it has stopped, false if it has come to its end.
	bool start(Kind k, int at) { target = at; running = true; over = false; memset(&r, 0, sizeof r); t = std::thread([this, k] { act(k, r); std::unique_lock<std::mutex> l(m); over = true; running = false; cv.notify_all(); }); return wait(); }
	void point() { while (n == target) { std::unique_lock<std::mutex> l(m); running = false; cv.notify_all(); cv.wait(l, [this] { return running; }); } n++; }
	bool wait() { { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return !running; }); } if (over && t.joinable()) t.join(); return !over; }
	bool advance(int at) { if (over) return false; { std::unique_lock<std::mutex> l(m); target = at; running = true; cv.notify_all(); } return wait(); }
};
// The files of the scratch area which are open, by device and inode.
static std::set<std::pair<dev_t, ino_t>> openNow() { std::set<std::pair<dev_t, ino_t>> s; for (auto& f : env::listDir("/proc/self/fd")) { struct stat st; char to[4096]; S at = "/proc/self/fd/" + f; ssize_t len = readlink(at.c_str(), to, sizeof to); if (len > 0 && !S(to, (size_t)len).compare(0, env::scratch().size() + 1, env::scratch() + "/") && !stat(at.c_str(), &st) && S_ISREG(st.st_mode)) s.insert({ st.st_dev, st.st_ino }); } return s; }
// Runs up to before the at'th operation and dies there.
static jmp_buf death;
static bool dies(Kind k, int at) { volatile int n = 0; volatile bool died = false; static Result r; if (!setjmp(death)) { env::hook = [&](const char*) { if (n == at) longjmp(death, 1); n = n + 1; }; act(k, r); } else died = true; env::hook = nullptr; if (died) env::abandon(); return died; }

// ---- judging ---------------------------------------------------------------------------
static std::vector<S> temps() { std::vector<S> v; for (auto& d : w.where()) for (auto& f : env::listDir(d)) if (f != "m.dat" && f != "m-other.txt" && f != "sub" && f[0] != 'd') v.push_back(d + "/" + f); return v; }
static bool whole(const S& p) { S got; return env::readFile(p, got) && got == content(w.n); }
static void setUp(const std::vector<size_t>& N, const std::vector<int>& D, const std::vector<long>& C) {
	env::cleanScratch(); w.n = mc::pick(N); w.dirs = mc::pick(D); w.compare = mc::pick(C);
	env::makeDir(env::scratch() + "/sub"); for (int i = 0; i < 2; i++) { w.d[i] = env::scratch() + "/d" + (char)('1' + i); env::makeDir(w.d[i]); w.paths[i] = w.d[i].c_str(); } w.master = env::scratch() + (w.dirs ? "/sub/m.dat" : "/m.dat"); env::writeFile(w.master, content(w.n)); env::writeFile(w.where()[0] + "/m-other.txt", "not a copy of it");
}
static void masterKept() { S got; MC_CHECK(env::readFile(w.master, got) && got == content(w.n), "master", "the master file was changed or removed"); MC_CHECK(env::exists(w.where()[0] + "/m-other.txt"), "other", "another file was removed"); }
static void given(const Result& r, bool cleaning, const char* who) {
	MC_CHECK(r.status == OK_, "given:status", "%s: status %d without a failure", who, r.status); MC_CHECK(r.whole || (!r.there && cleaning), "given:incomplete", "%s: %s is %s", who, r.existing ? "an existing file which was offered" : "the new file", r.there ? "incomplete" : "not there");
	S p = r.path, m = p.substr(p.find_last_of('/') + 1); MC_CHECK(m.compare(0, 1, "m") == 0 && m != "m.dat" && m != "m-other.txt", "given:other", "%s: given %s", who, m.c_str());
}
// How many operations there are from the state the directories are in, which stays as it is.
static int operations(Kind k) {
	std::map<S, S> had; for (auto& f : temps()) env::readFile(f, had[f]); int n = 0; Result r; env::hook = [&](const char*) { n++; }; act(k, r); env::hook = nullptr;
	for (auto& f : temps()) if (!had.count(f)) ::unlink(f.c_str()); for (auto& f : had) if (!env::exists(f.first)) env::writeFile(f.first, f.second); return n;
}
MC_SUITE(C36, dies, 3, "masters of 4 sizes, up to 2 directories or none, 4 amounts to compare: a process dies before any of its device operations, between any pieces of a write, while making or reusing a temporary file, up to two times (thorough three), then another looks for a copy, makes one, and cleans up") {
	setUp({ 0, 1, 3, 5000 }, { 0, 1, 2 }, { -1, 0, 2, 4096 }); int deaths = 1 + mc::choose(mc::tier(2, 3)); mc::note("%zu bytes, %d directories, compare %ld;", w.n, w.dirs, w.compare);
	for (int i = 0; i < deaths; i++) { Kind k = (Kind)mc::choose(2); int at = mc::choose(operations(k)); mc::label("process:dying"); mc::step(); if (!dies(k, at)) mc::prune(); mc::note(" %s dies at %d;", kindName[k], at); masterKept(); }
	size_t full = 0; for (auto& f : temps()) { S got; MC_CHECK(env::readFile(f, got) && got == content(w.n).substr(0, got.size()), "left:content", "what is left is not a beginning of the master"); full += got.size() == w.n; }
	Result r; mc::label("process:reuse"); act(REUSE, r); given(r, false, "after a process died"); MC_CHECK(r.existing == (full > 0), "reuse:existing", "%zu complete copies but %s", full, r.existing ? "one is offered" : "none is offered"); if (!r.existing) full++;
	mc::label("process:new"); act(NEW, r); given(r, false, "a new file after a process died"); full++; mc::label("process:clean"); size_t before = temps().size(); act(CLEAN, r); size_t left = 0; for (auto& f : temps()) left += whole(f);
	MC_CHECK(!left, "clean:left", "%zu complete copies which no process has open are left", left); MC_CHECK((size_t)r.deleted == full && before - temps().size() == full, "clean:count", "%d reported, %zu removed, %zu copies", r.deleted, before - temps().size(), full); masterKept(); env::checkBalanced("processes"); mc::outcome(mc::fmt("%zu", full));
}
MC_SUITE(C36, together, 3, "two processes each make, reuse or clean up temporary files (nothing, a complete copy or the beginning of one being there before): one stops before any device operation or piece of a write, the other comes in and stops before any of its own, then the first goes on to its end (thorough: or up to before any further one, and one time more)") {
	setUp({ 3, 5000 }, { 0, 2 }, { -1, 2 }); Kind a = (Kind)mc::choose(KINDS), b = (Kind)mc::choose(KINDS); int had = mc::choose(3); S old = w.where()[0] + "/m-1-old"; if (had) env::writeFile(old, had == 1 ? content(w.n) : content(w.n).substr(0, w.n / 2)); 
	mc::note("%zu bytes, %d directories, compare %ld, %s there; %s and %s:", w.n, w.dirs, w.compare, had == 0 ? "nothing" : had == 1 ? "a copy" : "the beginning of one", kindName[a], kindName[b]); std::set<S> before; for (auto& f : temps()) before.insert(f);
	int na = operations(a), nb = operations(b) + 4; Other c; std::function<void()> mine; env::hook = [&](const char*) { if (c.running) c.point(); else if (mine) mine(); }; int at = mc::choose(na ? na : 1); mc::label("process:other"); mc::step(); if (!c.start(a, at) && na) mc::prune(); mc::note(" %d", at); auto held = openNow(); int n = 0, next = mc::choose(nb), back = mc::tier(1, 2); const bool end = mc::tier(1, 0); bool alone = true;
	// the other one comes in before this one's next'th operation, up to its own at'th or its end
	mine = [&] { if (back > 0 && n == next) { back--; alone = false; at = end || !mc::choose(2) ? END : at + 1 + mc::choose(na - at + 4); bool stopped = c.advance(at); mc::note(" | %d | %d", next, at); if (!stopped) back = 0; else next = n + 1 + mc::choose(nb); } n++; };
	Result r; mc::label("process:this"); act(b, r); mine = nullptr; if (alone && next + 1 != nb) mc::prune();
	if (alone) for (auto& x : held) { bool there = false; for (auto& d : { w.where()[0], w.where().back(), S(w.master.substr(0, w.master.find_last_of('/'))) }) for (auto& f : env::listDir(d)) { struct stat st; if (!stat((d + "/" + f).c_str(), &st) && st.st_dev == x.first && st.st_ino == x.second) there = true; } MC_CHECK(there, "clean:in-use", "a file which the other process has open was removed"); }
	if (!c.over) { mc::label("process:other"); c.advance(END); } Result o = c.r; masterKept(); bool cleaning = a == CLEAN || b == CLEAN; if (a != CLEAN) given(o, cleaning, "the process stopped first"); if (b != CLEAN) given(r, cleaning, "the other process");
	env::hook = nullptr; if (a != CLEAN && b != CLEAN && !o.existing && !r.existing) MC_CHECK(strcmp(o.path, r.path), "new:same", "both made the same file");
	size_t made = (a != CLEAN && !o.existing) + (b != CLEAN && !r.existing), now = temps().size(); MC_CHECK(before.size() + made - now == (size_t)(o.deleted + r.deleted), "clean:count", "%d reported removed, but of %zu files and %zu new ones %zu are left", o.deleted + r.deleted, before.size(), made, now);
	if (had == 1 && cleaning && a != REUSE && b != REUSE) MC_CHECK(!env::exists(old), "clean:left", "a copy which no process has open is left"); env::checkBalanced("processes"); mc::outcome(mc::fmt("%d%d %d%d", o.existing, o.deleted, r.existing, r.deleted));
}
// A process of its own, which opens files and keeps them.
struct Holder {
	pid_t pid = -1; bool ready = false;
	Holder(const std::vector<S>& files) {
		int p[2]; if (pipe(p)) return; pid = fork(); if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]); bool ok = true; for (auto& f : files) ok = ok && open(f.c_str(), O_RDONLY) >= 0; if (ok && write(p[1], "", 1) == 1) for (;;) pause(); _exit(1); }
		close(p[1]); char c; ready = read(p[0], &c, 1) == 1; close(p[0]);
	}
	~Holder() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
};
MC_SUITE(C36, held, 3, "two directories with two copies each: every set of them held open by up to two other processes, by the name in the directory, through a link to the directory or by another name of the same file, the processes before or after the one that cleans up: those stay, the others go, until the processes have ended") {
	env::cleanScratch(); w.n = 3; w.dirs = 2; w.compare = -1; w.master = env::scratch() + "/m.dat"; env::writeFile(w.master, content(3)); for (int i = 0; i < 2; i++) { w.d[i] = env::scratch() + "/d" + (char)('1' + i); env::makeDir(w.d[i]); w.paths[i] = w.d[i].c_str(); }
	std::vector<S> f; for (int i = 0; i < 4; i++) { f.push_back(w.d[i / 2] + "/m-" + (char)('1' + i)); env::writeFile(f[i], content(3)); } MC_CHECK(!symlink((w.d[0]).c_str(), (env::scratch() + "/l1").c_str()) && !symlink(w.d[1].c_str(), (env::scratch() + "/l2").c_str()), "set-up", "no link");
	int two = mc::choose(2), how = mc::choose(3), a = mc::choose(16), b = two ? mc::choose(16) : 0; auto names = [&](int set) { std::vector<S> v; for (int i = 0; i < 4; i++) if (set >> i & 1) { S n = f[i]; if (how == 1) n = env::scratch() + "/l" + (char)('1' + i / 2) + "/m-" + (char)('1' + i); if (how == 2) { n = env::scratch() + "/x" + (char)('1' + i); if (link(f[i].c_str(), n.c_str()) && errno != EEXIST) n = ""; } v.push_back(n); } return v; };
	mc::note("one process holds %x, another %x%s:", a, b, how == 1 ? ", through a link to the directory" : how == 2 ? ", by another name" : ""); mc::step(); mc::label("process:held"); Result r;
	{ Holder x(names(a)), y(two ? names(b) : std::vector<S>()); MC_CHECK(x.ready && y.ready, "set-up", "a process could not open its files"); bool after = mc::flip(); env::processes = { (int)x.pid, (int)y.pid }; if (after) env::processes = { (int)x.pid, (int)y.pid, 1, 1, 1 }; act(CLEAN, r); int held = a | b; for (int i = 0; i < 4; i++) { bool there = env::exists(f[i]); MC_CHECK(there || !(held >> i & 1), "clean:in-use", "%s was removed", f[i].c_str()); MC_CHECK(!there || held >> i & 1, "clean:left", "%s is left", f[i].c_str()); } MC_CHECK(r.deleted == 4 - __builtin_popcount(held), "clean:count", "%d", r.deleted); }
	act(CLEAN, r); MC_CHECK(r.deleted == __builtin_popcount(a | b) && temps().empty(), "clean:left", "%d removed after the processes have ended", r.deleted); MC_CHECK(whole(w.master), "master", "the master file was changed"); env::checkBalanced("processes"); mc::outcome(mc::fmt("%d", r.deleted));
}
