#include "mc.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <algorithm>

namespace mc {

enum { MAXC = 20000, TRACE = 16384, MAXV = 64 };

struct Shared {               // one per worker, in shared memory
	volatile uint64_t beat;
	volatile uint64_t execs, pruned, steps;
	volatile int n;           // choices made so far in the current execution
	volatile int done, running;
	uint16_t choice[MAXC], arity[MAXC];
	char label[512];
	char crash[2048];
	char trace[TRACE];
};
struct Violation {
	char sig[160]; char msg[1024]; char trace[TRACE]; int n; uint16_t choice[2048]; int count;
};
struct SuiteShared { volatile int nviol; volatile int stop; volatile int slow; Violation v[MAXV]; };

static Shared* me; static SuiteShared* ss; static Shared localShared;
static std::vector<uint16_t> path; static size_t pos;
static int W = 1, myIndex = 0, splitDepth = 0; static bool owner = true, replaying = false, isThorough = false;
static std::unordered_set<uint64_t> states, outcomes;
static std::vector<std::string> sampleTraces;
static uint64_t nextSample = 1;
static Suite* suites = nullptr;
std::vector<std::function<void()>> onBegin, onEnd;
static std::set<std::string>& reportedHere() { static std::set<std::string> s; return s; }

struct Skip {};

void registerSuite(Suite* s) { Suite** p = &suites; while (*p) p = &(*p)->next; *p = s; }
bool thorough() { return isThorough; }
int tier(int q, int t) { return isThorough ? t : q; }
int workerIndex() { return myIndex; }
bool tracing() { return replaying; }
void beat() { me->beat = me->beat + 1; }

std::string fmt(const char* f, ...) {
	char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
std::string quoted(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		if (r.size() > 300) { r += "..."; break; }
	}
	return r + "\"";
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
	const unsigned char* c = (const unsigned char*)p;
	while (n--) { h ^= *c++; h *= 1099511628211ULL; }
	return h;
}

int choose(int n) {
	if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
	if (n == 1) return 0;
	int i = me->n;
	if (i >= MAXC) fail("unbounded-choices", "more than %d decisions in one execution", (int)MAXC);
	int c;
	if ((size_t)i < path.size()) {
		c = path[i];
		if (c >= n) {
			if (replaying) { fprintf(stderr, "replay diverged: choice %d=%d of %d\n", i, c, n); exit(3); }
			fprintf(stderr, "DIVERGED at choice %d: %d of %d\n", i, c, n); exit(77);
		}
	}
	else c = 0;
	me->choice[i] = (uint16_t)c; me->arity[i] = (uint16_t)n; me->n = i + 1;
	me->beat = me->beat + 1;
	if (i + 1 == splitDepth && W > 1 && !replaying) {
		uint64_t h = 77; for (int k = 0; k <= i; k++) h = mix(h, me->choice[k]);
		owner = (int)(h % W) == myIndex;
		if (!owner) throw Skip();
	}
	return c;
}
void prune() { throw Abort(); }
void state(uint64_t h) { if (states.size() < 20000000) states.insert(h); }
void step(int n) { me->steps = me->steps + n; }
void outcome(const std::string& s) { if (outcomes.size() < 1000000) outcomes.insert(hashStr(s)); }
void note(const char* f, ...) {
	size_t l = strlen(me->trace); if (l + 2 >= TRACE) return;
	va_list a; va_start(a, f); vsnprintf(me->trace + l, TRACE - l - 1, f, a); va_end(a);
	l = strlen(me->trace); if (l + 2 < TRACE) { me->trace[l] = ';'; me->trace[l + 1] = ' '; me->trace[l + 2] = 0; }
}
void label(const char* f, ...) {
	va_list a; va_start(a, f); vsnprintf(me->label, sizeof me->label, f, a); va_end(a);
}
const char* trace() { return me->trace; }

static void record(const char* sig, const char* msg) {
	// keep shortest first occurrence per signature; count others
	for (int i = 0; i < ss->nviol && i < MAXV; i++) if (strcmp(ss->v[i].sig, sig) == 0) { ss->v[i].count++; return; }
	int i = __sync_fetch_and_add(&ss->nviol, 1);
	if (i >= MAXV) { ss->nviol = MAXV; return; }
	Violation& v = ss->v[i];
	snprintf(v.msg, sizeof v.msg, "%s", msg); memcpy(v.trace, me->trace, TRACE); v.trace[TRACE - 1] = 0;
	v.n = me->n < 2048 ? me->n : 2048; memcpy(v.choice, me->choice, sizeof(uint16_t) * v.n); v.count = 1;
	__sync_synchronize();
	snprintf(v.sig, sizeof v.sig, "%s", sig);
}
void report(const char* sig, const char* f, ...) {
	char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	if (replaying) printf("VIOLATED %s: %s\n  trace: %s\n", sig, b, me->trace);
	if (reportedHere().insert(sig).second || replaying) record(sig, b);
}
void fail(const char* sig, const char* f, ...) {
	char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	report(sig, "%s", b);
	// executions that run to the horizon are slow and more of them tell nothing
	if (!strncmp(sig, "livelock", 8) || !strncmp(sig, "unbounded", 9)) { if (__sync_add_and_fetch(&ss->slow, 1) >= 40) ss->stop = 1; }
	throw Abort();
}

static void runOnce(Suite* s) {
	me->n = 0; me->trace[0] = 0; me->label[0] = 0; me->crash[0] = 0; owner = true; me->running = 1;
	bool counted = false;
	for (auto& f : onBegin) f();
	try {
		s->body();
		if (me->n < splitDepth && W > 1 && !replaying) {
			uint64_t h = 77; for (int k = 0; k < me->n; k++) h = mix(h, me->choice[k]);
			owner = (int)(h % W) == myIndex;
		}
		counted = owner;
		if (!owner) me->steps = me->steps; 
	}
	catch (Skip&) {}
	catch (Abort&) { me->pruned = me->pruned + 1; }
	for (auto& f : onEnd) f();
	me->running = 0;
	if (counted) {
		me->execs = me->execs + 1;
		if (me->execs == nextSample && sampleTraces.size() < 3 && me->trace[0]) { sampleTraces.push_back(me->trace); nextSample = nextSample * 37 + 5; }
	}
	me->beat = me->beat + 1;
}

static bool advance() {      // path := next path in DFS order
	int n = me->n; path.assign(me->choice, me->choice + n);
	while (n > 0) {
		if (me->choice[n - 1] + 1 < me->arity[n - 1]) { path.resize(n); path[n - 1]++; return true; }
		n--;
	}
	return false;
}

static void workerLoop(Suite* s, bool resume) {
	if (s->setup) s->setup();
	if (resume) { if (!advance()) { me->done = 1; return; } }
	else path.clear();
	for (;;) {
		runOnce(s);
		if (ss->stop) break;
		if (!advance()) break;
	}
	me->done = 1;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string jsonEsc(const std::string& s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static int rmEntry(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
std::string scratchRoot;       // directory of this process tree
std::string workerScratch;     // directory of this worker

static void rmTree(const std::string& d) { if (d.size() > 8) nftw(d.c_str(), rmEntry, 16, FTW_DEPTH | FTW_PHYS); }

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
static void onAsan(const char* text) {
	// keep the first line and the first frames
	if (me->crash[0]) return;
	const char* e = strstr(text, "ERROR:");
	snprintf(me->crash, sizeof me->crash, "%s", e ? e : text);
}
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
		"quarantine_size_mb=16:malloc_context_size=8:max_malloc_fill_size=4096:detect_odr_violation=0:handle_abort=1:check_initialization_order=0";
}
#endif
static void onSig(int s) {
	snprintf(me->crash, sizeof me->crash, "signal %d", s);
	_exit(98);
}

struct Totals { uint64_t execs = 0, pruned = 0, steps = 0; };

static const double HANG_S = 25;

struct Job { Suite* s; };

static bool keepStderr = false;
static void childSetup(int idx) {
	workerScratch = scratchRoot + fmt("/w%d", idx);
	mkdir(workerScratch.c_str(), 0755);
	if (chdir(workerScratch.c_str())) _exit(97);
	if (!keepStderr && !freopen("/dev/null", "w", stderr)) _exit(97);
#if defined(__SANITIZE_ADDRESS__)
	__asan_set_error_report_callback(onAsan);
#else
	static char alt[65536]; stack_t st; st.ss_sp = alt; st.ss_size = sizeof alt; st.ss_flags = 0; sigaltstack(&st, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK;
	int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
	for (int s : sg) sigaction(s, &sa, nullptr);
#endif
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
}

static std::string resultJson;

static void exploreSuite(Suite* s, int workers, double budget) {
	double t0 = now();
	W = workers; splitDepth = s->split;
	if (splitDepth <= 0) { W = 1; }
	size_t sz = sizeof(Shared) * W;
	Shared* sh = (Shared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	ss = (SuiteShared*)mmap(nullptr, sizeof(SuiteShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pid(W, 0); std::vector<uint64_t> lastBeat(W, 0); std::vector<double> lastT(W, now());
	std::vector<int> restarts(W, 0), gen(W, 0);
	std::vector<bool> confirming(W, false);
	int crashes = 0; bool capped = false; int internalError = 0;
	auto start = [&](int i, bool resume, bool alone) {
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p == 0) {
			me = &sh[i]; myIndex = i;
			childSetup(i);
			if (alone) { // confirm a suspected hang
				path.assign(me->choice, me->choice + me->n); W = 1; replaying = false;
				int n = me->n; (void)n;
				if (s->setup) s->setup();
				runOnce(s); _exit(0);
			}
			workerLoop(s, resume);
			// dump states
			std::string f = scratchRoot + fmt("/st.%d.%d", i, gen[i]);
			FILE* o = fopen(f.c_str(), "wb");
			if (o) {
				uint64_t a = states.size(), b = outcomes.size(), c = sampleTraces.size();
				fwrite(&a, 8, 1, o); fwrite(&b, 8, 1, o); fwrite(&c, 8, 1, o);
				for (uint64_t h : states) fwrite(&h, 8, 1, o);
				for (uint64_t h : outcomes) fwrite(&h, 8, 1, o);
				for (auto& t : sampleTraces) { uint64_t l = t.size(); fwrite(&l, 8, 1, o); fwrite(t.data(), 1, l, o); }
				fclose(o);
			}
			_exit(0);
		}
		pid[i] = p; lastT[i] = now(); lastBeat[i] = sh[i].beat;
	};
	for (int i = 0; i < W; i++) start(i, false, false);
	int live = W;
	while (live > 0) {
		usleep(2000);
		if (!ss->stop && now() - t0 > budget) { ss->stop = 1; capped = true; }
		for (int i = 0; i < W; i++) {
			if (!pid[i]) continue;
			int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
			if (r == pid[i]) {
				bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
				if (confirming[i]) {
					confirming[i] = false;
					if (!ok) { // crashed when alone
						me = &sh[i]; std::string sig = std::string("crash:") + (sh[i].label[0] ? sh[i].label : s->name);
						record(sig.c_str(), sh[i].crash[0] ? sh[i].crash : "abnormal end");
					}
					gen[i]++; start(i, true, false); continue;
				}
				if (ok && sh[i].done) { pid[i] = 0; live--; continue; }
				if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { internalError = 77; pid[i] = 0; live--; ss->stop = 1; continue; }
				// crash of the implementation (or the harness) in this execution
				crashes++;
				me = &sh[i];
				std::string sig = std::string("crash:") + (sh[i].label[0] ? sh[i].label : s->name);
				std::string msg = sh[i].crash[0] ? sh[i].crash : fmt("process ended with status 0x%x", st);
				record(sig.c_str(), msg.c_str());
				if (crashes > 200 || ss->stop) { pid[i] = 0; live--; if (crashes > 200) { ss->stop = 1; capped = true; } continue; }
				gen[i]++; start(i, true, false);
				continue;
			}
			if (sh[i].beat != lastBeat[i]) { lastBeat[i] = sh[i].beat; lastT[i] = now(); }
			else if (now() - lastT[i] > HANG_S) {
				kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
				if (!confirming[i]) { confirming[i] = true; start(i, false, true); }
				else {
					confirming[i] = false; me = &sh[i];
					std::string sig = std::string("hang:") + (sh[i].label[0] ? sh[i].label : s->name);
					record(sig.c_str(), "no progress, twice"); gen[i]++;
					crashes += 60;
					if (crashes > 50) { pid[i] = 0; live--; ss->stop = 1; capped = true; }
					else start(i, true, false);
				}
			}
		}
		// enough distinct violations seen: no need to continue a hopeless run
		if (ss->nviol >= 24 && !ss->stop) ss->stop = 1;
		if (ss->stop) capped = true;
	}
	Totals t;
	for (int i = 0; i < W; i++) { t.execs += sh[i].execs; t.pruned += sh[i].pruned; t.steps += sh[i].steps; }
	std::unordered_set<uint64_t> S, O; std::vector<std::string> samples;
	for (int i = 0; i < W; i++) for (int g = 0; g <= gen[i]; g++) {
		std::string f = scratchRoot + fmt("/st.%d.%d", i, g);
		FILE* o = fopen(f.c_str(), "rb"); if (!o) continue;
		uint64_t a, b, c; 
		if (fread(&a, 8, 1, o) == 1 && fread(&b, 8, 1, o) == 1 && fread(&c, 8, 1, o) == 1) {
			uint64_t h;
			while (a-- && fread(&h, 8, 1, o) == 1) S.insert(h);
			while (b-- && fread(&h, 8, 1, o) == 1) O.insert(h);
			while (c-- && fread(&h, 8, 1, o) == 1) { std::string x(h, 0); if (fread(&x[0], 1, h, o) == h) samples.push_back(x); }
		}
		fclose(o); unlink(f.c_str());
	}
	std::sort(samples.begin(), samples.end());
	double wall = now() - t0;
	printf("  [%s/%s] executions=%llu aborted=%llu steps=%llu states=%zu outcomes=%zu violations=%d%s %.1fs\n", s->prop, s->name,
		(unsigned long long)t.execs, (unsigned long long)t.pruned, (unsigned long long)t.steps, S.size(), O.size(), (int)ss->nviol,
		capped ? " CAPPED" : "", wall);
	std::string j = fmt("{\"suite\":\"%s\",\"what\":\"%s\",\"executions\":%llu,\"aborted\":%llu,\"transitions\":%llu,\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,\"internal_error\":%d,\"wall_s\":%.2f,\"samples\":[",
		s->name, jsonEsc(s->what).c_str(), (unsigned long long)t.execs, (unsigned long long)t.pruned, (unsigned long long)t.steps, S.size(), O.size(), capped ? "true" : "false", internalError, wall);
	for (size_t i = 0; i < samples.size() && i < 3; i++) { if (i) j += ","; std::string x = samples[i].substr(0, 1500); j += "\"" + jsonEsc(x) + "\""; }
	j += "],\"violations\":[";
	int nv = ss->nviol < MAXV ? ss->nviol : MAXV;
	for (int i = 0; i < nv; i++) {
		Violation& v = ss->v[i]; if (!v.sig[0]) continue;
		if (i) j += ",";
		j += "{\"sig\":\"" + jsonEsc(v.sig) + "\",\"msg\":\"" + jsonEsc(v.msg) + "\",\"count\":" + std::to_string(v.count) + ",\"trace\":\"" + jsonEsc(v.trace) + "\",\"choices\":[";
		for (int k = 0; k < v.n; k++) { if (k) j += ","; j += std::to_string(v.choice[k]); }
		j += "]}";
	}
	j += "]}";
	if (!resultJson.empty()) resultJson += ",\n";
	resultJson += j;
	munmap(sh, sz); munmap(ss, sizeof(SuiteShared));
}

BfsResult bfs(int nOps, const std::function<bool(const std::vector<int>&, std::string&)>& run, size_t maxStates,
	const std::function<std::string(int)>& opName, int maxDepth) {
	BfsResult r; std::unordered_set<std::string> seen; std::deque<std::vector<int>> q;
	std::string c;
	auto setTrace = [&](const std::vector<int>& h, size_t keep) {
		me->trace[keep] = 0;
		for (int o : h) note("%s", opName ? opName(o).c_str() : std::to_string(o).c_str());
	};
	size_t keep = strlen(me->trace);
	setTrace({}, keep);
	if (!run({}, c)) return r;
	seen.insert(c); state(hashStr(c)); q.push_back({});
	while (!q.empty()) {
		std::vector<int> h = q.front(); q.pop_front();
		if ((int)h.size() > r.depth) r.depth = (int)h.size();
		if ((int)h.size() >= maxDepth) { r.complete = false; continue; }
		for (int o = 0; o < nOps; o++) {
			h.push_back(o); beat();
			setTrace(h, keep);
			c.clear();
			if (run(h, c)) {
				r.transitions++; step();
				if (seen.insert(c).second) {
					state(hashStr(c));
					if (seen.size() < maxStates) q.push_back(h); else r.complete = false;
				}
			}
			h.pop_back();
		}
	}
	r.states = seen.size();
	me->trace[keep] = 0; note("states=%zu transitions=%zu depth=%d", r.states, r.transitions, r.depth);
	if (!r.complete) note("CAPPED");
	return r;
}

}  // namespace mc

using namespace mc;
int main(int argc, char** argv) {
	std::string prop, out, replay, only; int workers = 8; double budget = 600; 
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = val(); else if (a == "--out") out = val(); else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--budget") budget = atof(val().c_str()); else if (a == "--thorough") isThorough = true;
		else if (a == "--replay") replay = val(); else if (a == "--suite") only = val();
		else if (a == "--list") { for (Suite* s = suites; s; s = s->next) printf("%s %s: %s\n", s->prop, s->name, s->what); return 0; }
	}
	signal(SIGPIPE, SIG_IGN);
	const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
	char tmpl[128]; snprintf(tmpl, sizeof tmpl, "%s/mcv.XXXXXX", base);
	if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	scratchRoot = tmpl;
	if (!replay.empty()) {  // replay file: suite name, then choices
		pid_t p = fork();
		if (p == 0) {
			static char line[1 << 16]; FILE* f = fopen(replay.c_str(), "r"); std::string sname;
			std::vector<uint16_t> ch;
			while (f && fgets(line, sizeof line, f)) {
				if (!strncmp(line, "suite ", 6)) { sname = line + 6; while (!sname.empty() && sname.back() <= ' ') sname.pop_back(); }
				if (!strncmp(line, "tier thorough", 13)) isThorough = true;
				if (!strncmp(line, "choices", 7)) { char* q = line + 7; char* e; for (;;) { long v = strtol(q, &e, 10); if (e == q) break; ch.push_back((uint16_t)v); q = e; } }
			}
			if (f) fclose(f);
			me = &localShared; ss = (SuiteShared*)calloc(1, sizeof(SuiteShared));
			W = 1; keepStderr = true; childSetup(0); replaying = true;
			for (Suite* s = suites; s; s = s->next) if (sname == s->name && (prop.empty() || prop == s->prop)) {
				if (s->setup) s->setup();
				// twice: the same schedule must give the same observation
				for (int k = 0; k < 2; k++) { path = ch; runOnce(s); printf("run %d: %d violation(s); trace: %s\n", k + 1, ss->nviol, me->trace); }
				fflush(stdout); _exit(ss->nviol ? 1 : 0);
			}
			fprintf(stderr, "no such suite %s\n", sname.c_str()); _exit(2);
		}
		int st; waitpid(p, &st, 0); rmTree(scratchRoot);
		return WIFEXITED(st) ? (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98 ? 1 : WEXITSTATUS(st)) : 1;
	}
	int ran = 0; double tEnd = now() + budget;
	std::vector<Suite*> todo;
	for (Suite* s = suites; s; s = s->next) if (prop == s->prop && (only.empty() || only == s->name)) todo.push_back(s);
	for (Suite* s : todo) { exploreSuite(s, workers, std::max(5.0, tEnd - now())); ran++; }
	if (!out.empty()) {
		FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; }
		fprintf(f, "[%s]\n", resultJson.c_str()); fclose(f);
	}
	rmTree(scratchRoot);
	if (!ran) { fprintf(stderr, "no suite for %s\n", prop.c_str()); return 2; }
	return 0;
}
namespace mc {
// Depth first exploration inside the current process, results discarded: used
// by harnesses to learn something about the system before the real run.
void exploreInline(void (*body)(), long maxExecs) {
	Shared* saveMe = me; SuiteShared* saveSs = ss; int sw = W, sd = splitDepth; auto sp = path; bool sr = replaying;
	static Shared tmp; static SuiteShared tmpS; me = &tmp; ss = &tmpS; W = 1; splitDepth = 0; path.clear(); replaying = false;
	Suite s = { "", "inline", body, 0, "", nullptr, nullptr };
	auto st = states, oc = outcomes; auto rh = reportedHere();
	for (long i = 0; i < maxExecs; i++) { runOnce(&s); saveMe->beat = saveMe->beat + 1; if (!advance()) break; }
	states = st; outcomes = oc; reportedHere() = rh; sampleTraces.clear(); nextSample = 1;
	me = saveMe; ss = saveSs; W = sw; splitDepth = sd; path = sp; replaying = sr;
}
}
