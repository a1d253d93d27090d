// FLAVOR: asan
// PROPS: C26 C27 C28
// CXX: yes
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include "Exceptions.hpp"
#include <string.h>
#include <limits.h>
#include <stddef.h>
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
typedef std::string S;
struct Exact { char* p; Exact(const S& s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static S low(S s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static S pick(const char* a, int max) { int n = mc::choose(max + 1), k = (int)strlen(a); S s; for (int i = 0; i < n; i++) s += a[mc::choose(k)]; return s; }
// ---- C26 -----------------------------------------------------------------------------------
static void compare(const S& a, const S& b) {
	Exact x(a), y(b); S la = low(a), lb = low(b); mc::label("string:compare"); mc::step(); int r = fiftyoneDegreesStringCompare(x.p, y.p), q = fiftyoneDegreesStringCompare(y.p, x.p);
	MC_CHECK((r == 0) == (la == lb) && sgn(r) == -sgn(q), "string:compare", "%s with %s is %d, the other way %d", mc::quoted(a).c_str(), mc::quoted(b).c_str(), r, q); bool ascii = true; for (char c : a + b) ascii &= c > 0; if (ascii) MC_CHECK(sgn(r) == sgn(la.compare(lb)), "string:order", "%s with %s is %d", mc::quoted(a).c_str(), mc::quoted(b).c_str(), r);
	for (size_t l = 0; l <= std::max(a.size(), b.size()) + 2; l++) { mc::label("string:compare-length"); mc::step(); r = fiftyoneDegreesStringCompareLength(x.p, y.p, l); S pa = la.substr(0, l), pb = lb.substr(0, l); MC_CHECK((r == 0) == (pa == pb), "string:compare-length", "%zu characters of %s and %s compare as %d", l, mc::quoted(a).c_str(), mc::quoted(b).c_str(), r); if (ascii) MC_CHECK(sgn(r) == sgn(pa.compare(pb)), "string:order-length", "%zu characters of %s and %s compare as %d", l, mc::quoted(a).c_str(), mc::quoted(b).c_str(), r); }
}
static void search(const S& a, const S& b) { if (b.empty()) return; Exact x(a), y(b); mc::label("string:search"); mc::step(); char* r = fiftyoneDegreesStringSubString(x.p, y.p); size_t w = low(a).find(low(b)); MC_CHECK(w == S::npos ? r == nullptr : r == x.p + w, "string:search", "%s in %s is found at %ld, not %ld", mc::quoted(b).c_str(), mc::quoted(a).c_str(), r ? (long)(r - x.p) : -1L, w == S::npos ? -1L : (long)w); }
MC_SUITE(C26, compare, 2, "every pair of strings of up to 5 (thorough 6) characters over a, A, b, B, every limit up to past both ends") { S a = pick("aAbB", mc::tier(5, 6)), b = pick("aAbB", mc::tier(5, 6)); compare(a, b); mc::outcome(mc::fmt("%d", sgn(low(a).compare(low(b))))); env::checkBalanced("string"); }
MC_SUITE(C26, bytes, 2, "every pair of byte values, alone, after and before a common letter, and against nothing; every triple of byte values from a set for transitivity") {
	int c = 1 + mc::choose(255); for (int d = 1; d < 256; d++) { S a(1, (char)c), b(1, (char)d); compare(a, b); compare("x" + a, "X" + b); compare(a + "y", b + "Y"); compare(a + "z", b); search(a, b); search("q" + a, b); search(b + a + b, a + b); } compare(S(1, (char)c), "");
	static const unsigned char B[] = { 1, ' ', '-', '0', '@', 'A', 'M', 'Z', '[', '_', '`', 'a', 'm', 'z', '{', 127, 128, 192, 224, 255 }; auto cmp = [](int x, int y) { char p[2] = { (char)x, 0 }, q[2] = { (char)y, 0 }; return fiftyoneDegreesStringCompare(p, q); };
	for (int d : B) for (int e : B) if (cmp(c, d) <= 0 && cmp(d, e) <= 0) MC_CHECK(cmp(c, e) <= 0, "string:transitive", "%d %d %d", c, d, e); mc::outcome("ok"); env::checkBalanced("string");
}
MC_SUITE(C26, search, 2, "every text of up to 8 (thorough 10) characters over a, B, b and every pattern of 1 to 4 (thorough 5)") { S a = pick("aBb", mc::tier(8, 10)), b = pick("aAb", mc::tier(4, 5)); search(a, b); mc::outcome(low(a).find(low(b)) == S::npos ? "no" : "yes"); env::checkBalanced("string"); }
// ---- C27 -----------------------------------------------------------------------------------
static float native(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static void number(uint32_t u) {
	mc::step();	float f = native(u); fiftyoneDegreesFloatInternal s = fiftyoneDegreesNativeToFloat(f); uint32_t w; memcpy(&w, s.value, 4); float b = fiftyoneDegreesFloatToNative(s); if (f != f) { MC_CHECK(b != b, "float:nan", "%08x comes back as %g", u, b); return; }
	if (isinf(f)) { MC_CHECK(isinf(b), "float:infinity", "%08x comes back as %g", u, b); return; }
	MC_CHECK(b == f, "float:round-trip", "%08x (%g) comes back as %g", u, f, b); if (f != 0) MC_CHECK(w == u, "float:layout", "%08x (%g) is stored as %08x", u, f, w); else MC_CHECK((w & 0x7fffffff) == 0, "float:layout", "zero is stored as %08x", w);
	memcpy(s.value, &u, 4); b = fiftyoneDegreesFloatToNative(s); MC_CHECK(b == f, "float:read", "stored %08x (%g) is read as %g", u, f, b);
}
MC_SUITE(C27, values, 1, "quick: every sign and exponent with 786432 mantissas at both ends of every 32 and every mantissa of at most two set or clear bits; thorough: all 4294967296 values") {
	int hi = mc::choose(512); uint32_t base = (uint32_t)hi << 23; mc::label("float"); long n = 0;
	if (mc::thorough()) { int part = mc::choose(8); for (uint32_t m = part << 20; m < (uint32_t)(part + 1) << 20; m++) number(base | m), n++; }
	else { for (uint32_t i = 0; i < 262144; i++) for (uint32_t m : { i << 5, i << 5 | 1u, i << 5 | 31u }) number(base | m), n++; for (int i = 0; i < 23; i++) for (int k = 0; k < 23; k++) { uint32_t m = 1u << i | 1u << k; number(base | m); number(base | (~m & 0x7fffff)); n += 2; } }
	mc::step(); mc::note("%ld values", n); mc::outcome(mc::fmt("%d", (hi & 255) == 255 ? 2 : (hi & 255) == 0));
}
MC_SUITE(C27, equal, 1, "every pair of values from all signs, a set of exponents and every mantissa of at most one set or clear bit, and all pairs differing in one bit") {
	std::vector<uint32_t> v; for (uint32_t e : { 0u, 1u, 2u, 64u, 126u, 127u, 128u, 254u }) for (uint32_t s = 0; s < 2; s++) { v.push_back(s << 31 | e << 23); for (int i = 0; i < 23; i += 3) { v.push_back(s << 31 | e << 23 | 1u << i); v.push_back(s << 31 | e << 23 | (~(1u << i) & 0x7fffff)); } } mc::label("float:equal");
	auto eq = [](uint32_t a, uint32_t b) { if (!(a << 1) && !(b << 1) && a != b) return; fiftyoneDegreesFloatInternal x, y; memcpy(x.value, &a, 4); memcpy(y.value, &b, 4); int r = fiftyoneDegreesFloatIsEqual(x, y), w = native(a) == native(b) ? 0 : 1; MC_CHECK(r == w, "float:equal", "%08x and %08x compare as %d", a, b, r); };
	uint32_t a = v[mc::choose((int)v.size())]; for (auto b : v) { mc::step(); eq(a, b); } for (int i = 0; i < 32; i++) { uint32_t b = a ^ 1u << i; if (native(b) == native(b)) eq(a, b); } mc::outcome("ok");
}
MC_SUITE(C27, coordinates, 1, "every pair of numbers from all signs, a set of exponents and mantissas of at most one set or clear bit as a stored coordinate: both read as what they are; every other stored type is an error") {
	std::vector<uint32_t> v; for (uint32_t e : { 0u, 1u, 64u, 127u, 128u, 254u }) for (uint32_t s = 0; s < 2; s++) { v.push_back(s << 31 | e << 23); for (int i = 0; i < 23; i += 2) { v.push_back(s << 31 | e << 23 | 1u << i); v.push_back(s << 31 | e << 23 | (~(1u << i) & 0x7fffff)); } } mc::label("coordinate");
	uint32_t a = v[mc::choose((int)v.size())]; fiftyoneDegreesCollectionItem it; memset(&it, 0, sizeof it); const int16_t size = 9;
 const size_t at = offsetof(fiftyoneDegreesString, trail.coordinate.lat), type = offsetof(fiftyoneDegreesString, value); std::vector<byte> mem(at + 8); it.data.ptr = mem.data(); it.data.used = (uint32_t)mem.size(); memcpy(mem.data(), &size, 2);
	for (auto b : v) { mc::step(); mem[type] = FIFTYONE_DEGREES_STRING_COORDINATE; memcpy(&mem[at], &a, 4); memcpy(&mem[at + 4], &b, 4); fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; auto c = fiftyoneDegreesIpiGetCoordinate(&it, &e);
		MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == FIFTYONE_DEGREES_STATUS_SUCCESS, "coordinate:status", "status %d for a coordinate", (int)e.status); MC_CHECK(c.lat == native(a), "coordinate:latitude", "%08x is read as %g", a, c.lat); MC_CHECK(c.lon == native(b), "coordinate:longitude", "%08x is read as %g", b, c.lon); }
	for (int t = 0; t < 256; t++) if (t != FIFTYONE_DEGREES_STRING_COORDINATE) { mem[type] = (byte)t; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; fiftyoneDegreesIpiGetCoordinate(&it, &e); MC_CHECK(e.status == FIFTYONE_DEGREES_STATUS_CORRUPT_DATA, "coordinate:type", "type %d gives status %d", t, (int)e.status); }
	mc::outcome("ok"); env::checkBalanced("coordinate");
}
// ---- C28 -----------------------------------------------------------------------------------
static const S names[] = { "", "x", "/a/b c/data.dat", "%s", "%d%n%s%i", S(300, 'p'), S(5000, 'q'), "\xc3\xa9" };
static void message(const char* m, int code, const S* name) {
	MC_CHECK(m, "status:message", "no message for %d", code); S s = m; MC_CHECK(!s.empty(), "status:empty", "%d", code); S shown = name ? *name : "null"; S rest = s; size_t at = rest.find(shown); if (!shown.empty() && at != S::npos) rest.erase(at, shown.size()); MC_CHECK(rest.find('%') == S::npos, "status:placeholder", "the message for %d keeps a placeholder: %s", code, s.c_str()); char last = s.back(); MC_CHECK(last == '.' || s.find("http") != S::npos, "status:cut", "the message for %d is cut: %s", code, s.c_str());
}
static bool wantsFile(int c) { switch (c) { case FIFTYONE_DEGREES_STATUS_CORRUPT_DATA: case FIFTYONE_DEGREES_STATUS_INCORRECT_VERSION: case FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND: case FIFTYONE_DEGREES_STATUS_FILE_FAILURE: case FIFTYONE_DEGREES_STATUS_TOO_MANY_OPEN_FILES: case FIFTYONE_DEGREES_STATUS_REQ_PROP_NOT_PRESENT: case FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE: case FIFTYONE_DEGREES_STATUS_FILE_COPY_ERROR: case FIFTYONE_DEGREES_STATUS_FILE_WRITE_ERROR: case FIFTYONE_DEGREES_STATUS_FILE_PERMISSION_DENIED: case FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG: case FIFTYONE_DEGREES_STATUS_ENCODING_ERROR: return true; default: return false; } }
static const int codes[] = { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 99, 1000, INT_MAX, INT_MIN };
static const int NC = sizeof codes / sizeof *codes;
MC_SUITE(C28, status, 2, "every status code, its neighbours and extreme integers with every file name of a pool (none, empty, with placeholders, long), every allocation failing in turn") {
	int c = codes[mc::choose(NC)]; int ni = mc::choose(9); env::failAllocAt = mc::choose(4); const S* nm = ni < 8 ? &names[ni] : nullptr; { Exact f(nm ? *nm : ""); mc::label("status:message"); mc::step(); const char* m = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, nm ? f.p : nullptr);
	if (!m) MC_CHECK(env::faultsFired, "status:message", "no message for %d", c); else { message(m, c, nm); if (!env::faultsFired) { S s = m; if (wantsFile(c)) MC_CHECK(s.find(nm ? *nm : S("null")) != S::npos, "status:file-name", "the message for %d does not name the file: %s", c, m); static const int none[] = { FIFTYONE_DEGREES_STATUS_FILE_BUSY, FIFTYONE_DEGREES_STATUS_NOT_SET }; bool other = c < 0 || c > FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR || c == none[0] || c == none[1]; if (other) MC_CHECK(s.find(std::to_string(c)) != S::npos, "status:code", "the message does not give the code %d: %s", c, m); } fiftyoneDegreesFree((void*)m); } mc::outcome(m ? "message" : "none"); } env::failAllocAt = 0; env::checkBalanced("status");
}
MC_SUITE(C28, distinct, 1, "every pair of defined status codes: messages are distinct and stable, and messages held together stay as they were") {
	std::vector<const char*> m; mc::label("status:messages"); for (int c = 0; c <= FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR; c++) m.push_back(fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, "f")); for (size_t i = 0; i < m.size(); i++) for (size_t k = 0; k < i; k++) MC_CHECK(m[i] != m[k] && strcmp(m[i], m[k]), "status:distinct", "%zu and %zu: %s", k, i, m[i]); for (size_t i = 0; i < m.size(); i++) message(m[i], (int)i, new S("f")); for (auto x : m) fiftyoneDegreesFree((void*)x); mc::outcome("ok"); env::checkBalanced("status");
}
using namespace FiftyoneDegrees::Common;
MC_SUITE(C28, exception, 2, "every status code raised from every pool of source names and lines, every allocation failing in turn, in C and C++") {
	int c = codes[mc::choose(NC)]; fiftyoneDegreesException ex; fiftyoneDegreesException* exception = &ex; FIFTYONE_DEGREES_EXCEPTION_CLEAR; MC_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && !FIFTYONE_DEGREES_EXCEPTION_FAILED, "exception:clear", "a cleared exception has failed"); FIFTYONE_DEGREES_EXCEPTION_SET((fiftyoneDegreesStatusCode)c); int line = __LINE__;
	MC_CHECK(ex.status == (fiftyoneDegreesStatusCode)c && ex.line == line && S(ex.file) == __FILE__ && S(ex.func) == __func__, "exception:set", "the exception does not hold where it was raised"); MC_CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED == (c != FIFTYONE_DEGREES_STATUS_NOT_SET), "exception:failed", "%d", c);
	static const char* files[] = { "f.c", "", "/a/long path/%s/%n.c" }; static const int lines[] = { 1, 99, 123456, INT_MAX }; S file = files[mc::choose(3)], func = mc::flip() ? "fn" : S(2000, 'f'); ex.line = lines[mc::choose(4)]; env::failAllocAt = mc::choose(5); { Exact a(file), b(func); ex.file = a.p; ex.func = b.p; mc::label("exception:message"); mc::step();
	const char* m = fiftyoneDegreesExceptionGetMessage(&ex); bool fired = env::faultsFired; if (!m) MC_CHECK(fired, "exception:message", "no message"); else { S s = m; int k = env::failAllocAt; env::failAllocAt = 0; const char* st = fiftyoneDegreesStatusGetMessage(ex.status, nullptr); if (!fired) MC_CHECK(s.find(st) != S::npos, "exception:status", "%s is not in %s", st, m); MC_CHECK(s.find(file) != S::npos && s.find(func) != S::npos && s.find(std::to_string(ex.line)) != S::npos, "exception:source", "where it was raised is not in %s", m); fiftyoneDegreesFree((void*)st); fiftyoneDegreesFree((void*)m); env::failAllocAt = k; } env::failAllocAt = 0;
	if (c != FIFTYONE_DEGREES_STATUS_NOT_SET) { mc::label("exception:cpp"); try { if (mc::flip()) throw FatalException(&ex); throw StatusCodeException((fiftyoneDegreesStatusCode)c, "name"); } catch (StatusCodeException& e) { MC_CHECK(e.getCode() == (fiftyoneDegreesStatusCode)c, "exception:cpp-code", "%d instead of %d", (int)e.getCode(), c); MC_CHECK(S(e.what()).size() > 5, "exception:cpp-message", "%s", e.what()); StatusCodeException copy(e); MC_CHECK(copy.getCode() == e.getCode() && S(copy.what()) == e.what(), "exception:cpp-copy", "differs"); } } mc::outcome(m ? "message" : "none"); } env::checkBalanced("exception");
}
MC_SUITE(C28, exit, 2, "every status code asked to end the process if there is a failure (in a child of the harness), every allocation failing in turn") {
	int c = codes[mc::choose(NC)], k = mc::choose(4); fiftyoneDegreesException ex; memset(&ex, 0, sizeof ex); ex.status = (fiftyoneDegreesStatusCode)c; ex.file = "f.c"; ex.func = "fn"; ex.line = 12; S path = env::scratch() + "/err.txt"; mc::label("exception:exit"); mc::step(); fflush(nullptr); pid_t pid = fork();
	if (!pid) { int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); env::failAllocAt = k; fiftyoneDegreesExceptionCheckAndExit(&ex); _exit(200); }
	int st = 0; waitpid(pid, &st, 0); S err; { FILE* f = fopen(path.c_str(), "rb"); if (f) { char b[4096]; err.assign(b, fread(b, 1, sizeof b, f)); fclose(f); } } MC_CHECK(WIFEXITED(st), "exit:killed", "the process is killed for status %d", c);
	if (c == FIFTYONE_DEGREES_STATUS_NOT_SET) { MC_CHECK(WEXITSTATUS(st) == 200 && err.empty(), "exit:no-failure", "ends the process or writes a message without a failure: %s", err.c_str()); mc::outcome("carries on"); return; }
	MC_CHECK(WEXITSTATUS(st) == (c & 255), "exit:code", "the exit code is %d for status %d", WEXITSTATUS(st), c); if (!k) { const char* m = fiftyoneDegreesExceptionGetMessage(&ex); MC_CHECK(err.find(m) != S::npos, "exit:message", "%s is not in %s", m, err.c_str()); fiftyoneDegreesFree((void*)m); } mc::outcome(err.empty() ? "quiet" : "message"); env::checkBalanced("exit");
}
