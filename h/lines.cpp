// FLAVOR: asan
// PROPS: C29 C30
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include "textfile.h"
#include <string.h>
#include <algorithm>
typedef std::string S; typedef std::vector<S> Lines; typedef std::vector<std::pair<S, S>> Doc; typedef std::vector<Doc> Docs;
struct Exact { char* p; size_t n; Exact(size_t n, int fill) : p((char*)malloc(n ? n : 1)), n(n) { memset(p, fill, n); } ~Exact() { free(p); } };
static S path() { return env::scratch() + "/d.txt"; }
// ---- C29 -----------------------------------------------------------------------------------
struct T { Lines got; size_t len; int limit; }; static T* cur;
static void onLine(const char* l, void* st) { MC_CHECK(st == cur, "text:state", "another state"); cur->got.push_back(l); MC_CHECK(cur->limit < 0 || (int)cur->got.size() <= cur->limit, "text:limit", "line %zu with a limit of %d", cur->got.size(), cur->limit); }
static Lines split(const S& s) { Lines r; S c; for (char x : s + "\n") if (x == '\n' || x == '\r') { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; return r; }
// Room the longest line and its line ending take.
static size_t need(const S& s) { size_t w = 1, n = 0; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && s[i] != '\r' && s[i] != '\n') n++; else { w = std::max(w, n + (i + 1 < s.size() && s[i] == '\r' && s[i + 1] == '\n' ? 2 : 1)); n = 0; } } return w; }
static Lines run(size_t len, int limit, bool noLimitCall = false) { T t; t.limit = limit; cur = &t; Exact b(len, 'Z'); mc::step(); mc::label("text:iterate"); if (noLimitCall) fiftyoneDegreesTextFileIterate(path().c_str(), b.p, (int)len, &t, onLine); else fiftyoneDegreesTextFileIterateWithLimit(path().c_str(), b.p, (int)len, limit, &t, onLine); MC_CHECK(env::openFiles() == 0, "text:open", "the file is still open"); return t.got; }
static S show(const Lines& l) { S r; for (auto& x : l) r += mc::quoted(x) + " "; return r; }
static void textFile(const S& s) {
	env::writeFile(path(), s); Lines w = split(s); size_t n = need(s);
	for (size_t len = 0; len <= s.size() + 3 || len <= n; len++) {
		if (len < n) { Lines g = run(len, -1); for (auto& x : g) MC_CHECK(x.size() < std::max(len, (size_t)1) && s.find(x) != S::npos, "text:small-buffer", "buffer %zu: %s is not in the file", len, mc::quoted(x).c_str()); continue; }
		Lines g = run(len, -1, len & 1); MC_CHECK(g == w, "text:lines", "%s with a buffer of %zu gives %s", mc::quoted(s).c_str(), len, show(g).c_str());
		for (int limit = 0; limit <= (int)w.size() + 1; limit++) { Lines h = run(len, limit), v(w.begin(), w.begin() + std::min((int)w.size(), limit)); MC_CHECK(h == v, "text:limit", "%s with a buffer of %zu and a limit of %d gives %s", mc::quoted(s).c_str(), len, limit, show(h).c_str()); }
	}
}
MC_SUITE(C29, lines, 3, "every file of up to 8 (thorough 10) characters over a letter, LF and CR, with every buffer size from none to larger than the file and every limit") { static const char A[] = "a\n\r"; int n = mc::choose(mc::tier(9, 11)); S s; for (int i = 0; i < n; i++) s += A[mc::choose(3)]; for (auto& c : s) if (c == 'a') c = (char)('a' + (&c - &s[0])); textFile(s); mc::outcome(mc::fmt("%zu", split(s).size())); env::checkBalanced("text"); }
MC_SUITE(C29, records, 3, "every file of up to 4 (thorough 5) lines of 0, 1, 3 or 8 characters, each ended by LF or CRLF, with and without a final line end, all buffer sizes and limits") { int n = mc::choose(mc::tier(5, 6)); S s; static const int L[] = { 0, 1, 3, 8 }; for (int i = 0; i < n; i++) { int l = L[mc::choose(4)]; bool crlf = mc::flip(); for (int k = 0; k < l; k++) s += (char)('a' + (i * 8 + k) % 26); if (i + 1 < n || mc::flip()) s += crlf ? "\r\n" : "\n"; } textFile(s); mc::outcome(mc::fmt("%zu", split(s).size())); env::checkBalanced("text"); }
MC_SUITE(C29, large, 2, "files larger than the stream's own buffer with lines of every length around a set of buffer sizes") { size_t len = 16 << mc::choose(4); int base = mc::choose(12); S s; int i = 0; while (s.size() < 3 * 4096 + 7) { S l((i++ * 7 + base) % (len - 2) + 1, (char)('a' + i % 26)); s += l + (i % 3 ? "\n" : "\r\n"); } if (mc::flip()) s += "end"; env::writeFile(path(), s); Lines w = split(s), g = run(len, -1); MC_CHECK(g == w, "text:lines", "%zu lines of %zu", g.size(), w.size()); int lim = (int)w.size() / 2; g = run(len, lim); w.resize(lim); MC_CHECK(g == w, "text:limit", "%zu lines of %zu", g.size(), w.size()); mc::outcome("ok"); env::checkBalanced("text"); }
MC_SUITE(C29, device, 2, "a missing file, a directory, and every open and read failure at every point for every file of up to three lines") { env::cleanScratch(); int n = mc::choose(4); S s; for (int i = 0; i < n; i++) s += S(1 + i * 2, (char)('a' + i)) + (mc::flip() ? "\n" : "\r\n"); if (n) env::writeFile(path(), s); else if (mc::flip()) env::makeDir(path()); env::ioFaults = 1; env::unbuffered = true; env::faultMask = env::F_ALL & ~env::F_SHORT; Lines w = split(s); size_t len = need(s) + mc::choose(3) * 3; Lines g = run(len, -1); env::ioFaults = 0; if (!env::faultsFired) MC_CHECK(g == w, "text:lines", "%zu lines of %zu", g.size(), w.size()); else for (size_t i = 0; i < g.size(); i++) MC_CHECK(i < w.size() && (i + 1 < g.size() ? g[i] == w[i] : w[i].compare(0, g[i].size(), g[i]) == 0), "text:failed-read", "line %zu is %s", i, mc::quoted(g[i]).c_str()); mc::outcome(mc::fmt("%zu", g.size())); env::checkBalanced("text"); }
// ---- C30 -----------------------------------------------------------------------------------
struct Y { Docs got; fiftyoneDegreesKeyValuePair* pairs; int size, limit; bool fill; std::vector<size_t> kl, vl; }; static Y* cy;
static void refill(Y& y) { for (int i = 0; i < y.size; i++) { memset(y.pairs[i].key, 'Z', y.kl[i]); memset(y.pairs[i].value, 'Z', y.vl[i]); } }
static void onDoc(fiftyoneDegreesKeyValuePair* p, uint16_t n, void* st) {
	MC_CHECK(st == cy && p == cy->pairs, "yaml:state", "another state or other pairs"); MC_CHECK((int)n <= cy->size && n > 0, "yaml:count", "%u pairs of %d", n, cy->size); Doc d;
	for (int i = 0; i < n; i++) { size_t k = strnlen(p[i].key, cy->kl[i]), v = strnlen(p[i].value, cy->vl[i]); MC_CHECK(k < cy->kl[i] && v < cy->vl[i], "yaml:terminated", "pair %d is not terminated", i); d.push_back({ p[i].key, p[i].value }); MC_CHECK(d.back().first.find('Z') == S::npos && d.back().second.find('Z') == S::npos, "yaml:stale", "pair %d has characters which are not in the file", i); }
	cy->got.push_back(d); MC_CHECK(cy->limit < 0 || (int)cy->got.size() <= cy->limit, "yaml:limit", "document %zu with a limit of %d", cy->got.size(), cy->limit); refill(*cy);
}
static Docs yaml(size_t buf, int size, size_t kl, size_t vl, int limit, int& status) {
	Y y; y.size = size; y.limit = limit; cy = &y; y.pairs = (fiftyoneDegreesKeyValuePair*)malloc(sizeof(fiftyoneDegreesKeyValuePair) * size); std::vector<Exact*> keep; for (int i = 0; i < size; i++) { auto k = new Exact(kl, 'Z'), v = new Exact(vl, 'Z'); keep.push_back(k); keep.push_back(v); y.pairs[i].key = k->p; y.pairs[i].keyLength = kl; y.pairs[i].value = v->p; y.pairs[i].valueLength = vl; y.kl.push_back(kl); y.vl.push_back(vl); }
	{ Exact b(buf, 'Z'); mc::step(); mc::label("yaml:iterate"); status = limit == -1 && (buf & 1) ? fiftyoneDegreesYamlFileIterate(path().c_str(), b.p, buf, y.pairs, (uint16_t)size, &y, onDoc) : fiftyoneDegreesYamlFileIterateWithLimit(path().c_str(), b.p, buf, y.pairs, (uint16_t)size, limit, &y, onDoc); } MC_CHECK(env::openFiles() == 0, "yaml:open", "the file is still open"); for (auto k : keep) delete k; free(y.pairs); return y.got;
}
static S show(const Docs& d) { S r; for (auto& x : d) { r += "["; for (auto& p : x) r += mc::quoted(p.first) + "=" + mc::quoted(p.second) + " "; r += "] "; } return r; }
static S unquote(S v) { if (!v.empty() && v[0] == '\'') { v.erase(0, 1); if (!v.empty() && v.back() == '\'') v.pop_back(); } return v; }
// The text of the documents in one of the layouts.
static S text(const std::vector<Doc>& docs, bool lead, const S& eol, int end) { S s; for (size_t i = 0; i < docs.size(); i++) { if (i || lead) s += "---" + eol; for (auto& p : docs[i]) s += p.first + ": " + p.second + eol; } if (end == 0) { if (!s.empty()) s.erase(s.size() - eol.size()); } else if (end == 2) s += "..."; else if (end == 3) s += "..." + eol; else if (end == 4) s += "..." + eol + "z: y" + eol; return s; }
static void documents(const Docs& docs, const S& s, bool full) {
	Docs all; size_t most = 0; for (auto& d : docs) { Doc e; for (auto& p : d) e.push_back({ p.first, unquote(p.second) }); most = std::max(most, d.size()); if (!e.empty()) all.push_back(e); } env::writeFile(path(), s); int st; size_t ml = 1; for (auto& d : docs) for (auto& p : d) ml = std::max(ml, std::max(p.first.size(), p.second.size()));
	static const size_t B[] = { 1, 2, 3, 4, 7, 64 };
	for (size_t b : B) for (int size = 1; size <= (int)most + 1; size++) for (size_t len : { ml + 1, (size_t)2, (size_t)1 }) for (int limit = -1; limit <= (int)all.size(); limit++) {
		if ((b > 3 && b < 64) && (limit != -1 || len != ml + 1)) continue; if (!full && (b == 2 || b == 4 || limit > -1 || (len == 1 && b != 3))) continue; Docs g = yaml(b, size, len, len, limit, st); Docs w = all; if (limit >= 0 && (int)w.size() > limit) w.resize(limit); S why = mc::fmt("%s (buffer %zu, %d pairs of %zu, limit %d) gives %s", mc::quoted(s).c_str(), b, size, len, limit, show(g).c_str());
		if (size >= (int)most && len == ml + 1) { MC_CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "yaml:status", "%d for %s", st, why.c_str()); MC_CHECK(g == w, "yaml:documents", "%s", why.c_str()); continue; }
		if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) MC_CHECK(g.size() == w.size(), "yaml:cut", "%s", why.c_str()); for (size_t i = 0; i < g.size(); i++) { MC_CHECK(i < w.size() && g[i].size() == std::min(w[i].size(), (size_t)size), "yaml:cut-pairs", "%s", why.c_str()); for (size_t k = 0; k < g[i].size(); k++) for (int h = 0; h < 2; h++) { const S &x = h ? g[i][k].second : g[i][k].first, &y = h ? w[i][k].second : w[i][k].first; MC_CHECK(!y.compare(0, x.size(), x) && (x.size() == y.size() || x.size() + 1 == len || x.size() + 2 == len), "yaml:cut-text", "%s", why.c_str()); } }
	}
}
static const char* KEYS[] = { "a", "b.c", ".d", "..e", "header.x" }; static const char* VALS[] = { "", "1", "a.b", "'q'", "it's", "x:y", "...", "---", "'", "''", "'a'b'", "-", "v w", "w'", "v 'w'" };
MC_SUITE(C30, layout, 3, "every list of up to 3 documents of 0-2 pairs (thorough 0-3) in every layout: with and without a first marker, LF, CRLF and blank lines, every kind of end; every buffer size from a set down to one character, every number of pairs and length, every limit") {
	int n = mc::choose(4); Docs d; int k = 0; for (int i = 0; i < n; i++) { Doc e; int c = mc::choose(mc::tier(3, 4)); for (int j = 0; j < c; j++, k++) e.push_back({ KEYS[k % 5], k % 3 == 1 ? "'v" + std::to_string(k) + "'" : k % 3 ? "w" : "x.y" }); d.push_back(e); } bool lead = mc::flip(); if (!lead && n && d[0].empty()) mc::prune(); static const S E[] = { "\n", "\r\n", "\n\n" }; S eol = E[mc::choose(3)]; documents(d, text(d, lead, eol, mc::choose(5)), true); mc::outcome(mc::fmt("%d", n)); env::checkBalanced("yaml");
}
MC_SUITE(C30, pairs, 3, "every document of up to 2 (thorough 3) pairs from five keys and fifteen values with quotes, colons, dots, dashes and spaces, followed by a second document or not") {
	int n = 1 + mc::choose(mc::tier(2, 3)); Docs d(1); for (int i = 0; i < n; i++) { S k = KEYS[mc::choose(5)], v = VALS[mc::choose(15)]; d[0].push_back({ k, v }); } if (mc::flip()) d.push_back({ { "z", "2" } }); documents(d, text(d, mc::flip(), mc::flip() ? "\n" : "\r\n", mc::choose(3)), false); mc::outcome(mc::fmt("%d", n)); env::checkBalanced("yaml");
}
MC_SUITE(C30, any, 3, "every sequence of up to 6 (thorough 7) of markers, line ends, keys, colons, quotes, spaces, dashes and dots, for three pair counts; the documents do not depend on the buffer size") {
	static const char* TK[] = { "---", "...", "\n", "\r\n", "a", "k: v", ":", " ", "'", "-", "." }; int n = mc::choose(mc::tier(6, 7)); S s; for (int i = 0; i < n; i++) s += TK[mc::choose(11)]; env::writeFile(path(), s); int st;
	for (int size = 1; size <= 2; size++) for (size_t len : { 4, 2 }) { Docs first; for (size_t b : { 64, 1, 2, 5 }) { Docs g = yaml(b, size, len, len, -1, st); MC_CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS || size < 9, "yaml:status", "%d", st); if (b == 64) first = g; else MC_CHECK(g == first, "yaml:buffer", "%s gives %s with a buffer of %zu and %s with a larger one", mc::quoted(s).c_str(), show(g).c_str(), b, show(first).c_str()); } } mc::outcome("ok"); env::checkBalanced("yaml");
}
MC_SUITE(C30, device, 2, "a missing file, a directory and every open and read failure at every point of files of up to two documents") {
	env::cleanScratch(); int n = mc::choose(3); Docs d; for (int i = 0; i < n; i++) d.push_back({ { "a", "1" }, { "b", "'2'" } }); S s = text(d, mc::flip(), "\n", mc::choose(3)); bool exists = n > 0; if (exists) env::writeFile(path(), s); else if (mc::flip()) env::makeDir(path()); env::ioFaults = 1; env::unbuffered = true; env::faultMask = env::F_ALL & ~env::F_SHORT; int st; static const size_t B[] = { 1, 3, 8, 100 }; Docs g = yaml(B[mc::choose(4)], 2, 8, 8, -1, st); env::ioFaults = 0; Docs all; for (auto& x : d) { Doc e; for (auto& p : x) e.push_back({ p.first, unquote(p.second) }); all.push_back(e); }
	MC_CHECK(g.size() <= all.size() && std::equal(g.begin(), g.end(), all.begin()), "yaml:failed-read", "%s gives %s", mc::quoted(s).c_str(), show(g).c_str()); if (g != all || !exists) MC_CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "yaml:failure-status", "a failure is reported as success"); if (!env::faultsFired && exists) MC_CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && g == all, "yaml:documents", "%d %s", st, show(g).c_str()); mc::outcome(mc::fmt("%d", st)); env::checkBalanced("yaml");
}
