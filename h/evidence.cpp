// FLAVOR: asan
// PROPS: C19 C20 C21
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <set>
#include <algorithm>
typedef std::string S; typedef fiftyoneDegreesEvidencePrefix P; typedef fiftyoneDegreesEvidenceKeyValuePair Pair; typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev; typedef fiftyoneDegreesException Ex;
static const P PX[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_IP_ADDRESSES, FIFTYONE_DEGREES_EVIDENCE_SERVER, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_IGNORE };
static S low(S s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
// A copy of s in memory of exactly its size, so that any access beyond is seen.
struct Exact { char* p; Exact(const S& s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
// ---- C19 -----------------------------------------------------------------------------------
MC_SUITE(C19, prefixes, 2, "every key made of a defined prefix cut at every length, with every single character replaced by every byte, and followed by nothing, one or several characters; and every key of up to 3 (thorough 4) characters over an alphabet of the prefixes' characters") {
	struct M { const char* s; P p; }; static const M maps[] = { { "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER }, { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE } };
	auto check = [&](const S& k) {
		const M* want = nullptr; for (auto& m : maps) if (k.size() > strlen(m.s) && !k.compare(0, strlen(m.s), m.s)) want = &m; Exact key(k); mc::step(); auto r = fiftyoneDegreesEvidenceMapPrefix(key.p);
		MC_CHECK((r != nullptr) == (want != nullptr), "evidence:prefix", "%s is %s", mc::quoted(k).c_str(), want ? "not recognised" : "taken for a prefixed key"); if (r) MC_CHECK(r->prefixEnum == want->p && r->prefixLength == strlen(want->s) && !strcmp(r->prefix, want->s), "evidence:prefix", "%s is taken for prefix %s", mc::quoted(k).c_str(), r->prefix); };
	if (mc::flip()) {
		const M& m = maps[mc::choose(4)]; mc::label("evidence:map"); auto s = fiftyoneDegreesEvidencePrefixString(m.p); MC_CHECK(s && !strcmp(s, m.s), "evidence:prefix-string", "%s", s); static const char* tails[] = { "", "x", ".", "header.x", " " };
		S p = m.s; for (auto t : tails) { for (size_t c = 0; c <= p.size(); c++) check(p.substr(0, c) + t); for (size_t i = 0; i < p.size(); i++) for (int b = 1; b < 256; b++) { S q = p; q[i] = (char)b; check(q + t); q = p; q.insert(i, 1, (char)b); check(q + t); } S u = p; for (auto& ch : u) ch = (char)toupper(ch); check(u + t); check(" " + p + t); }
		for (auto& a : maps) for (auto& b : maps) { check(S(a.s) + b.s + "z"); check(S(a.s).substr(0, 6) + b.s); }
	} else { static const char* A = "servhdquycoki.HX"; int n = mc::choose(mc::tier(4, 5)); S k; for (int i = 0; i < n; i++) k += A[mc::choose(16)]; check(k); }
	mc::outcome("ok");
}
struct Seen { const Pair* p; const char* f; const void *o, *v; P px; };
struct IterState { std::vector<Seen> seen; int stopAfter; };
static bool onPair(void* st, Pair* p) { auto s = (IterState*)st; s->seen.push_back({ p, p->field, p->originalValue, p->parsedValue, p->prefix }); return (int)s->seen.size() != s->stopAfter; }
MC_SUITE(C19, iterate, 3, "every evidence list of up to 3 (thorough 5) entries over the six prefixes with up to 2 pseudo entries, iterated for every combination of prefixes, stopping after every entry, additions beyond the capacity, and the list emptied and filled with other entries") {
	uint32_t cap = mc::choose(mc::tier(4, 6)); uint32_t n = mc::choose(cap + 1); bool pseudo = mc::flip(); uint32_t pn = pseudo ? mc::choose(3) : 0; mc::label("evidence:create"); Ev* e = fiftyoneDegreesEvidenceCreate(cap); MC_CHECK(e && e->count == 0 && e->capacity == cap && !e->pseudoEvidence, "evidence:create", "capacity %u count %u", e->capacity, e->count);
	Ev* q = pseudo ? fiftyoneDegreesEvidenceCreate(2) : nullptr; static char fields[8][4], values[8][4]; for (int i = 0; i < 8; i++) { snprintf(fields[i], 4, "f%d", i); snprintf(values[i], 4, "v%d", i / 2 * 2); } struct In { P p; int i; }; std::vector<In> in;
	for (uint32_t i = 0; i < n + pn; i++) { P p = PX[mc::choose(6)]; mc::note("%d", (int)p); mc::label("evidence:add"); Pair* r = fiftyoneDegreesEvidenceAddString(i < n ? e : q, p, fields[i], values[i]); Pair* at = i < n ? &e->items[i] : &q->items[i - n]; MC_CHECK(r == at && r->prefix == p && r->field == fields[i] && r->originalValue == values[i], "evidence:add", "the entry added is not what was given"); in.push_back({ p, (int)i }); mc::step(); }
	if (n == cap) { MC_CHECK(!fiftyoneDegreesEvidenceAddString(e, PX[0], "x", "y"), "evidence:capacity", "an entry was added beyond the capacity %u", cap); } MC_CHECK(e->count == n, "evidence:count", "%u entries, %u added", e->count, n); e->pseudoEvidence = q;
	mc::label("evidence:iterate");
	for (int m = 0; m < 64; m++) {
		int mask = (m & 31) | (m & 32 ? FIFTYONE_DEGREES_EVIDENCE_IGNORE : 0); std::vector<int> want; for (auto& x : in) if (mask & x.p) want.push_back(x.i);
		for (int stop = 1; stop <= (int)want.size() + 1; stop++) {
			IterState st; st.stopAfter = stop; mc::step(); uint32_t c = fiftyoneDegreesEvidenceIterate(e, mask, &st, onPair); size_t w = std::min((size_t)stop, want.size());
			MC_CHECK(c == w && st.seen.size() == w, "evidence:iterated", "mask %d stop %d: %u reported, %zu called back, %zu match", mask, stop, c, st.seen.size(), w);
			for (size_t i = 0; i < w; i++) { auto& s = st.seen[i]; MC_CHECK(s.f == fields[want[i]] && s.o == values[want[i]] && s.v == s.o && s.px == in[want[i]].p, "evidence:pair", "mask %d: entry %zu has other contents", mask, i); }
		}
	}
	if (n) { e->pseudoEvidence = nullptr; mc::label("evidence:reuse"); e->count = 0; for (uint32_t i = 0; i < n; i++) MC_CHECK(fiftyoneDegreesEvidenceAddString(e, in[n - 1 - i].p, fields[i], values[7 - i]) == &e->items[i], "evidence:reuse", "entry %u is not the next one", i); IterState st; st.stopAfter = -1; int all = 31 | FIFTYONE_DEGREES_EVIDENCE_IGNORE; uint32_t c = fiftyoneDegreesEvidenceIterate(e, all, &st, onPair); MC_CHECK(c == n && st.seen.size() == n, "evidence:reuse", "%u of %u entries", c, n); for (uint32_t i = 0; i < n; i++) MC_CHECK(st.seen[i].f == fields[i] && st.seen[i].v == values[7 - i] && st.seen[i].o == values[7 - i], "evidence:reuse", "entry %u of an emptied and refilled list keeps an old value", i); }
	mc::outcome(mc::fmt("%u %u", n, pn)); if (q) fiftyoneDegreesEvidenceFree(q); fiftyoneDegreesEvidenceFree(e); env::checkBalanced("evidence");
}
// ---- C20 -----------------------------------------------------------------------------------
#define SEP "\x1f"
static std::vector<S> names; static std::vector<long> ids; static std::set<int> out; static int tickets; static fiftyoneDegreesCollection coll; static std::vector<char*> store; static int failGet, gets;
static void relItem(fiftyoneDegreesCollectionItem* it) { int t = (int)(size_t)it->handle; MC_CHECK(out.erase(t), "headers:release", "an item was released twice or never given"); free(it->data.ptr); it->data.ptr = nullptr; }
static long getHeader(void*, uint32_t i, fiftyoneDegreesCollectionItem* it) {
	if (i >= names.size() || (failGet && ++gets == failGet)) return -1; size_t n = names[i].size() + 1; char* b = (char*)malloc(n + 2); int16_t l = (int16_t)n; memcpy(b, &l, 2); memcpy(b + 2, names[i].c_str(), n); it->data.ptr = (byte*)b; it->data.used = it->data.allocated = (uint32_t)n + 2; it->collection = &coll; it->handle = (void*)(size_t)++tickets; out.insert(tickets); return ids[i];
}
struct H { S name; bool ds; long id; std::vector<S> segs; };
static std::vector<S> segments(const S& n) { std::vector<S> r; S c; for (char x : n + SEP) if (x == SEP[0]) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; return r; }
static std::vector<H> model() {
	std::vector<H> m; auto has = [&](const S& n) { for (auto& h : m) if (low(h.name) == low(n)) return true; return false; };
	for (size_t i = 0; i < names.size(); i++) if (!names[i].empty() && !segments(names[i]).empty() && !has(names[i])) m.push_back({ names[i], true, ids[i], segments(names[i]) });
	size_t k = m.size(); for (size_t i = 0; i < k; i++) for (auto& s : std::vector<S>(m[i].segs)) if (!has(s)) m.push_back({ s, false, 0, { s } }); return m;
}
static fiftyoneDegreesHeaders* make(bool upper) { out.clear(); tickets = 0; gets = 0; memset((void*)&coll, 0, sizeof coll); coll.release = relItem; mc::label("headers:create"); return fiftyoneDegreesHeadersCreate(upper, nullptr, getHeader); }
static const std::vector<S> POOL = { "a", "A", "bc", "Bc" SEP "a", "a" SEP "BC", "d" SEP "e" SEP "D", "a" SEP SEP "f", SEP "g", "g" SEP, SEP, "", "Xy-Z", "d" SEP "e", "ab", "HTTP_", "http_a" };
static void lookups(fiftyoneDegreesHeaders* h, const std::vector<H>& m, bool upper) {
	mc::label("headers:lookup"); std::set<S> cand(POOL.begin(), POOL.end()); for (auto& x : m) cand.insert(x.name); cand.insert("zz"); cand.insert("xy-"); cand.insert("xy-zz"); std::set<S> all;
	for (auto& c : cand) for (int v = 0; v < 3; v++) { S s = c; for (auto& x : s) x = (char)(v == 0 ? x : v == 1 ? toupper(x) : tolower(x)); all.insert(s); all.insert("HTTP_" + s); all.insert("http_" + s); all.insert("HTTP-" + s); all.insert("HTT" + s); }
	for (auto& s : all) {
		S eff = upper && s.size() > 5 && low(s).compare(0, 5, "http_") == 0 ? s.substr(5) : s; int want = -1; for (size_t i = 0; i < m.size(); i++) if (low(m[i].name) == low(eff)) want = (int)i;
		Exact key(s); mc::step(); int got = fiftyoneDegreesHeaderGetIndex(h, key.p, s.size()); MC_CHECK(got == want, "headers:index", "%s is at %d, lookup says %d", mc::quoted(s).c_str(), want, got);
		Pair p; p.prefix = PX[0]; p.field = key.p; p.originalValue = p.parsedValue = nullptr; MC_CHECK(fiftyoneDegreesHeadersIsHttp(h, &p) == (want >= 0), "headers:is-http", "%s", mc::quoted(s).c_str());
		S longer = s + "tail"; Exact lk(longer); got = fiftyoneDegreesHeaderGetIndex(h, lk.p, s.size()); MC_CHECK(got == want, "headers:index-length", "the first %zu characters of %s are at %d, lookup says %d", s.size(), mc::quoted(longer).c_str(), want, got);
	}
	for (auto& x : m) if (x.ds) { auto g = fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, (uint32_t)x.id); MC_CHECK(g && S(g->name) == x.name, "headers:unique-id", "id %ld gives %s", x.id, g ? g->name : "nothing"); } std::set<uint32_t> given; for (auto& x : m) if (x.ds) given.insert((uint32_t)x.id); for (uint32_t i = 1; i < 300; i++) if (!given.count(i)) MC_CHECK(!fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, i), "headers:unique-id", "id %u, never given, is found", i);
}
static void compare(fiftyoneDegreesHeaders* h, const std::vector<H>& m, bool upper) {
	MC_CHECK(out.empty(), "headers:not-released", "%zu name item(s) not given back", out.size()); MC_CHECK(h, "headers:create", "not created"); MC_CHECK(h->count == m.size(), "headers:count", "%u headers, the names make %zu", h->count, m.size()); MC_CHECK(h->expectUpperPrefixedHeaders == upper, "headers:upper", "flag lost"); uint32_t ps = 0;
	for (size_t i = 0; i < m.size(); i++) {
		auto& g = h->items[i]; auto& w = m[i]; MC_CHECK(g.name && S(g.name) == w.name && g.nameLength == w.name.size(), "headers:name", "header %zu is %s instead of %s", i, mc::quoted(g.name ? g.name : "").c_str(), mc::quoted(w.name).c_str()); MC_CHECK(g.isDataSet == w.ds, "headers:data-set", "%s", mc::quoted(w.name).c_str()); if (w.ds) MC_CHECK((long)g.uniqueId == w.id, "headers:id", "%u instead of %ld", g.uniqueId, w.id);
		MC_CHECK(g.segments && g.segments->count == w.segs.size(), "headers:segments", "%u segments of %s", g.segments ? g.segments->count : 0, mc::quoted(w.name).c_str()); for (size_t k = 0; k < w.segs.size(); k++) MC_CHECK(S(g.segments->items[k].segment, g.segments->items[k].length) == w.segs[k], "headers:segment", "segment %zu of %s", k, mc::quoted(w.name).c_str()); ps += w.segs.size() > 1;
	}
	MC_CHECK(h->pseudoHeadersCount == ps, "headers:pseudo-count", "%u instead of %u", h->pseudoHeadersCount, ps);
}
static void pickNames(int max, int pool) { names.clear(); ids.clear(); int n = mc::choose(max + 1); for (int i = 0; i < n; i++) { names.push_back(POOL[mc::choose(pool)]); static const long IDS[] = { 70000, 11, 0x7fffffffL, 0, 256, 12 }; ids.push_back(IDS[i]); mc::note("%s", mc::quoted(names.back()).c_str()); } }
MC_SUITE(C20, sets, 3, "every list of up to 4 (thorough 5) header names out of 16 (duplicates in other case, pseudo headers, repeated, leading and trailing separators, empty, the HTTP_ prefix alone and followed by a name), with and without the HTTP_ form expected, looking up every name of the pool in three letter cases and five forms") {
	failGet = 0; pickNames(mc::tier(4, 5), 16); bool upper = mc::flip(); auto m = model(); auto h = make(upper); compare(h, m, upper); lookups(h, m, upper); mc::outcome(mc::fmt("%zu", m.size())); fiftyoneDegreesHeadersFree(h); env::checkBalanced("headers");
}
MC_SUITE(C20, shapes, 2, "every header name of up to 6 (thorough 8) characters over two letters and the separator") {
	failGet = 0; names.assign(1, ""); ids.assign(1, 7); int n = mc::choose(mc::tier(7, 9)); for (int i = 0; i < n; i++) names[0] += "ab" SEP[mc::choose(3)]; mc::note("%s", mc::quoted(names[0]).c_str()); auto m = model(); auto h = make(false); compare(h, m, false); MC_CHECK(fiftyoneDegreesHeadersIsPseudo(names[0].c_str()) == (names[0].find(SEP) != S::npos), "headers:is-pseudo", "x");
	for (auto& x : m) MC_CHECK(fiftyoneDegreesHeaderGetIndex(h, x.name.c_str(), x.name.size()) >= 0, "headers:index", "%s", mc::quoted(x.name).c_str()); fiftyoneDegreesHeadersFree(h); env::checkBalanced("headers"); mc::outcome(mc::fmt("%zu", m.size()));
}
MC_SUITE(C20, faults, 3, "every list of up to 4 names, with every memory request (thorough: two) failing and with the name source failing at every call") {
	failGet = 0; pickNames(mc::tier(4, 4), 9); env::memFaults = mc::tier(1, 2); if (mc::flip()) { env::memFaults = 0; failGet = 1 + mc::choose(2 * (int)names.size() + 2); } mc::label("headers:create"); auto m = model(); auto h = make(false); bool fired = env::faultsFired; env::memFaults = 0; MC_CHECK(out.empty(), "headers:not-released", "%zu name item(s) not given back", out.size());
	if (failGet == 0) { MC_CHECK(fired == !h, "headers:fault", fired ? "a set was given although memory ran out" : "no set although nothing failed"); if (h) compare(h, m, false); } if (h) fiftyoneDegreesHeadersFree(h); failGet = 0; env::checkBalanced("headers"); h = make(false); compare(h, m, false); fiftyoneDegreesHeadersFree(h); env::checkBalanced("headers"); mc::outcome(mc::fmt("%d", fired));
}
// ---- C21 -----------------------------------------------------------------------------------
struct E { P p; S f, v; };
static std::vector<std::pair<S, std::pair<P, S>>> build(const std::vector<H>& hs, const std::vector<E>& ev, const std::vector<P>& order) {
	std::vector<std::pair<S, std::pair<P, S>>> r;
	for (auto& h : hs) if (h.name.find(SEP) != S::npos) {
		bool given = false; for (auto& e : ev) for (P p : order) if (e.p == p && low(e.f) == low(h.name)) given = true; if (given) continue;
		for (P p : order) { S v; bool ok = true; for (size_t i = 0; i < h.segs.size() && ok; i++) { const E* f = nullptr; for (auto& e : ev) if (!f && e.p == p && low(e.f) == low(h.segs[i])) f = &e; if (!f) ok = false; else v += (i ? SEP : "") + f->v; } if (ok) { r.push_back({ h.name, { p, v } }); break; } }
	}
	return r;
}
static const std::vector<std::vector<S>> HL = { { "a" SEP "b" }, { "a" SEP "b", "b" SEP "a" }, { "a" SEP "B" SEP "c", "a" SEP "b" }, { "c" SEP "c", "d", "a" }, { "a" SEP "c", "b" SEP "c", "a" SEP "b" SEP "c" }, { "a" SEP, "b" SEP "c" }, { "c" }, { "b" SEP SEP "a", SEP "c" SEP "b" } };
static const P HD = FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, QR = FIFTYONE_DEGREES_EVIDENCE_QUERY, CK = FIFTYONE_DEGREES_EVIDENCE_COOKIE;
static const std::vector<std::vector<P>> ORD = { { HD, QR }, { QR, HD }, { HD }, { QR, CK, HD }, {} };
MC_SUITE(C21, construct, 4, "eight sets of pseudo headers; every evidence in which each of three segments is absent, \"x\" or \"yy\" (thorough: or empty) in two prefixes, with five kinds of additional entries; five orders of precedence; buffers of 2 to 8 characters; pseudo capacity 0 to one more than needed; added, removed and added again") {
	names = mc::pick(HL); ids.assign(names.size(), 3); failGet = 0; auto m = model(); std::vector<E> ev; static const S vals[] = { "x", "yy", "" }; int nv = 4; for (const char* f : { "A", "b", "c" }) for (P p : { HD, QR }) { int k = mc::choose(nv); if (k) ev.push_back({ p, f, vals[k - 1] }); }
	int extra = mc::choose(6); if (extra == 1) ev.push_back({ HD, "a", "zz" }); if (extra == 2) ev.push_back({ QR, "A" SEP "b", "given" }); if (extra == 3) ev.insert(ev.begin(), { CK, "b", "ck" }); if (extra == 4) ev.push_back({ CK, "a" SEP "b", "given" }); if (extra == 5) ev.insert(ev.begin(), { HD, "bb", "no" });
	for (auto& h : m) if (h.segs.size() == 1 && h.name.find(SEP) != S::npos) for (auto& e : ev) if (e.v.empty()) mc::prune(); // an empty value for a single segment: not covered by the property
	for (auto& e : ev) mc::note("%d.%s=%s", (int)e.p, mc::quoted(e.f).c_str(), e.v.c_str());
	auto h = make(false); MC_CHECK(h, "pseudo:headers", "no headers");
	for (auto& order : ORD) {
		auto full = build(m, ev, order);
		for (size_t size : { 2, 3, 4, 5, 8 }) for (uint32_t cap = 0; cap <= full.size() + 1; cap++) {
			Ev* e = fiftyoneDegreesEvidenceCreate((uint32_t)ev.size()); Ev* q = fiftyoneDegreesEvidenceCreate(cap); for (auto& x : ev) fiftyoneDegreesEvidenceAddString(e, x.p, x.f.c_str(), x.v.c_str()); std::vector<char*> bufs; for (uint32_t i = 0; i < cap; i++) { char* b = (char*)malloc(size); memset(b, 'J', size); bufs.push_back(b); q->items[i].originalValue = b; } e->pseudoEvidence = q;
			for (int round = 0; round < 2; round++) {
				Ex ex; memset(&ex, 0, sizeof ex); ex.status = FIFTYONE_DEGREES_STATUS_NOT_SET; mc::label("pseudo:add"); mc::step(); fiftyoneDegreesPseudoHeadersAddEvidence(e, h, size, order.data(), order.size(), &ex);
				MC_CHECK(ex.status == FIFTYONE_DEGREES_STATUS_NOT_SET || ex.status == FIFTYONE_DEGREES_STATUS_SUCCESS, "pseudo:status", "status %d", ex.status); size_t want = std::min<size_t>(cap, full.size()); MC_CHECK(q->count == want, "pseudo:count", "%u constructed, %zu possible, capacity %u", q->count, full.size(), cap);
				for (size_t i = 0; i < want; i++) { auto& g = q->items[i]; S v = full[i].second.second.substr(0, size - 1); const char* gv = (const char*)g.originalValue; MC_CHECK(gv == bufs[i] && memchr(gv, 0, size), "pseudo:terminated", "value %zu is not terminated within %zu characters", i, size); MC_CHECK(g.field && S(g.field) == full[i].first && g.prefix == full[i].second.first && S(gv) == v, "pseudo:value", "%s is %s in prefix %d, should be %s in prefix %d", mc::quoted(full[i].first).c_str(), mc::quoted(gv).c_str(), g.prefix, mc::quoted(v).c_str(), full[i].second.first); }
				if (want) { IterState st; st.stopAfter = -1; fiftyoneDegreesEvidenceIterate(e, HD | QR | CK, &st, onPair); MC_CHECK(st.seen.size() == ev.size() + want, "pseudo:iterate", "%zu entries iterated", st.seen.size()); for (size_t i = 0; i < want; i++) MC_CHECK(st.seen[ev.size() + i].v == bufs[i], "pseudo:iterate", "a constructed value is not the one iterated"); }
				mc::label("pseudo:remove"); fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size); MC_CHECK(q->count == 0 && e->count == ev.size(), "pseudo:removed", "%u pseudo, %u other entries after removal", q->count, e->count); for (size_t i = 0; i < ev.size(); i++) MC_CHECK(e->items[i].field == ev[i].f.c_str() && e->items[i].originalValue == ev[i].v.c_str() && e->items[i].prefix == ev[i].p, "pseudo:evidence", "evidence entry %zu was changed", i);
			}
			for (auto b : bufs) free(b); fiftyoneDegreesEvidenceFree(q); e->pseudoEvidence = nullptr;
			if (cap == 0 && size == 2) { Ex ex; memset(&ex, 0, sizeof ex); ex.status = FIFTYONE_DEGREES_STATUS_NOT_SET; mc::label("pseudo:none"); fiftyoneDegreesPseudoHeadersAddEvidence(e, h, size, order.data(), order.size(), &ex); fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size); }
			fiftyoneDegreesEvidenceFree(e);
		}
		mc::outcome(mc::fmt("%zu", full.size()));
	}
	fiftyoneDegreesHeadersFree(h); env::checkBalanced("pseudo");
}
