// FLAVOR: asan
// PROPS: C23
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <set>
#include <algorithm>
typedef std::string S; typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesPropertiesAvailable Avail; typedef fiftyoneDegreesPropertiesRequired Req; typedef fiftyoneDegreesEvidenceProperties Ev;
static S low(S s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static S swapped(S s) { for (auto& c : s) if ((unsigned char)c < 128) c = (char)(isupper(c) ? tolower(c) : toupper(c)); return s; }
// A data set of named properties. Every name given out is a ticket to be given back to the collection it came from.
struct Set {
	std::vector<S> names; Coll coll; std::set<void*> out; std::vector<std::vector<char>> bytes; long gets = 0, failAt = 0; bool failed = false;
	static Set* of(Coll* c) { return (Set*)((char*)c - offsetof(Set, coll)); }
	static void release(It* it) { Set* s = of(it->collection); MC_CHECK(s->out.erase(it->handle), "properties:release", "an item was given back twice or never got"); delete (char*)it->handle; it->handle = nullptr; it->data.ptr = nullptr; }
	Set(const std::vector<S>& n) : names(n) { memset(&coll, 0, sizeof coll); coll.release = release; for (auto& x : n) { std::vector<char> b(2 + x.size() + 1); int16_t l = (int16_t)(x.size() + 1); memcpy(b.data(), &l, 2); memcpy(b.data() + 2, x.c_str(), x.size() + 1); bytes.push_back(b); } }
	~Set() { for (auto p : out) delete (char*)p; }
	static fiftyoneDegreesString* get(void* st, uint32_t i, It* it) {
		Set* s = (Set*)st; if (++s->gets == s->failAt) { s->failed = true; return nullptr; } if (i >= s->names.size()) return nullptr;
		it->handle = new char; s->out.insert(it->handle); it->collection = &s->coll; it->data.ptr = (byte*)s->bytes[i].data(); it->data.used = (uint32_t)s->bytes[i].size(); return (fiftyoneDegreesString*)it->data.ptr;
	}
	int find(const S& n) const { for (size_t i = 0; i < names.size(); i++) if (low(names[i]) == low(n)) return (int)i; return -1; }
	// evidence property j of the property named n
	static uint32_t evidence(void* st, fiftyoneDegreesPropertyAvailable* p, Ev* e) {
		Set* s = (Set*)st; auto n = (fiftyoneDegreesString*)p->name.data.ptr; if (!n) return 0; int i = s->find(&n->value); uint32_t c = i < 0 ? 0 : i % 3;
		if (e) { MC_CHECK(e->capacity >= c, "properties:evidence", "room for %u of %u evidence properties", e->capacity, c); for (uint32_t j = 0; j < c; j++) e->items[j] = i * 10 + j; } return c;
	}
};
static const std::vector<S> VOCAB = { "Alpha", "al_x", "ALPHAbeta", "b", "SetHeaderUa", "xSetHeader", "\xc3\xa9t" };
static std::vector<S> tokens() { std::vector<S> t; for (auto& v : VOCAB) { t.push_back(v); t.push_back(swapped(v)); } t.push_back("alp"); t.push_back("zz"); t.push_back(""); return t; }
static std::vector<S> pickNames(int max, int of = 7) { std::vector<S> n; std::vector<S> left(VOCAB.begin(), VOCAB.begin() + of); while ((int)n.size() < max) { int c = mc::choose((int)left.size() + 1); if (c == (int)left.size()) break; n.push_back(left[c]); left.erase(left.begin() + c); } return n; }
static S show(const std::vector<S>& v) { S r; for (auto& x : v) r += mc::quoted(x) + " "; return r; }
static bool selectAll; // look every property of the data set up
static void judge(const Set& s, Avail* a, const std::set<int>& want) {
	std::vector<int> order(want.begin(), want.end()); std::sort(order.begin(), order.end(), [&](int x, int y) { return low(s.names[x]) < low(s.names[y]); });
	MC_CHECK(a->count == want.size(), "properties:count", "%u properties selected, %zu asked for and available", a->count, want.size()); std::set<int> seen; bool setHeader = false;
	for (uint32_t i = 0; i < a->count; i++) {
		int p = (int)a->items[i].propertyIndex; auto n = fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, i); MC_CHECK(n && want.count(p) && seen.insert(p).second, "properties:index", "entry %u is property %d, not asked for or there twice", i, p);
		MC_CHECK(s.names[p] == &n->value, "properties:name", "entry %u is property %d but is named %s", i, p, &n->value); MC_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, i) == p, "properties:back", "entry %u does not map to its property", i);
		MC_CHECK(a->items[i].delayExecution == false, "properties:delay", "delayed from the start"); auto e = a->items[i].evidenceProperties; MC_CHECK(e && e->count == (uint32_t)p % 3, "properties:evidence", "property %d has not its own evidence properties", p); for (uint32_t j = 0; j < e->count; j++) MC_CHECK(e->items[j] == (uint32_t)p * 10 + j, "properties:evidence", "property %d has another's evidence properties", p);
		setHeader |= low(s.names[p]).compare(0, 9, "setheader") == 0;
	}
	mc::label("properties:lookup"); if (selectAll) for (size_t i = 0; i < s.names.size(); i++) { int r = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, swapped(s.names[i]).c_str()); MC_CHECK(want.count((int)i) ? r >= 0 && a->items[r].propertyIndex == i : r == -1, "properties:by-name", "property %zu gives entry %d", i, r); }
	for (auto& t : tokens()) {
		int p = s.find(t); bool in = p >= 0 && want.count(p); int r = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, t.c_str()), q = fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, t.c_str());
		if (in) { MC_CHECK(r >= 0 && r < (int)a->count && (int)a->items[r].propertyIndex == p && q == p, "properties:by-name", "%s gives entry %d and property %d of %d", mc::quoted(t).c_str(), r, q, p); }
		else MC_CHECK(r == -1 && q == -1, "properties:by-name", "%s was not selected but gives entry %d and property %d", mc::quoted(t).c_str(), r, q);
	}
	for (int i : { -1, (int)a->count, (int)a->count + 1, INT_MAX, INT_MIN }) MC_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, i) == -1, "properties:beyond", "entry %d does not exist", i);
	MC_CHECK(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == setHeader, "properties:set-header", "SetHeader properties %s", setHeader ? "not seen" : "seen where there are none");
}
struct Request { int form; std::vector<S> parts; S text; std::vector<const char*> array; Set* from = nullptr; Avail* existing = nullptr; Req req; Req* p = nullptr; };
enum { ALL, EMPTY, STRING, ARRAY, EXISTING };
static void makeRequest(Request& r, int form, int max, int few = 0) {
	static const std::vector<S> all = tokens(); std::vector<S> T = all; if (few) T.resize(few); r.form = form; memset(&r.req, 0, sizeof r.req); r.p = form == ALL ? nullptr : &r.req;
	if (form == EMPTY) switch (mc::choose(4)) { case 0: break; case 1: r.req.string = ""; break; case 2: { static const char* none[1] = { "b" }; r.req.array = none; break; } case 3: r.req.count = 2; break; }
	if (form < STRING) return;
	int n = few ? max : (form == STRING ? 1 : 0) + mc::choose(max + (form == STRING ? 0 : 1)); char sep = form == STRING && n > 1 ? "|, "[mc::choose(3)] : 0;
	for (int i = 0; i < n; i++) { if (form == EXISTING) { r.parts.push_back(VOCAB[mc::choose((int)VOCAB.size())]); continue; } r.parts.push_back(mc::pick(T)); if (i) r.text += sep; r.text += r.parts.back(); }
	if (form == STRING) { if (r.text.empty()) mc::prune(); r.req.string = r.text.c_str(); }
	if (form == ARRAY) { for (auto& x : r.parts) r.array.push_back(x.c_str()); if (n == 0) mc::prune(); r.req.array = r.array.data(); r.req.count = n; }
	if (form == EXISTING) { // selected from another data set
		std::vector<S> other = { VOCAB[3], VOCAB[6], VOCAB[0], VOCAB[5], VOCAB[2], VOCAB[4], VOCAB[1] }; if (n == 0) other = { "nothing" }; r.from = new Set(other); for (auto& x : r.parts) r.array.push_back(x.c_str()); Req q; memset(&q, 0, sizeof q); static const char* unknown[1] = { "unknown" };
		q.array = n ? r.array.data() : unknown; q.count = n ? n : 1; r.existing = fiftyoneDegreesPropertiesCreate(&q, r.from, Set::get, Set::evidence); MC_CHECK(r.existing, "properties:none", "nothing created"); r.req.existing = r.existing;
	}
}
static void select(Set& s, Request& r) {
	mc::label("properties:create"); mc::step();
	std::set<int> want; if (r.form <= EMPTY) for (size_t i = 0; i < s.names.size(); i++) want.insert((int)i); else for (auto& x : r.parts) { int i = s.find(x); if (i >= 0) want.insert(i); }
	bool first = r.form == EXISTING && mc::flip();
	Avail* a = fiftyoneDegreesPropertiesCreate(r.p, &s, Set::get, Set::evidence);
	if (first) { fiftyoneDegreesPropertiesFree(r.existing); r.existing = nullptr; MC_CHECK(r.from->out.empty(), "properties:kept", "names of the previous selection are still held"); }
	if (a) { mc::label("properties:check"); judge(s, a, want); MC_CHECK(s.out.size() == a->count, "properties:leak", "%zu names are held for %u entries", s.out.size(), a->count); }
	else { MC_CHECK(want.empty() && r.form >= STRING, "properties:none", "nothing created although %zu properties match", want.size()); }
	if (r.form == STRING && want.empty()) MC_CHECK(!a, "properties:reported", "a text that matches nothing gave a selection of %u", a->count);
	mc::outcome(a ? mc::fmt("%u", a->count) : "none"); mc::label("properties:free"); fiftyoneDegreesPropertiesFree(a); if (r.existing) fiftyoneDegreesPropertiesFree(r.existing); MC_CHECK(s.out.empty() && (!r.from || r.from->out.empty()), "properties:leak", "%zu names not given back", s.out.size()); delete r.from; env::checkBalanced("properties");
}
MC_SUITE(C23, requests, 3, "data sets of every ordered choice of up to 3 (thorough 4) of 7 names (with common prefixes, '_', non ASCII) x no request, 4 kinds of empty request, every text (3 separators) or array of up to 2 (thorough 3) of 17 names in either case, unknown, prefix or empty, every previous selection of up to 2 (3) from another data set: selection, order, indexes, evidence properties, every look-up, references given back") {
	Set s(pickNames(mc::tier(3, 4))); Request r; makeRequest(r, mc::choose(5), mc::thorough() && s.names.size() <= 3 ? 3 : 2); mc::note("%s form %d: %s", show(s.names).c_str(), r.form, show(r.parts).c_str()); select(s, r);
}
MC_SUITE(C23, repeated, 3, "data sets of every ordered choice of up to 3 of 4 names x every text (3 separators) or array of 4 (thorough 5) of 7 names in either case, so that names are asked for more than once and in every order") {
	Set s(pickNames(3, 4)); Request r; makeRequest(r, STRING + mc::choose(2), mc::tier(4, 5), 7); mc::note("%s form %d: %s", show(s.names).c_str(), r.form, show(r.parts).c_str()); select(s, r);
}
MC_SUITE(C23, large, 2, "data sets of 64, 127, 128, 129, 255, 256, 257 or 300 (thorough every count up to 300) properties in 3 orders (ascending, descending, interleaved) x no request, texts and arrays of all, of every second and of the last one, previous selections of every third: selection, order, indexes, evidence properties, look-ups of every property") {
	static const int sizes[] = { 64, 127, 128, 129, 255, 256, 257, 300 }; int n = mc::thorough() ? 1 + mc::choose(300) : sizes[mc::choose(8)], order = mc::choose(3); std::vector<S> names(n); for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (int)((long)i * 151 % n); if (order == 2 && n % 151 == 0) k = i; names[i] = mc::fmt("%sProp%d", k % 2 ? "x" : "", k); }
	Set s(names); Request r; r.form = mc::choose(4); if (r.form) r.form++; memset(&r.req, 0, sizeof r.req); r.p = r.form == ALL ? nullptr : &r.req;
	if (r.form) { int which = r.form == EXISTING ? 3 : mc::choose(3); if (which == 2) r.parts.push_back(names[n - 1]); else for (int i = 0; i < n; i += which + (which < 3)) r.parts.push_back(i % 3 ? names[i] : swapped(names[i])); for (size_t i = 0; i < r.parts.size(); i++) r.text += (i ? "|" : "") + r.parts[i]; for (auto& x : r.parts) r.array.push_back(x.c_str()); }
	if (r.form == STRING) r.req.string = r.text.c_str();
	if (r.form == ARRAY) { r.req.array = r.array.data(); r.req.count = (int)r.array.size(); }
	if (r.form == EXISTING) { std::vector<S> other(names.rbegin(), names.rend()); r.from = new Set(other); Req q; memset(&q, 0, sizeof q); q.array = r.array.data(); q.count = (int)r.array.size(); r.existing = fiftyoneDegreesPropertiesCreate(&q, r.from, Set::get, Set::evidence); MC_CHECK(r.existing, "properties:none", "nothing created"); r.req.existing = r.existing; }
	mc::note("%d properties in order %d, form %d, %zu asked for", n, order, r.form, r.parts.size()); selectAll = true; select(s, r); selectAll = false;
}
MC_SUITE(C23, faults, 3, "data sets of up to 3 properties x every form of request: the n-th name can not be read or the n-th memory request fails, for every n: no crash, no entry without its own data, all references and memory returned") {
	Set s(pickNames(3)); Request r; makeRequest(r, mc::choose(5), 1); bool mem = mc::flip(); int n = 1 + mc::choose(mem ? 6 : 20); mc::note("%s form %d: %s %s %d", show(s.names).c_str(), r.form, show(r.parts).c_str(), mem ? "memory" : "name", n); mc::label("properties:create"); mc::step();
	if (mem) env::failAllocAt = n; else s.failAt = s.gets + n; Avail* a = fiftyoneDegreesPropertiesCreate(r.p, &s, Set::get, Set::evidence); bool hit = mem ? env::faultsFired : s.failed; env::failAllocAt = 0; s.failAt = 0; if (!hit) { fiftyoneDegreesPropertiesFree(a); a = nullptr; mc::outcome("no fault"); }
	if (a) { mc::label("properties:check"); for (uint32_t i = 0; i < a->count; i++) { auto nm = fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, i); if (nm) { int p = s.find(&nm->value); MC_CHECK(p >= 0, "properties:name", "entry %u has a name that does not exist", i); if (mem) MC_CHECK((int)a->items[i].propertyIndex == p, "properties:index", "entry %u has another property's index", i); } } mc::outcome(mc::fmt("%u", a->count)); }
	mc::label("properties:free"); fiftyoneDegreesPropertiesFree(a); if (r.existing) fiftyoneDegreesPropertiesFree(r.existing); MC_CHECK(s.out.empty() && (!r.from || r.from->out.empty()), "properties:leak", "%zu names not given back", s.out.size()); delete r.from; env::checkBalanced("properties");
}
