// FLAVOR: asan
// PROPS: C22
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <map>
#include <algorithm>
typedef std::string S; typedef fiftyoneDegreesOverrideValueArray Vals; typedef fiftyoneDegreesOverridePropertyArray Props; typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev; typedef fiftyoneDegreesPropertiesAvailable Avail; typedef fiftyoneDegreesEvidencePrefix P;
extern "C" {
	Props* oCreate(Avail*, bool, void*, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate"); void oFree(Props*) asm("fiftyoneDegreesOverridePropertiesFree");
	uint32_t oExtract(Props*, Vals*, Ev*) asm("fiftyoneDegreesOverridesExtractFromEvidence"); bool oHas(Vals*, uint32_t) asm("fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex");
	uint32_t oValuesAdd(Vals*, uint32_t, fiftyoneDegreesList*) asm("fiftyoneDegreesOverrideValuesAdd"); fiftyoneDegreesString* oFirst(Vals*, uint32_t, fiftyoneDegreesCollectionItem*) asm("fiftyoneDegreesOverrideValuesGetFirst");
	int oOverriding(Avail*, uint32_t) asm("fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex");
}
static S low(S s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
struct Exact { char* p; Exact(const S& s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
struct Available { Avail* a; std::vector<char*> mem; Available(const std::vector<S>& names) { a = (Avail*)calloc(1, sizeof(Avail) + (names.size() + 1) * sizeof(fiftyoneDegreesPropertyAvailable)); a->items = (fiftyoneDegreesPropertyAvailable*)(a + 1); a->count = a->capacity = (uint32_t)names.size(); for (size_t i = 0; i < names.size(); i++) { char* b = (char*)malloc(names[i].size() + 3); int16_t n = (int16_t)(names[i].size() + 1); memcpy(b, &n, 2); memcpy(b + 2, names[i].c_str(), n); a->items[i].name.data.ptr = (byte*)b; a->items[i].propertyIndex = (uint32_t)(40 - i * 3); mem.push_back(b); } } ~Available() { for (auto m : mem) free(m); free(a); } };
struct Model { size_t cap; std::vector<std::pair<int, S>> v; bool add(int i, const S& s) { if (i < 0) return false; for (auto& x : v) if (x.first == i) { x.second = s; return true; } if (v.size() >= cap) return false; v.push_back({ i, s }); return true; } const S* get(int i) const { for (auto& x : v) if (x.first == i) return &x.second; return nullptr; } };
static void query(Vals* v, const Model& m, int n) {
	struct NoFaults { int m = env::memFaults; NoFaults() { env::memFaults = 0; } ~NoFaults() { env::memFaults = m; } } noFaults; mc::label("overrides:query"); MC_CHECK(v->count == m.v.size() && v->count <= v->capacity, "overrides:count", "%u values of %u, the evidence gives %zu", v->count, v->capacity, m.v.size());
	for (int i = 0; i < n; i++) {
		const S* w = m.get(i); mc::step(); MC_CHECK(oHas(v, i) == (w != nullptr), "overrides:has", "property %d", i); fiftyoneDegreesCollectionItem it; memset(&it, 0, sizeof it); auto s = oFirst(v, i, &it); MC_CHECK((s != nullptr) == (w != nullptr), "overrides:first", "property %d %s", i, w ? "has no value" : "has a value");
		if (s) { MC_CHECK(S(&s->value) == *w && s->size == (int16_t)(w->size() + 1), "overrides:value", "property %d is %s (size %d) instead of %s", i, mc::quoted(&s->value).c_str(), s->size, mc::quoted(*w).c_str()); MC_CHECK((void*)it.data.ptr == (void*)s && it.collection && it.collection->release, "overrides:item", "the item does not hold the value"); it.collection->release(&it); }
		for (uint32_t pre = 0; pre < 2; pre++) for (uint32_t cap = pre; cap < 3; cap++) {
			fiftyoneDegreesList l; fiftyoneDegreesListInit(&l, cap); fiftyoneDegreesCollectionItem junk; memset(&junk, 0, sizeof junk); junk.collection = it.collection; if (pre) { static fiftyoneDegreesCollection dummy; dummy.release = [](fiftyoneDegreesCollectionItem*) {}; junk.collection = &dummy; fiftyoneDegreesListAdd(&l, &junk); }
			uint32_t want = w && cap > pre ? 1 : 0, got = oValuesAdd(v, i, &l); MC_CHECK(got == want && l.count == pre + want, "overrides:list", "property %d: %u values put in a list of %u holding %u (now %u)", i, got, cap, pre, l.count); if (want) { auto t = (fiftyoneDegreesString*)l.items[pre].data.ptr; MC_CHECK(t && S(&t->value) == *w, "overrides:list-value", "property %d", i); } fiftyoneDegreesListFree(&l);
		}
	}
}
static int filterMask; static int filterCalls; static bool filt(void* st, uint32_t i) { filterCalls++; return st == &filterMask && (filterMask >> i & 1); }
static S strip(bool prefix, const S& f) { if (prefix && f.size() > 4 && low(f.substr(0, 4)) == "51d_") return f.substr(4); return f; }
static int indexOf(const std::vector<S>& names, bool prefix, const S& f) { S n = low(strip(prefix, f)); for (size_t i = 0; i < names.size(); i++) if ((filterMask >> i & 1) && low(names[i]) == n) return (int)i; return -1; }
static const std::vector<S> NAMES = { "a", "Ab", "ScreenPixelsWidth" };
static const char* FIELDS[] = { "a", "A", "ab", "AB", "51D_a", "51d_A", "51D_Ab", "screenpixelswidth", "51D_ScreenPixelsWidth", "51D_51D_a", "51D_", "", "51D_b", "51D", "abc", "ScreenPixelsWidt", "51Dxa", "x51D_a" };
static const int NF = sizeof FIELDS / sizeof *FIELDS;
static const char* VALUES[] = { "", "x", "1920", "one|two,three;a=b" };
static const P PX[] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_SERVER, FIFTYONE_DEGREES_EVIDENCE_IGNORE, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_IP_ADDRESSES };
struct Run { Available av; Props* p; Run(bool prefix) : av(NAMES), p(nullptr) { filterCalls = 0; mc::label("overrides:properties"); p = oCreate(av.a, prefix, &filterMask, filt); } void check(bool prefix) { int n = __builtin_popcount(filterMask); if (!n) { MC_CHECK(!p, "overrides:properties", "made with nothing to override"); return; } if (!p) { MC_CHECK(env::faultsFired, "overrides:properties", "not made"); return; } MC_CHECK((int)p->count == n && p->prefix == prefix, "overrides:properties", "%u properties instead of %d", p->count, n); int k = 0; for (int i = 0; i < 3; i++) if (filterMask >> i & 1) { MC_CHECK((int)p->items[k].requiredPropertyIndex == i && p->items[k].available == &av.a->items[i], "overrides:property", "%d", i); k++; } } ~Run() { oFree(p); } };
MC_SUITE(C22, field, 2, "every set of overridable properties, prefixed or not, with one piece of evidence of every prefix kind and with every name: every table name, every cut of every name, every name with any one character replaced by any byte, in every case") {
	filterMask = mc::choose(8); bool prefix = mc::flip(); { Run r(prefix); r.check(prefix); Vals* v = fiftyoneDegreesOverrideValuesCreate(2); MC_CHECK(v && v->count == 0 && v->capacity == 2, "overrides:create", "values");
	std::vector<S> fs(FIELDS, FIELDS + NF); for (auto& n : NAMES) for (S pre : { S(""), S("51D_") }) { S f = pre + n; for (size_t c = 0; c < f.size(); c++) fs.push_back(f.substr(0, c)); fs.push_back(f + "x"); for (size_t i = 0; i < f.size(); i++) { for (int b = 1; b < 256; b++) { S g = f; g[i] = (char)b; fs.push_back(g); } } S u = f, l = low(f); for (auto& c : u) c = (char)toupper(c); fs.push_back(u); fs.push_back(l); }
	P px = PX[mc::choose(6)]; bool on = px == FIFTYONE_DEGREES_EVIDENCE_QUERY || px == FIFTYONE_DEGREES_EVIDENCE_COOKIE; mc::label("overrides:extract");
	for (auto& f : fs) { Ev* e = fiftyoneDegreesEvidenceCreate(1); Exact ef(f), ev("val"); fiftyoneDegreesEvidenceAddString(e, px, ef.p, ev.p); mc::step(); uint32_t n = oExtract(r.p, v, e); int want = on ? indexOf(NAMES, prefix, f) : -1; MC_CHECK(n == (want >= 0 ? 1u : 0u), "overrides:extracted", "%u values from %s", n, mc::quoted(f).c_str()); MC_CHECK(v->count == n && (want < 0 || ((int)v->items[0].requiredPropertyIndex == want && S(&((fiftyoneDegreesString*)v->items[0].string.ptr)->value) == "val")), "overrides:extracted", "%s overrides another property", mc::quoted(f).c_str()); fiftyoneDegreesOverrideValuesReset(v); MC_CHECK(v->count == 0, "overrides:reset", "%u left", v->count); fiftyoneDegreesEvidenceFree(e); }
	mc::outcome(mc::fmt("%d", filterMask)); fiftyoneDegreesOverrideValuesFree(v); } env::checkBalanced("overrides");
}
static void evidenceList(bool faults) {
	filterMask = faults ? 7 : 7 - mc::choose(2) * 2; bool prefix = faults || mc::flip(); uint32_t cap = mc::choose(4); env::memFaults = faults ? mc::tier(1, 2) : 0; { Run r(prefix); r.check(prefix); Vals* v = fiftyoneDegreesOverrideValuesCreate(cap); if (!v) { MC_CHECK(env::faultsFired, "overrides:create", "values"); env::memFaults = 0; mc::outcome("oom"); goto out; }
	{ int rounds = 1 + mc::choose(2), n = mc::choose(faults ? 3 : mc::tier(3, 4)); Model m{ cap, {} };
	for (int k = 0; k < rounds; k++) {
		if (k) { if (mc::flip()) { mc::label("overrides:reset"); fiftyoneDegreesOverrideValuesReset(v); m.v.clear(); } n = mc::choose(2); }
		int bf = env::memFaults; env::memFaults = 0; Ev* e = fiftyoneDegreesEvidenceCreate(4); env::memFaults = bf; std::vector<Exact*> keep; uint32_t want = 0; bool pn = k == 0; static const int F3[] = { 0, 4, 6, 1, 8, 14 };
		struct In { S f, v; bool on; }; std::vector<In> in;
		for (int i = 0; i < n; i++) { S f = FIELDS[F3[mc::choose(pn ? 6 : 3)]], s = VALUES[mc::choose(pn ? 3 : 4)]; P px = PX[pn && !faults ? mc::choose(3) : 0]; in.push_back({ f, s, px < FIFTYONE_DEGREES_EVIDENCE_IGNORE && (px == PX[0] || px == PX[1]) }); mc::note("%s=%s", f.c_str(), s.c_str()); auto a = new Exact(f), b = new Exact(s); keep.push_back(a); keep.push_back(b); fiftyoneDegreesEvidenceAddString(e, px, a->p, b->p); }
		mc::label("overrides:extract"); mc::step(); long f0 = env::faultsFired; uint32_t got = oExtract(r.p, v, e);
		if (env::faultsFired == f0) { if (r.p) for (auto& x : in) if (x.on) want += m.add(indexOf(NAMES, prefix, x.f), x.v); MC_CHECK(got == want, "overrides:extracted", "%u values extracted, the evidence has %u", got, want); query(v, m, 3); }
		else {
			// Memory ran out for at least one value. Whatever is held must be a value given for that property.
			env::memFaults = 0; MC_CHECK(v->count <= cap, "overrides:capacity", "%u of %u", v->count, cap);
			for (int i = 0; i < 3; i++) { fiftyoneDegreesCollectionItem it; bool has = oHas(v, i); auto s = oFirst(v, i, &it); MC_CHECK(!has || s, "overrides:no-memory", "property %d is said to have a value but there is none", i); if (!s) continue; bool ok = m.get(i) && *m.get(i) == S(&s->value); for (auto& x : in) ok |= x.on && indexOf(NAMES, prefix, x.f) == i && x.v == S(&s->value); MC_CHECK(ok, "overrides:no-memory", "property %d has %s, never given", i, mc::quoted(&s->value).c_str()); }
			m.v.clear(); for (uint32_t i = 0; i < v->count; i++) m.v.push_back({ (int)v->items[i].requiredPropertyIndex, &((fiftyoneDegreesString*)v->items[i].string.ptr)->value }); query(v, m, 3);
		}
		for (auto x : keep) delete x; fiftyoneDegreesEvidenceFree(e);
	}
	env::memFaults = 0; fiftyoneDegreesOverrideValuesFree(v); mc::outcome(mc::fmt("%zu", m.v.size())); } out:; } env::checkBalanced("overrides");
}
MC_SUITE(C22, evidence, 4, "every capacity 0-3 and every evidence list of up to 2 (thorough 3) entries over six names, three values and three prefix kinds, followed by nothing or a second list with and without a reset; every query for every property and into lists of every capacity") { evidenceList(false); }
MC_SUITE(C22, no_memory, 3, "the same with up to one (thorough two) failed allocations anywhere") { evidenceList(true); }
MC_SUITE(C22, add, 3, "every sequence of up to 5 (thorough 6) additions and resets over three properties, an invalid property and values of growing length, for every capacity") {
	uint32_t cap = mc::choose(4); Vals* v = fiftyoneDegreesOverrideValuesCreate(cap); Model m{ cap, {} }; int n = mc::choose(mc::tier(6, 7));
	for (int i = 0; i < n; i++) { int op = mc::choose(8); if (op == 0) { mc::label("overrides:reset"); fiftyoneDegreesOverrideValuesReset(v); m.v.clear(); } else { static const char* vs[] = { "", "longer value than that" }; int pi = op == 7 ? -1 : (op - 1) / 2; S s = vs[op & 1]; if (pi == 2) s += S(300, 'z'); Exact x(s); mc::label("overrides:add"); bool want = m.add(pi, s); bool got = fiftyoneDegreesOverridesAdd(v, pi, x.p); MC_CHECK(got == want, "overrides:add", "adding a value for %d to %zu of %u says %d", pi, m.v.size(), cap, got); } mc::step(); query(v, m, 3); }
	mc::outcome(mc::fmt("%zu", m.v.size())); fiftyoneDegreesOverrideValuesFree(v); env::checkBalanced("overrides");
}
static std::vector<uint32_t> ids; static void onId(void* st, uint32_t id) { if (st == &ids) ids.push_back(id); }
static std::vector<uint32_t> split(const S& s) { std::vector<uint32_t> r; S d; for (size_t i = 0; i <= s.size(); i++) if (i < s.size() && s[i] >= '0' && s[i] <= '9') d += s[i]; else { if (!d.empty()) { S z = d; while (z.size() > 1 && z[0] == '0') z.erase(0, 1); if (z.size() < 10 || (z.size() == 10 && z <= "4294967295")) r.push_back((uint32_t)strtoull(z.c_str(), nullptr, 10)); } d.clear(); } return r; }
static void profile(const S& f, P px, const S& s, bool on) { Ev* e = fiftyoneDegreesEvidenceCreate(1); Exact ef(f), ev(s); fiftyoneDegreesEvidenceAddString(e, px, ef.p, ev.p); ids.clear(); mc::step(); mc::label("overrides:profile-ids"); fiftyoneDegreesOverrideProfileIds(e, &ids, onId); auto want = on ? split(s) : std::vector<uint32_t>(); MC_CHECK(ids == want, "overrides:profile-ids", "%s=%s gives %zu profile(s) instead of %zu%s", f.c_str(), mc::quoted(s).c_str(), ids.size(), want.size(), ids.size() == want.size() ? mc::fmt(" (%u instead of %u)", ids[0], want[0]).c_str() : ""); fiftyoneDegreesEvidenceFree(e); }
MC_SUITE(C22, profile_ids, 2, "every profile id string of up to 6 (thorough 8) characters over digits and separators, every separator byte, ids around the largest, and every field name and prefix kind") {
	if (mc::flip()) { static const char A[] = "10-|"; int n = mc::choose(mc::tier(7, 9)); S s; for (int i = 0; i < n; i++) s += A[mc::choose(4)]; profile("51D_ProfileIds", PX[1], s, true); mc::outcome(mc::fmt("%zu", ids.size())); }
	else {
		for (int b = 1; b < 256; b++) { S c(1, (char)b); profile("ProfileIds", PX[0], "12" + c + "34", true); profile("ProfileIds", PX[0], c + "34", true); profile("ProfileIds", PX[0], "12" + c, true); }
		for (S s : { "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "00000000000000012", "4294967297|5", "12|34|56" }) profile("ProfileIds", PX[0], s, true);
		for (S f : { "ProfileIds", "profileids", "PROFILEIDS", "51D_ProfileIds", "51d_profileids", "ProfileId", "ProfileIdsX", "51D_", "", "51DProfileIds", "51D_51D_ProfileIds" }) for (auto px : PX) profile(f, px, "1|2", (px == PX[0] || px == PX[1]) && low(strip(true, f)) == "profileids");
		Ev* e = fiftyoneDegreesEvidenceCreate(3); fiftyoneDegreesEvidenceAddString(e, PX[0], "ProfileIds", "1|2"); fiftyoneDegreesEvidenceAddString(e, PX[0], "other", "7"); fiftyoneDegreesEvidenceAddString(e, PX[1], "51D_profileIds", "3-1"); ids.clear(); fiftyoneDegreesOverrideProfileIds(e, &ids, onId); MC_CHECK((ids == std::vector<uint32_t>{ 1, 2, 3, 1 }), "overrides:profile-ids", "several entries give %zu ids", ids.size()); fiftyoneDegreesEvidenceFree(e); mc::outcome("fields");
	}
	env::checkBalanced("overrides");
}
MC_SUITE(C22, overriding, 3, "every list of up to 3 (thorough 4) property names over a pool of names with common beginnings") {
	static const std::vector<S> pool = { "a", "aJavaScript", "ab", "A", "abJavaScript", "b", "" }; int n = 1 + mc::choose(mc::tier(3, 4)); std::vector<S> ns; for (int i = 0; i < n; i++) ns.push_back(pool[mc::choose(7)]);
	{ Available av(ns); mc::label("overrides:overriding"); for (int i = 0; i < n; i++) { int want = -1; for (int k = 0; k < n && want < 0; k++) if (k != i && ns[k].size() > ns[i].size() && !ns[k].compare(0, ns[i].size(), ns[i])) want = k; mc::step(); int got = oOverriding(av.a, i); MC_CHECK(got == want, "overrides:overriding", "%s may be overridden by %d, not %d", mc::quoted(ns[i]).c_str(), want, got); } mc::outcome("ok"); }
}
