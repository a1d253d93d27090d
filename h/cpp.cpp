// FLAVOR: asan
// PROPS: C33
// CXX: yes
#include "mc.hpp"
#include "env.hpp"
#include "EngineBase.hpp"
#include "CollectionConfig.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "IpAddress.hpp"
#include "evidence.h"
#include "headers.h"
#include "overrides.h"
#include "properties.h"
#include "status.h"
#include <string.h>
#include <set>
#include <algorithm>
#include <arpa/inet.h>
using namespace FiftyoneDegrees::Common; using FiftyoneDegrees::IpIntelligence::IpAddress;
typedef std::string S; typedef std::vector<S> VS;
static S low(S s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static S show(const VS& v) { S r = "["; for (auto& x : v) r += mc::quoted(x) + " "; return r + "]"; }
// ---- required properties ---------------------------------------------------
static const VS NAMES = { "A", "b", "Alpha", "alphaBeta" };
struct Wanted { VS parts; bool plain = true; S text; bool isText = false; };
static RequiredPropertiesConfig* makeRequired(Wanted& w) {
	int form = mc::choose(10);
	if (form == 0) return new RequiredPropertiesConfig(); if (form == 1) return new RequiredPropertiesConfig((VS*)nullptr); if (form == 2) return new RequiredPropertiesConfig((const VS*)nullptr); if (form == 3) return new RequiredPropertiesConfig((const char*)nullptr); if (form == 4) return new RequiredPropertiesConfig((const S*)nullptr);
	int n = mc::choose(4); bool list = form < 7; for (int i = 0; i < n; i++) { int c = mc::choose((int)NAMES.size() + (list ? 0 : 1)); w.parts.push_back(c < (int)NAMES.size() ? NAMES[c] : ""); }
	if (list) { VS v = w.parts; RequiredPropertiesConfig* r = form == 5 ? new RequiredPropertiesConfig(&v) : new RequiredPropertiesConfig((const VS*)&v); for (auto& x : v) for (auto& c : x) c = '!'; return r; }
	w.isText = true; for (int i = 0; i < n; i++) w.text += (i ? "," : "") + w.parts[i]; w.plain = std::find(w.parts.begin(), w.parts.end(), "") == w.parts.end(); w.parts.erase(std::remove(w.parts.begin(), w.parts.end(), S()), w.parts.end());
	S t = w.text; RequiredPropertiesConfig* r = form == 7 ? new RequiredPropertiesConfig(t.c_str()) : form == 8 ? new RequiredPropertiesConfig((const S&)t) : new RequiredPropertiesConfig((const S*)&t); for (auto& c : t) c = '!'; return r;
}
MC_SUITE(C33, required, 3, "a required properties configuration from every constructor and every list of up to 3 of 4 names (or empty parts), asked for its contents in every order of up to 3 (thorough 4) questions, copied and assigned in between, the original kept or not") {
	Wanted w; RequiredPropertiesConfig* r = makeRequired(w); mc::note("%s %s", show(w.parts).c_str(), w.text.c_str()); int n = 1 + mc::choose(mc::tier(3, 4));
	for (int i = 0; i < n; i++) {
		int q = mc::choose(7); mc::step();
		if (q == 0) { mc::label("required:getProperties"); auto p = r->getProperties(); mc::note("properties"); MC_CHECK(p == w.parts, "required:properties", "%s instead of %s", show(p).c_str(), show(w.parts).c_str()); }
		else if (q == 1) { mc::label("required:getCount"); int c = r->getCount(); mc::note("count"); if (w.plain) MC_CHECK(c == (int)w.parts.size(), "required:count", "%d properties instead of %zu", c, w.parts.size()); }
		else if (q == 2) { mc::label("required:contains"); mc::note("contains"); for (auto& x : NAMES) for (int k = 0; k < 3; k++) { S t = k == 0 ? x : k == 1 ? low(x) : x + "x"; bool in = false; for (auto& y : w.parts) in |= low(y) == low(t); MC_CHECK(r->containsProperty(t) == in && r->containsProperty(t.c_str()) == in, "required:contains", "%s is %s", t.c_str(), in ? "not found" : "found"); } mc::note(" "); }
		else if (q == 3) { mc::label("required:getConfig"); mc::note("config"); auto c = r->getConfig(); if (w.isText) MC_CHECK(c && c->string && w.text == c->string, "required:config", "the text became %s", c && c->string ? mc::quoted(c->string).c_str() : "null"); else { MC_CHECK(c && c->count == (int)w.parts.size() && !c->string && !c->existing, "required:config", "%d entries", c ? c->count : -1); for (int k = 0; k < c->count; k++) MC_CHECK(w.parts[k] == c->array[k], "required:config", "entry %d is %s", k, c->array[k]); } }
		else { mc::label("required:copy"); mc::note(q == 4 ? "copy" : q == 5 ? "assign" : "self"); auto old = r; if (q == 4) { r = new RequiredPropertiesConfig(*old); delete old; } else if (q == 5) { r = new RequiredPropertiesConfig(mc::flip() ? "Zed" : (const char*)nullptr); *r = *old; MC_CHECK(old->getProperties() == w.parts, "required:copied-from", "the original is %s", show(old->getProperties()).c_str()); delete old; } else { auto& me = *r; *r = me; } }
	}
	mc::label("required:delete"); delete r; mc::outcome(show(w.parts)); env::checkBalanced("required");
}
// ---- base configuration ----------------------------------------------------
struct Conc : ConfigBase { using ConfigBase::ConfigBase; };
MC_SUITE(C33, config, 3, "every order of up to 5 (thorough 6) settings of the three flags and of the temporary directories (none to two of them) of a configuration, all of it read back after each") {
	fiftyoneDegreesConfigBase c = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; bool f[3] = { c.usesUpperPrefixedHeaders, c.useTempFile, c.reuseTempFile }; VS dirs; { ConfigBase b(&c); int n = mc::choose(mc::tier(6, 7));
	for (int i = 0; i <= n; i++) {
		if (i) { int o = mc::choose(4); mc::label("config:set"); if (o < 3) { f[o] = mc::flip(); if (o == 0) b.setUseUpperPrefixHeaders(f[0]); else if (o == 1) b.setUseTempFile(f[1]); else b.setReuseTempFile(f[2]); mc::note("flag %d=%d", o, f[o]); } else { dirs.clear(); int k = mc::choose(3); for (int j = 0; j < k; j++) dirs.push_back(mc::flip() ? "/a" : "a long directory name to be kept on the heap"); mc::note("dirs %s", show(dirs).c_str()); VS given = dirs; b.setTempDirectories(given); for (auto& g : given) for (auto& ch : g) ch = '!'; } }
		mc::label("config:get"); mc::step(); MC_CHECK(b.getUseUpperPrefixHeaders() == f[0] && b.getUseTempFile() == f[1] && b.getReuseTempFile() == f[2], "config:flags", "%d %d %d", b.getUseUpperPrefixHeaders(), b.getUseTempFile(), b.getReuseTempFile()); MC_CHECK(c.usesUpperPrefixedHeaders == f[0] && c.useTempFile == f[1] && c.reuseTempFile == f[2], "config:c-flags", "the C structure has %d %d %d", c.usesUpperPrefixedHeaders, c.useTempFile, c.reuseTempFile);
		VS g = b.getTempDirectories(); MC_CHECK(g == dirs, "config:dirs", "%s instead of %s", show(g).c_str(), show(dirs).c_str()); MC_CHECK(c.tempDirCount == (int)dirs.size(), "config:c-dirs", "%d directories for C", c.tempDirCount); for (int k = 0; k < c.tempDirCount; k++) MC_CHECK(dirs[k] == c.tempDirs[k], "config:c-dirs", "directory %d is %s", k, c.tempDirs[k]);
	} mc::label("config:delete"); } mc::outcome(show(dirs)); env::checkBalanced("config");
}
MC_SUITE(C33, collectionconfig, 2, "a collection configuration given every combination of boundary values") {
	static const uint32_t V[] = { 0, 1, 0x7fffffff, 0xffffffff }; fiftyoneDegreesCollectionConfig c; memset(&c, 0x5a, sizeof c); CollectionConfig k(&c); uint32_t a = V[mc::choose(4)], l = V[mc::choose(4)]; uint16_t n = (uint16_t)V[mc::choose(4)]; int order = mc::choose(6); mc::note("%u %u %u order %d", a, l, n, order);
	int p[3] = { 0, 1, 2 }; for (int i = 0; i < order; i++) std::next_permutation(p, p + 3); for (int i : p) if (i == 0) k.setCapacity(a); else if (i == 1) k.setConcurrency(n); else k.setLoaded(l);
	mc::step(); MC_CHECK(k.getCapacity() == a && c.capacity == a && k.getConcurrency() == n && c.concurrency == n && k.getLoaded() == l && c.loaded == l && k.getConfig() == &c, "config:collection", "%u %u %u", k.getCapacity(), k.getConcurrency(), k.getLoaded()); mc::outcome(mc::fmt("%u %u %u", a, l, n));
}
// ---- evidence --------------------------------------------------------------
struct Ev : EvidenceBase { unsigned hidden = 0; bool isRelevant(fiftyoneDegreesEvidencePrefix p) override { return !(hidden & p); } Ev() {} Ev(const Ev& o) : EvidenceBase(o), hidden(o.hidden) {} Ev& operator=(const Ev&) = default; };
static const std::vector<std::pair<S, int>> PRE = { { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE }, { "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER } };
MC_SUITE(C33, evidence, 3, "every order of up to 5 (thorough 6) additions, changes and removals of evidence, clearing, copying and reading, with one kind of evidence irrelevant or not, read at the end") {
	static const VS K = { "header.User-Agent", "query.a", "cookie.c", "nothing" }; Ev* e = new Ev; static const unsigned H[] = { 0, FIFTYONE_DEGREES_EVIDENCE_QUERY }; e->hidden = H[mc::choose(2)]; std::map<S, S> m; int n = mc::choose(mc::tier(6, 7));
	auto read = [&](Ev& x) {
		mc::label("evidence:get"); mc::step(); auto a = x.get(); MC_CHECK(a, "evidence:none", "no evidence"); MC_CHECK(x.size() == m.size() && std::equal(x.begin(), x.end(), m.begin()), "evidence:map", "reading changed the map"); uint32_t i = 0;
		for (auto& kv : m) for (auto& p : PRE) if (!kv.first.compare(0, p.first.size(), p.first) && !(p.second & x.hidden)) { MC_CHECK(i < a->count, "evidence:missing", "%s is missing", kv.first.c_str()); auto& it = a->items[i++]; MC_CHECK((int)it.prefix == p.second && kv.first.substr(p.first.size()) == it.field && kv.second == (const char*)it.originalValue, "evidence:item", "item %u is %d %s %s for %s", i - 1, it.prefix, it.field, (const char*)it.originalValue, kv.first.c_str()); }
		MC_CHECK(a->count == i, "evidence:extra", "%u items instead of %u", a->count, i);
	};
	for (int i = 0; i < n; i++) {
		int o = mc::choose(7); mc::step();
		if (o == 0) { auto& k = mc::pick(K); S v = mc::flip() ? "one" : ""; mc::note("%s=%s", k.c_str(), v.c_str()); mc::label("evidence:assign"); (*e)[k] = v; m[k] = v; }
		else if (o == 1) { mc::note("get"); read(*e); }
		else if (o == 2) { mc::note("clear"); mc::label("evidence:clear"); e->clear(); m.clear(); }
		else if (o == 3) { if (m.empty()) mc::prune(); int at = mc::choose((int)m.size()); mc::note("erase %d", at); mc::label("evidence:erase"); auto p = e->begin(); std::advance(p, at); auto q = m.begin(); std::advance(q, at); e->erase(p); m.erase(q); }
		else if (o == 4) { int a = mc::choose((int)m.size() + 1), b = a + mc::choose((int)m.size() - a + 1); mc::note("erase [%d,%d)", a, b); mc::label("evidence:erase-range"); auto p = e->begin(), q = p; std::advance(p, a); std::advance(q, b); auto r = m.begin(), s = r; std::advance(r, a); std::advance(s, b); e->erase(p, q); m.erase(r, s); }
		else if (o == 5) { mc::note("copy"); mc::label("evidence:copy"); auto old = e; e = new Ev(*old); read(*old); delete old; }
		else { mc::note("assign"); mc::label("evidence:assign-all"); auto old = e; e = new Ev; (*e)["header.old"] = "old"; if (mc::flip()) e->get(); *e = *old; read(*old); delete old; }
	}
	read(*e); mc::label("evidence:delete"); delete e; mc::outcome(mc::fmt("%zu", m.size())); env::checkBalanced("evidence-map");
}
// ---- values ----------------------------------------------------------------
typedef fiftyoneDegreesResultsNoValueReason Why; static const int WHYS = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN + 1;
// The class of exception that reading a value throws: 'i'nvalid property, 'm'any values, 'n'one available, 0 not at all
template <class T> static char thrown(Value<T>& v, bool star, S* what = nullptr) {
	try { if (star) (void)*v; else (void)v.getValue(); return 0; } catch (InvalidPropertyException& e) { if (what) *what = e.what(); return 'i'; } catch (TooManyValuesException& e) { if (what) *what = e.what(); return 'm'; } catch (NoValuesAvailableException& e) { if (what) *what = e.what(); return 'n'; } catch (...) { return '?'; }
}
static char expected(int why) { return why == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY ? 'i' : why == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES ? 'm' : 'n'; }
template <class T> static void values(const std::vector<T>& pool) {
	Value<T> v; bool has = false; int at = 0, why = -1; const char* msg = nullptr; S kept[3] = { "zero", "one", "" }; int n = mc::choose(mc::tier(4, 5));
	for (int i = 0; i <= n; i++) {
		if (i) { if (mc::flip()) { at = mc::choose((int)pool.size()); mc::label("value:set"); v.setValue(pool[at]); has = true; mc::note("set %d", at); } else { if (has) mc::prune(); why = mc::choose(WHYS); int k = mc::choose(3); msg = k == 2 ? nullptr : kept[k].c_str(); v.setNoValueReason((Why)why, msg); mc::note("reason %d %s", why, msg); } }
		mc::step(); for (int star = 0; star < 2; star++) {
			mc::label("value:get"); S what; char t = thrown(v, star, &what); MC_CHECK(v.hasValue() == has, "value:has", "%d", v.hasValue()); if (has) { MC_CHECK(!t, "value:thrown", "a value was set but reading it throws"); T got = star ? *v : v.getValue(); MC_CHECK(got == pool[at], "value:other", "not the value set"); continue; }
			MC_CHECK(t == expected(why), "value:exception", "reason %d throws '%c'", why, t); MC_CHECK(!what.empty(), "value:what", "reason %d throws an exception without text", why); if (why >= 0) { MC_CHECK(v.getNoValueReason() == (Why)why, "value:reason", "%d", v.getNoValueReason()); MC_CHECK(v.getNoValueMessage() == msg || (msg && v.getNoValueMessage() && !strcmp(msg, v.getNoValueMessage())), "value:message", "another message"); if (t == 'i' && msg) MC_CHECK(what == msg, "value:what", "throws %s", what.c_str()); }
		}
	}
	mc::outcome(mc::fmt("%d %d", has, why));
}
MC_SUITE(C33, value, 3, "a value of each of five types taken through every order of up to 3 (thorough 4) settings of the reason for having none (all of them, with and without a message) and of the value") {
	switch (mc::choose(5)) { case 0: values<int>({ 0, -1, 51 }); break; case 1: values<S>({ "", "some text which is long enough for the heap" }); break; case 2: values<bool>({ false, true }); break; case 3: values<double>({ 0, 2.5 }); break; default: values<VS>({ {}, { "a" }, { "a", "b", "" } }); }
}
// ---- results ---------------------------------------------------------------
struct Avail { fiftyoneDegreesPropertiesAvailable* a; std::vector<char*> mem; Avail(const VS& n) { a = (fiftyoneDegreesPropertiesAvailable*)calloc(1, sizeof *a + (n.size() + 1) * sizeof(fiftyoneDegreesPropertyAvailable)); a->items = (fiftyoneDegreesPropertyAvailable*)(a + 1); a->count = a->capacity = (uint32_t)n.size(); for (size_t i = 0; i < n.size(); i++) { char* b = (char*)malloc(n[i].size() + 3); int16_t l = (int16_t)(n[i].size() + 1); memcpy(b, &l, 2); memcpy(b + 2, n[i].c_str(), l); a->items[i].name.data.ptr = (byte*)b; a->items[i].propertyIndex = (uint32_t)i; mem.push_back(b); } } ~Avail() { for (auto p : mem) free(p); free(a); } };
struct Res : ResultsBase {
	std::vector<VS> vals; std::vector<int> why; VS msgs; fiftyoneDegreesResultsBase* raw; int asked = -2;
	Res(fiftyoneDegreesResultsBase* r) : ResultsBase(r, nullptr) { for (int i = 0; i < WHYS; i++) msgs.push_back(mc::fmt("reason %d", i)); }
	bool bad(int i) { return i < 0 || i >= (int)vals.size(); }
	void getValuesInternal(int i, VS& v) override { MC_CHECK(!bad(i), "results:internal", "values of property %d asked for", i); for (auto& x : vals[i]) v.push_back(x); }
	bool hasValuesInternal(int i) override { asked = i; return !bad(i) && why[i] < 0; }
	const char* getNoValueMessageInternal(Why w) override { return msgs[w].c_str(); }
	Why getNoValueReasonInternal(int i) override { return bad(i) ? FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY : (Why)why[i]; }
};
enum How { INDEX, CHARS, STR, PSTR };
#define ASK(M) (how == INDEX ? r.M(i) : how == CHARS ? r.M(n.c_str()) : how == STR ? r.M((const S&)n) : r.M(&n))
template <class T> static void judge(const char* what, Res& r, int i, Value<T> v, bool want, const T& w, int why) {
	mc::step(); MC_CHECK(v.hasValue() == want, "results:has", "%s of property %d %s a value", what, i, want ? "has not" : "has"); if (want) { MC_CHECK(v.getValue() == w, "results:value", "%s of property %d is not the one it has", what, i); return; }
	MC_CHECK(v.getNoValueReason() == (Why)why, "results:reason", "%s of property %d: reason %d instead of %d", what, i, v.getNoValueReason(), why); MC_CHECK(v.getNoValueMessage() && r.msgs[why] == v.getNoValueMessage(), "results:message", "%s of property %d with reason %d has %s message", what, i, why, v.getNoValueMessage() ? "another" : "no"); MC_CHECK(thrown(v, false) == expected(why), "results:exception", "%s of property %d", what, i);
}
MC_SUITE(C33, results, 3, "results of two properties, one of which has every list of up to 4 (thorough 5) of 9 values or none for each of the reasons, each conversion asked for by index and name in every form, also for a property that is not there") {
	static const VS N = { "Alpha", "Beta" }, P = { "True", "False", "true", "", "7", "-12", "2.5", "abc", "True|False" }; Avail a(N); static fiftyoneDegreesDataSetBase& ds = *(fiftyoneDegreesDataSetBase*)calloc(1, sizeof(fiftyoneDegreesDataSetBase)); ds.available = a.a; fiftyoneDegreesResultsBase rb; memset(&rb, 0, sizeof rb); MC_CHECK(fiftyoneDegreesResultsInit(&rb, &ds) == &rb && rb.dataSet == &ds, "results:init", "the results are not those of the data set"); mc::label("results:create"); Res r(&rb); int me = mc::choose(2); VS v; int why = -1;
	if (mc::flip()) why = mc::choose(WHYS); else { int n = 1 + mc::choose(mc::tier(4, 5)); for (int k = 0; k < n; k++) v.push_back(mc::pick(P)); } r.vals = { { "x" }, { "x" } }; r.why = { -1, -1 }; r.vals[me] = v; r.why[me] = why; mc::note("%d %s %d", me, show(v).c_str(), why);
	MC_CHECK(r.getAvailableProperties() == 2 && r.getProperties() == N, "results:properties", "%s", show(r.getProperties()).c_str()); for (auto& n : { "Alpha", "beta", "BETA", "Gamma", "", "Alph", "Alphaa" }) { bool in = low(n) == "alpha" || low(n) == "beta"; MC_CHECK(r.containsProperty(n) == in, "results:contains", "%s", n); }
	for (int k : { -1, 0, 1, 2, INT_MAX, INT_MIN }) MC_CHECK(r.getPropertyName(k) == (k == 0 || k == 1 ? N[k] : ""), "results:name", "property %d is %s", k, r.getPropertyName(k).c_str());
	How how = (How)mc::choose(4); int i = mc::choose(3); S n = i < 2 ? N[i] : "Gamma"; if (i == 2) { i = -1; } bool here = i >= 0; int no = here ? r.why[i] : FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY; bool has = here && no < 0; const VS vs = has ? r.vals[i] : VS(); bool one = vs.size() == 1; S first = one ? vs[0] : ""; int many = has ? FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES : no; S all; for (auto& x : vs) all += (all.empty() && &x == &vs[0] ? "" : "|") + x;
	mc::label("results:values"); judge<VS>("the list", r, i, ASK(getValues), has, vs, no); MC_CHECK(r.asked == i, "results:index", "property %d was asked for %d", r.asked, i); mc::label("results:string"); judge<S>("the text", r, i, ASK(getValueAsString), has, all, no); mc::label("results:bool"); judge<bool>("the boolean", r, i, ASK(getValueAsBool), one, first == "True", many);
	mc::label("results:int"); judge<int>("the integer", r, i, ASK(getValueAsInteger), one, atoi(first.c_str()), many); mc::label("results:double"); judge<double>("the number", r, i, ASK(getValueAsDouble), one, strtod(first.c_str(), nullptr), many); mc::outcome(all);
}
// ---- engine ----------------------------------------------------------------
struct Eng : EngineBase {
	using EngineBase::EngineBase; using EngineBase::initHttpHeaderKeys; using EngineBase::initOverrideKeys; using EngineBase::addKey; using EngineBase::appendString; using EngineBase::manager; using EngineBase::metaData;
	ResultsBase* processBase(EvidenceBase*) const override { return nullptr; } void refreshData() const override {} void refreshData(const char*) const override {} void refreshData(void*, long) const override {} void refreshData(unsigned char[], long) const override {} S getDataFilePath() const override { return ""; } S getDataFileTempPath() const override { return ""; } Date getPublishedTime() const override { return Date(); } Date getUpdateAvailableTime() const override { return Date(); } S getProduct() const override { return "Prod"; } S getType() const override { return "Type"; }
};
#define SEP "\x1f"
static VS headerNames; static fiftyoneDegreesCollection headerColl; static int headersOut; static long getHeader(void*, uint32_t i, fiftyoneDegreesCollectionItem* it) { if (i >= headerNames.size()) return -1; size_t n = headerNames[i].size() + 1; char* b = (char*)malloc(n + 2); int16_t l = (int16_t)n; memcpy(b, &l, 2); memcpy(b + 2, headerNames[i].c_str(), n); it->data.ptr = (byte*)b; it->data.used = it->data.allocated = (uint32_t)n + 2; it->collection = &headerColl; it->handle = b; headersOut++; return (long)i + 1; }
MC_SUITE(C33, engine, 3, "the evidence keys of an engine for every list of up to 3 of 5 headers (pseudo headers among them) and up to 2 override properties, with and without upper case prefixes, filled in once or twice; the update address for every combination") {
	fiftyoneDegreesConfigBase c = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; ConfigBase b(&c); bool upper = mc::flip(); b.setUseUpperPrefixHeaders(upper); RequiredPropertiesConfig req; VS want; auto add = [&](const S& s) { if (std::find(want.begin(), want.end(), s) == want.end()) want.push_back(s); };
	{ mc::label("engine:create"); Eng e(&b, &req); memset((void*)&headerColl, 0, sizeof headerColl); headerColl.release = [](fiftyoneDegreesCollectionItem* it) { free(it->handle); it->handle = nullptr; headersOut--; };
	int mode = mc::choose(2);
	if (mode == 0) {
		static const VS POOL = { "User-Agent", "x", "a" SEP "x", "x" SEP "b", "A" }; headerNames.clear(); int n = mc::choose(4); for (int i = 0; i < n; i++) headerNames.push_back(mc::pick(POOL)); auto h = fiftyoneDegreesHeadersCreate(upper, nullptr, getHeader); if (!h) mc::prune(); int twice = mc::choose(2); mc::note("headers"); for (uint32_t i = 0; i < h->count; i++) { S x = h->items[i].name; mc::note(" %s", mc::quoted(x).c_str()); if (x.find(SEP) == S::npos) for (auto p : { "header.", "query." }) add(p + S(upper ? "HTTP_" : "") + x); }
		Avail av({ "Alpha", "Beta" }); int k = mc::choose(3); bool prefix = mc::flip(); auto o = (fiftyoneDegreesOverridePropertyArray*)calloc(1, sizeof(fiftyoneDegreesOverridePropertyArray) + 3 * sizeof(fiftyoneDegreesOverrideProperty)); o->items = (fiftyoneDegreesOverrideProperty*)(o + 1); o->count = o->capacity = k; o->prefix = prefix; for (int i = 0; i < k; i++) { o->items[i].available = &av.a->items[i]; o->items[i].requiredPropertyIndex = i; for (auto p : { "cookie.", "query." }) add(p + S(prefix ? "51D_" : "") + (i ? "Beta" : "Alpha")); }
		for (int i = 0; i <= twice; i++) { mc::label("engine:keys"); e.initHttpHeaderKeys(h); e.initOverrideKeys(k ? o : nullptr); } mc::step(); VS got = *e.getKeys(); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); MC_CHECK(got == want, "engine:keys", "%s instead of %s", show(got).c_str(), show(want).c_str()); free(o); fiftyoneDegreesHeadersFree(h); MC_CHECK(!headersOut, "engine:headers", "%d names still held", headersOut);
	} else {
		static const VS U = { "", "https://x/" }, L = { "", "KEY" }; S u = mc::pick(U), l = mc::pick(L); int order = mc::choose(2); mc::note("update %s %s", u.c_str(), l.c_str()); for (int i = 0; i < 2; i++) if (i == order) e.setDataUpdateUrl(u); else e.setLicenseKey(l); S w = !u.empty() ? u : l.empty() ? "" : "https://distributor.51degrees.com/api/v2/download?LicenceKeys=KEY&Type=Type&Product=Prod"; mc::step();
		for (int i = 0; i < 2; i++) { MC_CHECK(e.getDataUpdateUrl() == w, "engine:update", "%s", e.getDataUpdateUrl().c_str()); MC_CHECK(e.getAutomaticUpdatesEnabled() == !w.empty(), "engine:automatic", "%d", e.getAutomaticUpdatesEnabled()); } MC_CHECK(e.getMetaData() == nullptr && e.getIsThreadSafe() == fiftyoneDegreesThreadingGetIsThreadSafe(), "engine:misc", "meta data or thread safety");
	}
	mc::label("engine:delete"); } mc::outcome(show(want)); env::checkBalanced("engine");
}
// A data set shared by an engine and what it handed out is freed once, when the engine goes.
static int resourcesFreed; static void freeResource(void* p) { resourcesFreed++; free(p); }
MC_SUITE(C33, lifetime, 2, "an engine that owns a data set, deleted before or after what shares its manager, a handle of the data set given back before or after") {
	fiftyoneDegreesConfigBase c = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; ConfigBase b(&c); RequiredPropertiesConfig req; resourcesFreed = 0; Eng* e = new Eng(&b, &req); std::shared_ptr<fiftyoneDegreesResourceManager> m = e->manager; void* r = malloc(16); fiftyoneDegreesResourceHandle* h = nullptr; int use = mc::choose(3); mc::note("use %d", use); if (use) { fiftyoneDegreesResourceManagerInit(m.get(), r, &h, freeResource); MC_CHECK(h, "engine:resource", "no resource"); if (use == 2) fiftyoneDegreesResourceHandleIncUse(m.get()); } else free(r);
	int keep = use == 2 || mc::flip(); if (!keep) m.reset(); mc::label("engine:delete"); delete e; if (use) { MC_CHECK(resourcesFreed == (use == 1), "engine:freed", "freed %d times", resourcesFreed); if (use == 2) { fiftyoneDegreesResourceHandleDecUse(h); MC_CHECK(resourcesFreed == 1, "engine:freed", "freed %d times after the last handle", resourcesFreed); } } m.reset(); MC_CHECK(resourcesFreed == (use > 0), "engine:freed", "freed %d times", resourcesFreed); mc::outcome(mc::fmt("%d", use)); env::checkBalanced("engine");
}
// ---- strings of a data set -------------------------------------------------
struct Meta : MetaData {
	Meta() : MetaData(nullptr) {} using MetaData::getString; typedef Collection<byte, ComponentMetaData> C; typedef Collection<S, PropertyMetaData> P; typedef Collection<uint32_t, ProfileMetaData> F; typedef Collection<ValueMetaDataKey, ValueMetaData> V;
	C* getComponents() const override { return nullptr; } P* getProperties() const override { return nullptr; } F* getProfiles() const override { return nullptr; } V* getValues() const override { return nullptr; } V* getValuesForProperty(PropertyMetaData*) const override { return nullptr; } V* getValuesForProfile(ProfileMetaData*) const override { return nullptr; } ComponentMetaData* getComponentForProfile(ProfileMetaData*) const override { return nullptr; } ComponentMetaData* getComponentForProperty(PropertyMetaData*) const override { return nullptr; } ProfileMetaData* getDefaultProfileForComponent(ComponentMetaData*) const override { return nullptr; } ValueMetaData* getDefaultValueForProperty(PropertyMetaData*) const override { return nullptr; } P* getPropertiesForComponent(ComponentMetaData*) const override { return nullptr; } PropertyMetaData* getPropertyForValue(ValueMetaData*) const override { return nullptr; } P* getEvidencePropertiesForProperty(PropertyMetaData*) const override { return nullptr; }
};
struct Builder : EntityMetaDataBuilder { using EntityMetaDataBuilder::getString; };
static VS strs; static int strOut; static bool strFail; static std::vector<std::vector<char>> strBytes;
static void* getStr(fiftyoneDegreesCollection*, uint32_t o, fiftyoneDegreesCollectionItem* it, fiftyoneDegreesException* ex) { if (strFail || o >= strs.size()) { ex->status = FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL; return nullptr; } strOut++; it->data.ptr = (byte*)strBytes[o].data(); it->data.used = (uint32_t)strBytes[o].size(); it->collection = &headerColl; it->handle = it->data.ptr; return it->data.ptr; }
MC_SUITE(C33, strings, 2, "the text of every string of a data set read for the meta data and for messages, the read failing or not: what was stored, or an exception, and every item given back") {
	strs = { "", "a", "some longer text" }; strBytes.clear(); for (auto& s : strs) { std::vector<char> b(2 + s.size() + 1); int16_t l = (int16_t)(s.size() + 1); memcpy(b.data(), &l, 2); memcpy(b.data() + 2, s.c_str(), l); strBytes.push_back(b); } strOut = 0; memset((void*)&headerColl, 0, sizeof headerColl); headerColl.get = getStr; headerColl.release = [](fiftyoneDegreesCollectionItem* it) { MC_CHECK(it->handle, "strings:release", "given back twice"); it->handle = nullptr; strOut--; };
	int n = 1 + mc::choose(3); fiftyoneDegreesConfigBase c = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; ConfigBase b(&c); RequiredPropertiesConfig req; Eng e(&b, &req); Meta md; std::stringstream st; S all;
	for (int i = 0; i < n; i++) { int how = mc::choose(3), o = mc::choose((int)strs.size() + 1); strFail = mc::flip(); bool ok = !strFail && o < (int)strs.size(); mc::note("%d of %d%s", how, o, strFail ? " failing" : ""); mc::label("strings:get"); mc::step(); bool threw = false; S got;
		try { if (how == 0) got = md.getString(&headerColl, o); else if (how == 1) got = Builder::getString(&headerColl, o); else e.appendString(st, &headerColl, o); } catch (FatalException& x) { threw = true; MC_CHECK(x.getCode() == FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL, "strings:code", "status %d", x.getCode()); }
		MC_CHECK(threw == !ok, "strings:thrown", ok ? "a good read throws" : "a failed read is silent"); if (ok && how < 2) MC_CHECK(got == strs[o], "strings:text", "%s", got.c_str()); if (ok && how == 2) all += strs[o]; MC_CHECK(st.str() == all, "strings:appended", "%s", st.str().c_str()); MC_CHECK(strOut == 0, "strings:held", "%d items held", strOut); }
	mc::outcome(all); env::checkBalanced("strings");
}
// ---- small classes ---------------------------------------------------------
MC_SUITE(C33, address, 2, "IP addresses from bytes of each type and from standard texts, copied out into memory of every size up to 18") {
	unsigned char raw[16]; for (int i = 0; i < 16; i++) raw[i] = (unsigned char)(0xF0 - 13 * i); int form = mc::choose(4); IpAddress a; int type = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID; unsigned char want[16] = { 0 };
	if (form == 1) { type = (mc::flip() ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4); size_t n = type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16; unsigned char* x = (unsigned char*)malloc(n); memcpy(x, raw, n); memcpy(want, raw, n); mc::label("address:bytes"); a = IpAddress(x, (fiftyoneDegreesEvidenceIpType)type); free(x); }
	else if (form == 2) { unsigned char x[1] = { 0 }; a = IpAddress(x, FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID); }
	else if (form == 3) { static const VS T = { "0.0.0.0", "1.2.3.4", "255.255.255.255", "::", "::1", "1::", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4" }; const S& s = mc::pick(T); bool v6 = s.find(':') != S::npos; type = v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4; inet_pton(v6 ? AF_INET6 : AF_INET, s.c_str(), want); mc::note("%s", s.c_str()); mc::label("address:text"); a = IpAddress(s.c_str()); }
	mc::step(); MC_CHECK((int)a.getType() == type, "address:type", "%d", a.getType()); size_t n = type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16; MC_CHECK(!memcmp(a.getIpAddress(), want, n), "address:bytes", "other bytes");
	for (uint32_t k = 0; k <= 18; k++) { unsigned char* o = (unsigned char*)malloc(k); memset(o, 0x77, k); mc::label("address:copy"); a.getCopyOfIpAddress(o, k); for (uint32_t i = 0; i < k; i++) MC_CHECK(o[i] == (i < n ? want[i] : 0x77), "address:copy", "byte %u of %u is %02x", i, k, o[i]); free(o); }
	mc::outcome(mc::fmt("%d", type)); env::checkBalanced("address");
}
MC_SUITE(C33, metadata, 3, "property, value, component and profile meta data of every combination of distinct field values, made, copied and compared") {
	static const VS T = { "", "x", "invalid", "long text which does not fit in place" }; int kind = mc::choose(5);
	if (kind == 0) { VS files; if (mc::flip()) files = { "a", "b" }; std::vector<uint32_t> ev; if (mc::flip()) ev = { 3, 0xffffffff }; bool f[6]; for (auto& x : f) x = mc::flip(); byte d = mc::flip() ? 255 : 3, ci = mc::flip() ? 255 : 9; PropertyMetaData p("n", files, "t", "c", "u", f[0], d, f[1], f[2], f[3], f[4], f[5], "de", "dv", ci, ev), q(&p); for (auto x : { &p, &q }) { mc::step(); MC_CHECK(x->getName() == "n" && x->getKey() == "n" && x->getDataFilesWherePresent() == files && x->getType() == "t" && x->getCategory() == "c" && x->getUrl() == "u" && x->getAvailable() == f[0] && x->getDisplayOrder() == d && x->getIsMandatory() == f[1] && x->getIsList() == f[2] && x->getIsObsolete() == f[3] && x->getShow() == f[4] && x->getShowValues() == f[5] && x->getDescription() == "de" && x->getDefaultValue() == "dv" && x->getComponentId() == ci && x->getEvidenceProperties() == ev, "metadata:property", "a field of the %s differs", x == &p ? "original" : "copy"); } MC_CHECK(p == q && !(p != q), "metadata:equal", "a copy differs"); }
	else if (kind == 1) { S a = mc::pick(T), b = mc::pick(T), c = mc::pick(T), d = mc::pick(T); ValueMetaData v(ValueMetaDataKey(a, b), c, d), w(&v); for (auto x : { &v, &w }) { mc::step(); MC_CHECK(x->getName() == b && x->getDescription() == c && x->getUrl() == d && x->getKey().getPropertyName() == a && x->getKey().getValueName() == b, "metadata:value", "a field differs"); } }
	else if (kind == 2) { static const std::vector<int> I = { 0, 1, 127, 128, 255 }; byte i = (byte)mc::pick(I); S n = mc::pick(T); uint32_t d = mc::flip() ? 0xffffffff : 5; ComponentMetaData c(i, n, d), e(&c); for (auto x : { &c, &e }) { mc::step(); MC_CHECK(x->getComponentId() == i && x->getComponentIdAsInt() == i && x->getName() == n && x->getDefaultProfileId() == d && x->getKey() == i, "metadata:component", "a field differs"); } ComponentMetaData o((byte)(i + 1), n, d); MC_CHECK(c == e && c != o && !(c == o), "metadata:equal", "comparison"); }
	else if (kind == 3) { uint32_t id = mc::flip() ? 0xffffffff : 7; byte c = mc::flip() ? 255 : 0; ProfileMetaData p(id, c), q(&p); for (auto x : { &p, &q }) { mc::step(); MC_CHECK(x->getProfileId() == id && x->getComponentId() == c, "metadata:profile", "a field differs"); } fiftyoneDegreesDate dt; dt.year = (int16_t)(mc::flip() ? 2024 : 32767); dt.month = 12; dt.day = (byte)(mc::flip() ? 31 : 1); Date D(&dt), Z; MC_CHECK(D.getYear() == dt.year && D.getMonth() == 12 && D.getDay() == dt.day && !Z.getYear() && !Z.getMonth() && !Z.getDay(), "metadata:date", "%d-%d-%d", D.getYear(), D.getMonth(), D.getDay()); }
	else { std::vector<ValueMetaDataKey> k; for (int i = 0; i < 3; i++) { const S& a = mc::pick(T); k.push_back({ a, mc::pick(T) }); } auto lt = [&](int a, int b) { return (bool)(k[a] < k[b]); }; auto eq = [&](int a, int b) { return k[a].getPropertyName() == k[b].getPropertyName() && k[a].getValueName() == k[b].getValueName(); }; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { mc::step(); MC_CHECK((bool)(k[a] == k[b]) == eq(a, b), "metadata:key-equal", "keys"); MC_CHECK(lt(a, b) + lt(b, a) + eq(a, b) == 1, "metadata:key-order", "two keys are not in one order"); } if (lt(0, 1) && lt(1, 2)) MC_CHECK(lt(0, 2), "metadata:key-order", "the order is not transitive"); }
	mc::outcome(mc::fmt("%d", kind));
}
MC_SUITE(C33, exceptions, 2, "an exception of every status, with and without a file name, memory for the text failing or not: its code and text are those of the status") {
	int st = mc::choose(FIFTYONE_DEGREES_STATUS_INVALID_CONFIG + 1); int file = mc::choose(3); env::memFaults = mc::choose(2); bool fatal = mc::flip(); mc::note("status %d file %d fatal %d", st, file, fatal); S want; const char* f = file == 0 ? nullptr : file == 1 ? "" : "some file.dat"; { int m = env::memFaults; env::memFaults = 0; if (fatal) { fiftyoneDegreesException e; memset(&e, 0, sizeof e); e.status = (fiftyoneDegreesStatusCode)st; e.file = "f"; e.func = "g"; e.line = 3; auto w = fiftyoneDegreesExceptionGetMessage(&e); want = w; fiftyoneDegreesFree((void*)w); } else { auto w = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)st, f); want = w; fiftyoneDegreesFree((void*)w); } env::memFaults = m; } env::faultsFired = false; mc::step(); mc::label("exceptions:create");
	try { if (fatal) { fiftyoneDegreesException e; memset(&e, 0, sizeof e); e.status = (fiftyoneDegreesStatusCode)st; e.file = "f"; e.func = "g"; e.line = 3; throw FatalException(&e); } if (file) throw StatusCodeException((fiftyoneDegreesStatusCode)st, f); throw StatusCodeException((fiftyoneDegreesStatusCode)st); }
	catch (StatusCodeException& e) { MC_CHECK((int)e.getCode() == st, "exceptions:code", "%d", e.getCode()); if (!env::faultsFired) MC_CHECK(want == e.what(), "exceptions:text", "%s instead of %s", e.what(), want.c_str()); else MC_CHECK(e.what(), "exceptions:text", "no text"); StatusCodeException copy(e); MC_CHECK(S(copy.what()) == e.what() && copy.getCode() == e.getCode(), "exceptions:copy", "a copy differs"); }
	mc::outcome(want); env::checkBalanced("exceptions");
}
