// FLAVOR: asan
// PROPS: C24
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <map>
#include <memory>
#include <algorithm>
typedef std::string S; typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex; typedef fiftyoneDegreesProfile Pro; typedef fiftyoneDegreesProperty Prop; typedef fiftyoneDegreesValue Val; typedef fiftyoneDegreesComponent Comp;
extern "C" FILE* __wrap_fopen(const char*, const char*); extern "C" int __wrap_fclose(FILE*); // the files the library sees
extern "C" { // not declared extern "C" by the library
const fiftyoneDegreesComponentKeyValuePair* keyValue(Comp*, uint16_t, Ex*) asm("fiftyoneDegreesComponentGetKeyValuePair");
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
void* readComponent(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesComponentReadFromFile"); void* readProfile(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesProfileReadFromFile");
#else
#define fiftyoneDegreesStringRead nullptr
#define fiftyoneDegreesCollectionReadFileFixed nullptr
#define readComponent nullptr
#define readProfile nullptr
#endif
void initComponents(Coll*, fiftyoneDegreesList*, uint32_t, Ex*) asm("fiftyoneDegreesComponentInitList"); uint32_t* profileOffset(Coll*, const uint32_t, uint32_t*, Ex*) asm("fiftyoneDegreesProfileGetOffsetForProfileId");
}
static void clear(Ex& e) { memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; }
static bool bad(const Ex& e) { return e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != FIFTYONE_DEGREES_STATUS_SUCCESS; }
// ---- the data ----------------------------------------------------------------
enum { STRINGS, COMPONENTS, PROFILES, OFFSETS, PROPERTIES, VALUES, TABLES }; static const char* tableName[] = { "strings", "components", "profiles", "profile offsets", "properties", "values" };
struct Table { std::vector<S> recs; std::vector<uint32_t> keys; S body; uint32_t es = 0; uint32_t add(const S& r) { uint32_t k = es ? (uint32_t)recs.size() : (uint32_t)body.size(); recs.push_back(r); keys.push_back(k); body += r; return k; } };
static S raw(const void* p, size_t n) { return S((const char*)p, n); }
static S text(const S& s) { int16_t n = (int16_t)(s.size() + 1); return raw(&n, 2) + s + S(1, 0); }
static S typed(char type, const S& bytes) { int16_t n = (int16_t)(bytes.size() + 1); S r = raw(&n, 2) + type + bytes; return r; }
static S coordinate(float a, float b) { return typed(FIFTYONE_DEGREES_STRING_COORDINATE, raw(&a, 4) + raw(&b, 4)); }
template <class T> static void set(const T& f, T v) { memcpy((void*)&f, &v, sizeof v); }
// A lenient stand-in: every item got is an exact copy of its record, must be given back once, and only to where it came from.
struct Fake { Coll c; int table; }; static Fake fakes[TABLES]; struct Out { char* p; int table; }; static std::map<void*, Out> out; static long gets, failAt; static bool failed; struct Store; static Store* data;
struct Store {
	Table t[TABLES]; Coll* c[TABLES]; int storage = 0; std::unique_ptr<char[]> mem; FILE* file = nullptr; fiftyoneDegreesFilePool pool; bool poolOk = false;
	Store() { memset(c, 0, sizeof c); t[OFFSETS].es = sizeof(fiftyoneDegreesProfileOffset); t[PROPERTIES].es = sizeof(Prop); t[VALUES].es = sizeof(Val); data = this; }
	std::map<S, uint32_t> at; uint32_t str(const S& rec) { auto i = at.find(rec); if (i != at.end()) return i->second; return at[rec] = t[STRINGS].add(rec); }
	uint32_t profile(uint32_t id, const std::vector<uint32_t>& values, byte component = 0) { S b(sizeof(Pro), 0); Pro* p = (Pro*)b.data(); set(p->componentIndex, component); set(p->profileId, id); set(p->valueCount, (uint32_t)values.size()); for (auto v : values) b += raw(&v, 4); return t[PROFILES].add(b); }
	void offset(uint32_t id, uint32_t at) { S b(sizeof(fiftyoneDegreesProfileOffset), 0); auto o = (fiftyoneDegreesProfileOffset*)b.data(); set(o->profileId, id); set(o->offset, at); t[OFFSETS].add(b); }
	void property(const S& name, uint32_t first, uint32_t last, byte type = 0) { S b(sizeof(Prop), 0); Prop* p = (Prop*)b.data(); set(p->nameOffset, str(text(name))); set(p->descriptionOffset, str(text("about " + name))); set(p->categoryOffset, str(text("in " + name))); set(p->urlOffset, str(text("at " + name))); set(p->firstValueIndex, first); set(p->lastValueIndex, last); set(p->valueType, type); t[PROPERTIES].add(b); }
	void value(int16_t property, const S& name) { S b(sizeof(Val), 0); Val* v = (Val*)b.data(); set(v->propertyIndex, property); set(v->nameOffset, (int32_t)str(name)); set(v->descriptionOffset, (int32_t)str(text("about"))); set(v->urlOffset, (int32_t)str(text("url"))); t[VALUES].add(b); }
	void component(byte id, const S& name, uint32_t def, int pairs) { S b(sizeof(Comp) - sizeof(fiftyoneDegreesComponentKeyValuePair), 0); Comp* c = (Comp*)b.data(); set(c->componentId, id); set(c->nameOffset, (int32_t)str(text(name))); set(c->defaultProfileOffset, (int32_t)def); set(c->keyValuesCount, (uint16_t)pairs); for (int i = 0; i < pairs; i++) { uint32_t kv[2] = { id * 100u + i, id * 1000u + i }; b += raw(kv, sizeof(fiftyoneDegreesComponentKeyValuePair)); } t[COMPONENTS].add(b); }
	static void* get(Coll* co, uint32_t k, It* it, Ex* exception) {
		int w = ((Fake*)co)->table; Table& t = data->t[w];
		if (++gets == failAt) { failed = true; exception->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; return nullptr; }
		auto i = std::find(t.keys.begin(), t.keys.end(), k); if (i == t.keys.end()) { exception->status = FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE; return nullptr; }
		const S& r = t.recs[i - t.keys.begin()]; char* p = (char*)malloc(r.size()); memcpy(p, r.data(), r.size()); it->data.ptr = (byte*)p; it->data.used = (uint32_t)r.size(); it->data.allocated = 0; it->collection = co; it->handle = p; out[p] = { p, w }; return p;
	}
	template <int W> static void release(It* it) {
		auto o = out.find(it->handle); MC_CHECK(o != out.end(), "entity:release", "an item of the %s was given back twice or never got", tableName[W]);
		MC_CHECK(o->second.table == W, "entity:other-collection", "an item of the %s was given back to the %s", tableName[o->second.table], tableName[W]); free(o->second.p); out.erase(o); it->data.ptr = nullptr; }
	// storage: 0 stand-ins, 1 memory, 2 file, 3 file behind caches of one entry, 4 partly loaded file behind caches
	void open(int st) {
		storage = st; out.clear(); gets = failAt = 0; failed = false;
		if (st == 0) { static void (*rel[])(It*) = { release<0>, release<1>, release<2>, release<3>, release<4>, release<5> }; memset(fakes, 0, sizeof fakes); for (int i = 0; i < TABLES; i++) { Coll& k = fakes[i].c; fakes[i].table = i; k.get = get; k.release = rel[i]; k.count = (uint32_t)t[i].recs.size(); k.size = (uint32_t)t[i].body.size(); k.elementSize = t[i].es; c[i] = &k; } return; }
		S f = "junkjunk"; uint32_t at[TABLES]; for (int i = 0; i < TABLES; i++) { at[i] = (uint32_t)f.size(); uint32_t n = (uint32_t)t[i].body.size(); f += raw(&n, 4) + t[i].body; }
		Ex e; clear(e); if (st > 1) { env::writeFile("d.bin", f); MC_CHECK(fiftyoneDegreesFilePoolInit(&pool, "d.bin", 2, &e) == FIFTYONE_DEGREES_STATUS_SUCCESS, "entity:pool", "no file pool"); poolOk = true; file = __wrap_fopen("d.bin", "rb"); }
		mem.reset(new char[f.size()]); memcpy(mem.get(), f.data(), f.size()); static const fiftyoneDegreesCollectionFileRead readers[TABLES] = { fiftyoneDegreesStringRead, readComponent, readProfile, fiftyoneDegreesCollectionReadFileFixed, fiftyoneDegreesCollectionReadFileFixed, fiftyoneDegreesCollectionReadFileFixed };
		for (int i = 0; i < TABLES; i++) {
			if (st == 1) { fiftyoneDegreesMemoryReader r; r.startByte = (byte*)mem.get(); r.current = r.startByte + at[i]; r.length = (long)f.size(); r.lastByte = r.startByte + f.size(); auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, t[i].es, false); c[i] = fiftyoneDegreesCollectionCreateFromMemory(&r, h); }
			else { fseek(file, at[i], SEEK_SET); auto h = fiftyoneDegreesCollectionHeaderFromFile(file, t[i].es, false); fiftyoneDegreesCollectionConfig cf = { st == 4 ? 1u : 0u, st == 2 ? 0u : st == 3 ? 1u : 8u, 1 }; c[i] = fiftyoneDegreesCollectionCreateFromFile(file, &pool, &cf, h, readers[i]); }
			MC_CHECK(c[i], "entity:collection", "no collection of %s", tableName[i]);
		}
	}
	void close() {
		if (!mc::memoryOnly) MC_CHECK(out.empty(), "entity:leak", "an item of the %s was not given back", tableName[out.empty() ? 0 : out.begin()->second.table]); if (storage == 0) { env::checkBalanced("entity"); return; }
		for (auto k : c) if (k) k->freeCollection(k); if (file) __wrap_fclose(file); if (poolOk) fiftyoneDegreesFilePoolRelease(&pool); env::checkBalanced("entity");
	}
	~Store() { for (auto& o : out) free(o.second.p); out.clear(); }
};
static void give(Coll* c, It* it) { FIFTYONE_DEGREES_COLLECTION_RELEASE(c, it); }
static It fresh() { It i; memset(&i, 0xA5, sizeof i); fiftyoneDegreesDataReset(&i.data); return i; }
static bool same(const void* p, const S& rec) { return p && !memcmp(p, rec.data(), rec.size()); }
// storage and, with the stand-ins, the number of the request that fails (0 none)
static int pickStorage(long& fail, int most) { int st = mc::choose(5); fail = st == 0 ? mc::choose(most + 1) : 0; mc::note("storage %d fault %ld", st, fail); return st; }
// ---- profiles by identifier and index ------------------------------------------
static const uint32_t IDS[] = { 1, 2, 3, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }; static const std::vector<uint32_t> ASK = { 0, 1, 2, 3, 4, 0x7FFFFFFEu, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu };
MC_SUITE(C24, profiles, 2, "every set of 6 profile identifiers (extremes of the type) with profiles of different sizes stored in either order x 5 storages: every identifier present, absent or 0 and every index, with the n-th read failing for every n") {
	Store d; int set = mc::choose(64); bool back = mc::flip(); std::map<uint32_t, int> rec; std::vector<uint32_t> ids; for (int i = 0; i < 6; i++) if (set >> i & 1) ids.push_back(IDS[i]); std::map<uint32_t, uint32_t> off;
	for (size_t i = 0; i < ids.size(); i++) { size_t j = back ? ids.size() - 1 - i : i; std::vector<uint32_t> v; for (size_t k = 0; k < j % 3; k++) v.push_back(k); off[ids[j]] = d.profile(ids[j], v); rec[ids[j]] = (int)i; } for (auto x : ids) d.offset(x, off[x]);
	long fail; int st = pickStorage(fail, 5); if (st > 0 && ids.empty()) mc::prune(); d.open(st); int what = mc::choose(2); Ex e; clear(e);
	if (what == 0) {
		uint32_t id = mc::pick(ASK); mc::note("profile %u", id); bool there = rec.count(id); failAt = fail ? gets + fail : 0; It it = fresh(); mc::label("profile:by-id"); mc::step(); Pro* p = fiftyoneDegreesProfileGetByProfileId(d.c[OFFSETS], d.c[PROFILES], id, &it, &e); bool hit = failed; failAt = 0;
		if (hit) { MC_CHECK(!p && bad(e), "profile:failed", "a read failed but the result is %s", p ? "a profile" : "only that there is none"); }
		else if (there) { MC_CHECK(!bad(e) && same(p, d.t[PROFILES].recs[rec[id]]), "profile:by-id", "profile %u was not returned (status %d)", id, (int)e.status); give(d.c[PROFILES], &it); }
		else MC_CHECK(!p, "profile:invented", "a profile for the identifier %u that does not exist", id);
		if (!there && !hit && id && !ids.empty()) MC_CHECK(!bad(e), "profile:absent", "status %d for an identifier that does not exist", (int)e.status);
		failed = false; clear(e); failAt = fail ? gets + fail : 0; uint32_t o = 0xABCD; mc::label("profile:offset"); uint32_t* q = profileOffset(d.c[OFFSETS], id, &o, &e); hit = failed; failAt = 0;
		if (hit) MC_CHECK(!q && bad(e), "profile:failed", "a read failed but an offset was returned"); else if (there) MC_CHECK(q == &o && o == off[id] && !bad(e), "profile:offset", "offset %u of profile %u", o, id); else MC_CHECK(!q, "profile:invented", "an offset for the identifier %u that does not exist", id);
	} else {
		uint32_t i = mc::choose((int)ids.size() + 2); if (i == ids.size() + 1) i = UINT32_MAX; mc::note("index %u", i); failAt = fail ? gets + fail : 0; It it = fresh(); mc::label("profile:by-index"); mc::step(); Pro* p = fiftyoneDegreesProfileGetByIndex(d.c[OFFSETS], d.c[PROFILES], i, &it, &e); bool hit = failed; failAt = 0;
		if (hit || i >= ids.size()) MC_CHECK(!p && bad(e), "profile:beyond", "no error for index %u of %zu", i, ids.size()); else { MC_CHECK(!bad(e) && same(p, d.t[PROFILES].recs[rec[ids[i]]]), "profile:by-index", "profile %u was not returned", i); give(d.c[PROFILES], &it); }
	}
	d.close(); mc::outcome(mc::fmt("%d", (int)e.status));
}
// ---- the values of a profile ----------------------------------------------------
struct Called { std::vector<S> recs; std::vector<It> items; int stopAfter; bool hold; int table; std::vector<uint32_t> ids; };
static bool onItem(void* st, It* it) { auto c = (Called*)st; size_t n = c->table == VALUES ? sizeof(Val) : sizeof(Pro) + 4 * ((Pro*)it->data.ptr)->valueCount; c->recs.push_back(raw(it->data.ptr, n)); if (c->table == VALUES) { if (c->hold) c->items.push_back(*it); else give(it->collection, it); } return (int)c->recs.size() != c->stopAfter; }
MC_SUITE(C24, values, 2, "profiles with every subset of 6 (thorough 7) values shared out among 3 properties in every way (also properties without values) x 5 storages, items kept or given back at once: exactly the values of the property, in order, once each, also when the caller stops or the n-th read fails") {
	Store d; int N = mc::tierOf(4, 6, 7), a = mc::choose(N + 1), b = a + mc::choose(N + 1 - a); uint32_t lo[3] = { 0, (uint32_t)a, (uint32_t)b }, hi[3] = { (uint32_t)a, (uint32_t)b, (uint32_t)N }; for (int p = 0; p < 3; p++) { for (uint32_t v = lo[p]; v < hi[p]; v++) d.value(p, text(mc::fmt("v%u", v))); if (lo[p] == hi[p]) d.property(mc::fmt("p%d", p), UINT32_MAX, UINT32_MAX); else d.property(mc::fmt("p%d", p), lo[p], hi[p] - 1); }
	int subset = mc::choose(1 << N); std::vector<uint32_t> vs; for (int i = 0; i < N; i++) if (subset >> i & 1) vs.push_back(i); d.offset(9, d.profile(9, vs)); int p = mc::choose(3); long fail; int st = pickStorage(fail, 3); d.open(st); Called c; c.stopAfter = mc::choose(4); c.hold = st != 3 && mc::flip(); c.table = VALUES; mc::note("values %x split %d,%d property %d stop %d hold %d", subset, a, b, p, c.stopAfter, c.hold); mc::step();
	std::vector<uint32_t> want; for (auto v : vs) if (v >= lo[p] && v < hi[p]) want.push_back(v); if (c.stopAfter && want.size() > (size_t)c.stopAfter) want.resize(c.stopAfter);
	Ex e; clear(e); It pi = fresh(), qi = fresh(); mc::label("values:iterate"); Pro* pro = (Pro*)d.c[PROFILES]->get(d.c[PROFILES], d.t[PROFILES].keys[0], &pi, &e); Prop* prop = fiftyoneDegreesPropertyGet(d.c[PROPERTIES], p, &qi, &e); MC_CHECK(pro && same(prop, d.t[PROPERTIES].recs[p]), "values:property", "property not returned");
	failAt = fail ? gets + fail : 0; uint32_t n = fiftyoneDegreesProfileIterateValuesForProperty(d.c[VALUES], pro, prop, &c, onItem, &e); bool hit = failed; failAt = 0; MC_CHECK(bad(e) == hit, "values:status", "status %d %s a failure", (int)e.status, hit ? "after" : "without"); if (hit) want.resize(fail - 1);
	MC_CHECK(n == want.size() && c.recs.size() == want.size(), "values:count", "%u reported, %zu called back, the profile has %zu", n, c.recs.size(), want.size()); for (size_t i = 0; i < want.size(); i++) MC_CHECK(c.recs[i] == d.t[VALUES].recs[want[i]], "values:order", "call %zu is not value %u", i, want[i]);
	for (size_t i = 0; i < c.items.size(); i++) { MC_CHECK(same(c.items[i].data.ptr, c.recs[i]), "values:held", "a value changed while held"); give(d.c[VALUES], &c.items[i]); } give(d.c[PROFILES], &pi); give(d.c[PROPERTIES], &qi); d.close(); mc::outcome(mc::fmt("%u", n));
}
// ---- by name ---------------------------------------------------------------------
struct Named { S rec, ask; bool operator<(const Named& o) const { return rec < o.rec; } };
static std::vector<Named> vocabulary(int kind) {
	std::vector<Named> v;
	if (kind == 0) for (const char* s : { "", "A", "Aa", "B", "a", "a b" }) v.push_back({ text(s), s });
	if (kind == 1) { static const float F[][2] = { { 0, 1 }, { 1, 0 }, { 1, -1 }, { -1, 1 }, { 51.5f, -0.25f } }; for (auto& f : F) v.push_back({ coordinate(f[0], f[1]), mc::fmt("%g,%g", f[0], f[1]) }); }
	if (kind == 2) { v.push_back({ typed(FIFTYONE_DEGREES_STRING_IP_ADDRESS, S("\x01\x02\x03\x04", 4)), "1.2.3.4" }); v.push_back({ typed(FIFTYONE_DEGREES_STRING_IP_ADDRESS, S("\x01\x02\x03\xff", 4)), "1.2.3.255" }); v.push_back({ typed(FIFTYONE_DEGREES_STRING_IP_ADDRESS, S("\xff\x00\x00\x01", 4)), "255.0.0.1" }); S a = S("\x01\x02\x03\x04", 4) + S(11, 0) + S("\x01"); v.push_back({ typed(FIFTYONE_DEGREES_STRING_IP_ADDRESS, a), "102:304::1" }); v.push_back({ typed(FIFTYONE_DEGREES_STRING_IP_ADDRESS, S(15, 0) + S("\x01")), "::1" }); }
	// the order data files are in: by the bytes, a shorter one first
	std::sort(v.begin(), v.end(), [](const Named& x, const Named& y) { return S(x.rec.begin() + 2, x.rec.end()) < S(y.rec.begin() + 2, y.rec.end()); }); return v;
}
MC_SUITE(C24, names, 2, "every subset of 6 texts, 5 coordinates or 5 IP addresses as the values of the middle one of 3 properties, or of the only one with values, x 5 storages: every value name, absent and malformed names, every property name; the n-th read or memory request failing for every n") {
	Store d; int kind = mc::choose(3); auto V = vocabulary(kind); int subset = mc::choose(1 << V.size()); const bool alone = mc::flip(); const uint32_t base = alone ? 0 : 1; if (!alone) d.value(0, text("first")); std::vector<int> in; for (size_t i = 0; i < V.size(); i++) if (subset >> i & 1) { in.push_back((int)i); d.value(1, V[i].rec); } if (!alone) d.value(2, text("last"));
	d.property("b", alone ? UINT32_MAX : 0, alone ? UINT32_MAX : 0, 3); if (in.empty()) d.property("a", UINT32_MAX, UINT32_MAX, 7); else d.property("a", base, base + (uint32_t)in.size() - 1, 7); d.property("B", alone ? UINT32_MAX : (uint32_t)in.size() + 1, alone ? UINT32_MAX : (uint32_t)in.size() + 1, 250); if (alone && in.empty()) mc::prune();
	std::vector<S> asks; for (auto& v : V) asks.push_back(v.ask); if (kind == 0) for (const char* s : { "first", "last", "Ab", "zz", "0" }) asks.push_back(s); if (kind == 1) for (const char* s : { "2,2", "7", "" }) asks.push_back(s); if (kind == 2) for (const char* s : { "9.9.9.9", "hello", "", "1:2:3:4:5:6:7:8" }) asks.push_back(s);
	int what = mc::choose(3); long fail; int st = pickStorage(fail, what == 1 ? 6 : 7); bool mem = st == 0 && !fail && kind == 2 && what != 1 && mc::flip(); d.open(st); Ex e; clear(e); mc::note("kind %d values %x", kind, subset); mc::step();
	if (what == 1) {
		static const char* P[] = { "b", "a", "B", "", "A", "c", "bb" }; int i = mc::choose(7); mc::note("property %s", P[i]); It it = fresh(); failAt = fail; mc::label("property:by-name"); Prop* p = fiftyoneDegreesPropertyGetByName(d.c[PROPERTIES], d.c[STRINGS], P[i], &it, &e); bool hit = failed; failAt = 0;
		if (hit) MC_CHECK(!p && bad(e), "property:failed", "a read failed but the result is %s with status %d", p ? "a property" : "none", (int)e.status); else { MC_CHECK(!bad(e), "property:status", "status %d", (int)e.status); if (i < 3) { MC_CHECK(same(p, d.t[PROPERTIES].recs[i]), "property:by-name", "property %s was not returned", P[i]); give(d.c[PROPERTIES], &it); } else MC_CHECK(!p, "property:invented", "a property named %s", P[i]); }
		for (uint32_t k = 0; k < 3; k++) {
			clear(e); failed = false; failAt = fail ? gets + fail : 0; mc::label("property:type"); int ty = fiftyoneDegreesPropertyGetValueType(d.c[PROPERTIES], k, &e); if (!failed) MC_CHECK(ty == (k == 0 ? 3 : k == 1 ? 7 : 250) && !bad(e), "property:type", "type %d of property %u", ty, k); failAt = 0; clear(e); It a = fresh(); Prop* q = fiftyoneDegreesPropertyGet(d.c[PROPERTIES], k, &a, &e); MC_CHECK(q, "property:get", "property %u", k);
			typedef fiftyoneDegreesString* (*G)(Coll*, Prop*, It*, Ex*); static const G gs[] = { fiftyoneDegreesPropertyGetName, fiftyoneDegreesPropertyGetDescription, fiftyoneDegreesPropertyGetCategory, fiftyoneDegreesPropertyGetUrl }; static const char* pre[] = { "", "about ", "in ", "at " };
			for (int g = 0; g < 4; g++) { It b = fresh(); auto s = gs[g](d.c[STRINGS], q, &b, &e); MC_CHECK(s && !bad(e) && S(&s->value) == S(pre[g]) + P[k], "property:text", "text %d of property %u", g, k); give(d.c[STRINGS], &b); } give(d.c[PROPERTIES], &a);
		}
	} else {
		S ask = mc::pick(asks); int want = -1; for (size_t i = 0; i < in.size(); i++) if (V[in[i]].ask == ask) want = (int)(i + base); It pi = fresh(), it = fresh(); Prop* p = fiftyoneDegreesPropertyGet(d.c[PROPERTIES], 1, &pi, &e); MC_CHECK(p, "property:get", "property 1"); mc::note("value %s", mc::quoted(ask).c_str());
		failAt = fail ? gets + fail : 0; if (mem) env::failAllocAt = 1 + mc::choose(3); bool hit;
		if (what == 0) { mc::label("value:by-name"); Val* v = fiftyoneDegreesValueGetByName(d.c[VALUES], d.c[STRINGS], p, ask.c_str(), &it, &e); hit = failed || (mem && env::faultsFired); if (hit) { MC_CHECK(!v && bad(e), "value:failed", "a request failed but the result is %s with status %d", v ? "a value" : "none", (int)e.status); } else { MC_CHECK(!bad(e), "value:status", "status %d", (int)e.status); if (want >= 0) { MC_CHECK(same(v, d.t[VALUES].recs[want]), "value:by-name", "value %s was not returned", ask.c_str()); give(d.c[VALUES], &it); } else MC_CHECK(!v, "value:invented", "a value named %s", ask.c_str()); } }
		else { mc::label("value:index"); long i = fiftyoneDegreesValueGetIndexByName(d.c[VALUES], d.c[STRINGS], p, ask.c_str(), &e); hit = failed || (mem && env::faultsFired); if (hit) MC_CHECK(bad(e), "value:failed", "a request failed silently"); else { MC_CHECK(!bad(e), "value:status", "status %d", (int)e.status); MC_CHECK(want >= 0 ? i == want : i < 0, "value:index", "value %s has index %ld, not %d", ask.c_str(), i, want); } }
		failAt = 0; env::failAllocAt = 0; clear(e); It vi = fresh();
		for (uint32_t k = 0; k < d.t[VALUES].recs.size(); k++) {
			Val* v = fiftyoneDegreesValueGet(d.c[VALUES], k, &vi, &e); MC_CHECK(same(v, d.t[VALUES].recs[k]) && !bad(e), "value:get", "value %u", k); It b = fresh(); auto s = fiftyoneDegreesValueGetName(d.c[STRINGS], v, &b, &e); MC_CHECK(s && !bad(e) && s->size == *(int16_t*)d.t[STRINGS].body.substr(((Val*)d.t[VALUES].recs[k].data())->nameOffset, 2).data(), "value:text", "name of value %u", k); give(d.c[STRINGS], &b); fiftyoneDegreesDataReset(&b.data);
			s = fiftyoneDegreesValueGetDescription(d.c[STRINGS], v, &b, &e); MC_CHECK(s && S(&s->value) == "about", "value:text", "description of value %u", k); give(d.c[STRINGS], &b); fiftyoneDegreesDataReset(&b.data); s = fiftyoneDegreesValueGetUrl(d.c[STRINGS], v, &b, &e); MC_CHECK(s && S(&s->value) == "url", "value:text", "url of value %u", k); give(d.c[STRINGS], &b); give(d.c[VALUES], &vi); fiftyoneDegreesDataReset(&vi.data);
		}
		give(d.c[PROPERTIES], &pi);
	}
	d.close(); mc::outcome(mc::fmt("%d", (int)e.status));
}
// ---- profiles with a value ---------------------------------------------------------
MC_SUITE(C24, having, 2, "up to 2 (thorough 3) profiles holding every subset of 4 values of 2 properties x 5 storages, every property and value name and absent ones: exactly the profiles that hold the value, in order, until the caller stops; the n-th read failing for every n") {
	Store d; static const char* VN[] = { "x", "y", "x", "z" }; for (int i = 0; i < 4; i++) d.value(i / 2, text(VN[i])); d.property("one", 0, 1); d.property("two", 2, 3); d.property("none", UINT32_MAX, UINT32_MAX); int n = mc::choose(mc::tierOf(2, 3, 4)); std::vector<int> has; for (int i = 0; i < n; i++) { int s = mc::choose(16); has.push_back(s); std::vector<uint32_t> v; for (int k = 0; k < 4; k++) if (s >> k & 1) v.push_back(k); d.offset(10 + i, d.profile(10 + i, v)); }
	static const char* PN[] = { "one", "two", "none", "other" }; static const char* QN[] = { "x", "y", "z", "w" }; int p = mc::choose(4), q = mc::choose(4); long fail = 0; int st = mc::choose(6); if (st == 5) { st = 0; fail = 1 + mc::choose(14); } if (st > 0 && !n) mc::prune(); d.open(st); Called c; c.stopAfter = mc::choose(3); c.hold = false; c.table = PROFILES; mc::note("storage %d fault %ld, %d profiles, %s=%s stop %d", st, fail, n, PN[p], QN[q], c.stopAfter); mc::step();
	int value = p > 1 ? -1 : q == 0 ? p * 2 : q == 1 && p == 0 ? 1 : q == 2 && p == 1 ? 3 : -1; std::vector<int> want; for (int i = 0; i < n; i++) if (value >= 0 && has[i] >> value & 1) want.push_back(i); if (c.stopAfter && want.size() > (size_t)c.stopAfter) want.resize(c.stopAfter);
	Ex e; clear(e); failAt = fail; mc::label("profiles:iterate"); uint32_t r = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(d.c[STRINGS], d.c[PROPERTIES], d.c[VALUES], d.c[PROFILES], d.c[OFFSETS], PN[p], QN[q], &c, onItem, &e); bool hit = failed; failAt = 0; MC_CHECK(bad(e) == hit, "profiles:status", "status %d %s a failure", (int)e.status, hit ? "after" : "without");
	MC_CHECK(r == c.recs.size(), "profiles:count", "%u reported, %zu called back", r, c.recs.size()); if (!hit) MC_CHECK(r == want.size(), "profiles:count", "%u profiles, %zu hold the value", r, want.size()); else MC_CHECK(r <= want.size(), "profiles:count", "%u profiles after a failure, %zu hold the value", r, want.size());
	if (!hit) for (size_t i = 0; i < want.size(); i++) MC_CHECK(c.recs[i] == d.t[PROFILES].recs[want[i]], "profiles:order", "call %zu is not profile %d", i, want[i]); else { size_t k = 0; for (auto& x : c.recs) { while (k < want.size() && d.t[PROFILES].recs[want[k]] != x) k++; MC_CHECK(k < want.size(), "profiles:order", "a profile that does not hold the value or out of order"); k++; } }
	d.close(); mc::outcome(mc::fmt("%u", r));
}
// ---- components ----------------------------------------------------------------------
MC_SUITE(C24, components, 2, "lists of up to 4 components with 0 to 3 pairs each x 5 storages: the list, every pair and indexes beyond, names, default profiles; the n-th read or the memory request failing for every n") {
	Store d; int n = mc::choose(5); std::vector<int> kv; std::vector<uint32_t> def; for (int i = 0; i < n; i++) { kv.push_back(mc::choose(4)); def.push_back(d.profile(100 + i, std::vector<uint32_t>(i % 3, 1))); } for (int i = 0; i < n; i++) d.component((byte)(i + 1), mc::fmt("c%d", i), def[i], kv[i]);
	int fault = 0, st = mc::choose(7); if (st == 5) { st = 0; fault = 1 + mc::choose(6); } bool noMem = st == 6; if (noMem) st = 0; if (st == 3 && n > 1) mc::prune(); if (st && !n) mc::prune(); d.open(st); mc::note("%d components storage %d fault %d%s", n, st, fault, noMem ? " no memory" : ""); mc::step();
	fiftyoneDegreesList l; fiftyoneDegreesListReset(&l); Ex e; clear(e); failAt = fault; if (noMem) env::failAllocAt = 1; mc::label("components:list"); initComponents(d.c[COMPONENTS], &l, n, &e); bool hit = failed, starved = noMem && env::faultsFired; failAt = 0; env::failAllocAt = 0;
	if (starved || hit) MC_CHECK(bad(e), "components:failed", "a request failed silently"); else { MC_CHECK(!bad(e) && l.count == (uint32_t)n, "components:count", "%u of %d components, status %d", l.count, n, (int)e.status);
		for (int i = 0; i < n; i++) {
			Comp* c = (Comp*)l.items[i].data.ptr; MC_CHECK(same(c, d.t[COMPONENTS].recs[i]), "components:order", "component %d is another one", i); failed = false; It it = fresh(); mc::label("component:pair");
			for (int k = 0; k < kv[i] + 2; k++) { clear(e); auto p = keyValue(c, (uint16_t)(k > kv[i] ? 65535 : k), &e); if (k < kv[i]) MC_CHECK(p && !bad(e) && p->key == (uint32_t)(i + 1) * 100 + k && p->value == (uint32_t)(i + 1) * 1000 + k, "component:pair", "pair %d of component %d", k, i); else MC_CHECK(!p && bad(e), "component:beyond", "pair %d of the %d of component %d", k, kv[i], i); }
			clear(e); auto s = fiftyoneDegreesComponentGetName(d.c[STRINGS], c, &it, &e); MC_CHECK(s && !bad(e) && S(&s->value) == mc::fmt("c%d", i), "component:name", "name of component %d", i); give(d.c[STRINGS], &it);
			mc::label("component:default"); MC_CHECK(fiftyoneDegreesComponentGetDefaultProfileId(d.c[PROFILES], c, &e) == 100u + i && !bad(e), "component:default", "default profile of component %d", i);
			if (st == 0) { failAt = gets + 1; MC_CHECK(fiftyoneDegreesComponentGetDefaultProfileId(d.c[PROFILES], c, &e) == 0 && bad(e), "component:default-failed", "default profile after a failed read"); failAt = 0; }
		}
	}
	mc::label("components:free"); fiftyoneDegreesListFree(&l); d.close(); mc::outcome(mc::fmt("%u", (unsigned)kv.size()));
}
