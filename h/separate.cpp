// FLAVOR: sched
// PROPS: C37
// Calls of different threads that share nothing, or only data nobody changes, must do what they do alone.
#include "mc.hpp"
#include "sched.hpp"
extern "C" {
#include "tree.h"
}
#include "fiftyone.h"
#include "textfile.h"
#include <string.h>
#include <map>
#include <memory>
#include <algorithm>
typedef std::string S; typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex; typedef fiftyoneDegreesProfile Pro; typedef fiftyoneDegreesProperty Prop; typedef fiftyoneDegreesValue Val; typedef fiftyoneDegreesComponent Comp; typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev; typedef fiftyoneDegreesEvidenceKeyValuePair Pair; typedef fiftyoneDegreesPropertiesAvailable Avail; typedef fiftyoneDegreesOverrideValueArray Vals; typedef fiftyoneDegreesOverridePropertyArray Props; typedef fiftyoneDegreesString Str;
extern "C" FILE* __wrap_fopen(const char*, const char*); extern "C" int __wrap_fclose(FILE*); extern "C" int __wrap_fseek(FILE*, long, int); // the files the library sees
extern "C" {
Props* oCreate(Avail*, bool, void*, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate"); void oFree(Props*) asm("fiftyoneDegreesOverridePropertiesFree"); uint32_t oExtract(Props*, Vals*, Ev*) asm("fiftyoneDegreesOverridesExtractFromEvidence"); Str* oFirst(Vals*, uint32_t, It*) asm("fiftyoneDegreesOverrideValuesGetFirst"); int oOverriding(Avail*, uint32_t) asm("fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex");
void* readComponent(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesComponentReadFromFile"); void* readProfile(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesProfileReadFromFile"); const fiftyoneDegreesComponentKeyValuePair* keyValue(Comp*, uint16_t, Ex*) asm("fiftyoneDegreesComponentGetKeyValuePair"); void initComponents(Coll*, fiftyoneDegreesList*, uint32_t, Ex*) asm("fiftyoneDegreesComponentInitList");
}
// each call sequence writes what it sees to its own text
#define PUT(...) (out += mc::fmt(__VA_ARGS__) + ";")
static void clear(Ex& e) { memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; }
static bool bad(const Ex& e) { return e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != FIFTYONE_DEGREES_STATUS_SUCCESS; }
static It fresh() { It i; memset(&i, 0xA5, sizeof i); fiftyoneDegreesDataReset(&i.data); return i; }
static S raw(const void* p, size_t n) { return S((const char*)p, n); }
static S text(const S& s) { int16_t n = (int16_t)(s.size() + 1); return raw(&n, 2) + s + S(1, 0); }
// ---- data shared by all threads and changed by none: the tables of an engine in a file -------
enum { STRINGS, COMPONENTS, PROFILES, OFFSETS, PROPERTIES, VALUES, TABLES };
static Coll* tab[TABLES]; static fiftyoneDegreesFilePool pool; static std::vector<uint32_t> profileAt, componentAt; static S images[TABLES]; static uint32_t width[TABLES]; static bool openNow; static fiftyoneDegreesHeaders* heads; static std::unique_ptr<char[]> memory;
template <class T> static S record(const T& t) { return raw(&t, sizeof t); }
static uint32_t str(const S& s) { uint32_t at = (uint32_t)images[STRINGS].size(); images[STRINGS] += text(s); return at; }
static void tables() {
	for (auto& i : images) i.clear(); profileAt.clear(); componentAt.clear(); memset(width, 0, sizeof width); width[OFFSETS] = sizeof(fiftyoneDegreesProfileOffset); width[PROPERTIES] = sizeof(Prop); width[VALUES] = sizeof(Val);
	static const char* pn[] = { "alpha", "beta" }; for (int p = 0; p < 2; p++) { char b[sizeof(Prop)] = { 0 }; Prop* x = (Prop*)b; auto set = [](const void* f, uint32_t v) { memcpy((void*)f, &v, 4); }; set(&x->nameOffset, str(pn[p])); set(&x->descriptionOffset, str(S("about ") + pn[p])); set(&x->categoryOffset, str(S("in ") + pn[p])); set(&x->urlOffset, str(S("at ") + pn[p])); set(&x->firstValueIndex, 2 * p); set(&x->lastValueIndex, 2 * p + 1); images[PROPERTIES] += raw(b, sizeof b); }
	for (int v = 0; v < 4; v++) { char b[sizeof(Val)] = { 0 }; Val* x = (Val*)b; int16_t p = (int16_t)(v / 2); memcpy((void*)&x->propertyIndex, &p, 2); uint32_t o = str(mc::fmt("value%d", v)); memcpy((void*)&x->nameOffset, &o, 4); o = str(mc::fmt("describes %d", v)); memcpy((void*)&x->descriptionOffset, &o, 4); o = str(mc::fmt("url %d", v)); memcpy((void*)&x->urlOffset, &o, 4); images[VALUES] += raw(b, sizeof b); }
	for (uint32_t p = 0; p < 3; p++) { char b[sizeof(Pro)] = { 0 }; Pro* x = (Pro*)b; uint32_t id = 11 * (p + 1), n = p + 1; memcpy((void*)&x->profileId, &id, 4); memcpy((void*)&x->valueCount, &n, 4); profileAt.push_back((uint32_t)images[PROFILES].size()); images[PROFILES] += raw(b, sizeof b); for (uint32_t v = 0; v < n; v++) { uint32_t w = v + (p == 1); images[PROFILES] += raw(&w, 4); } char o[sizeof(fiftyoneDegreesProfileOffset)] = { 0 }; memcpy((void*)&((fiftyoneDegreesProfileOffset*)o)->profileId, &id, 4); memcpy((void*)&((fiftyoneDegreesProfileOffset*)o)->offset, &profileAt.back(), 4); images[OFFSETS] += raw(o, sizeof o); }
	for (int c = 0; c < 2; c++) { S b(sizeof(Comp) - sizeof(fiftyoneDegreesComponentKeyValuePair), 0); Comp* x = (Comp*)b.data(); byte id = (byte)(c + 1); memcpy((void*)&x->componentId, &id, 1); uint32_t o = str(mc::fmt("component%d", c)); memcpy((void*)&x->nameOffset, &o, 4); memcpy((void*)&x->defaultProfileOffset, &profileAt[c], 4); uint16_t n = (uint16_t)(c + 1); memcpy((void*)&x->keyValuesCount, &n, 2); componentAt.push_back((uint32_t)images[COMPONENTS].size()); for (uint32_t k = 0; k < n; k++) { uint32_t kv[2] = { c * 10u + k, c * 100u + k }; b += raw(kv, 8); } images[COMPONENTS] += b; }
}
static const char* HN[] = { "a\x1f" "b", "c", "b\x1f" "c" };
static Coll nameColl; static void giveName(It* i) { free(i->handle); i->handle = nullptr; }
static Str* nameItem(const S& s, It* it) { S t = text(s); char* p = (char*)malloc(t.size()); memcpy(p, t.data(), t.size()); nameColl.release = giveName; it->handle = p; it->collection = &nameColl; it->data.ptr = (byte*)p; it->data.used = (uint32_t)t.size(); return (Str*)p; }
static long headName(void* st, uint32_t i, It* it) { const char** n = (const char**)st; if (i >= 3) return -1; nameItem(n[i], it); return 5 + i; }
static void openAll(bool file) {
	tables(); S f; uint32_t at[TABLES]; for (int i = 0; i < TABLES; i++) { at[i] = (uint32_t)f.size(); uint32_t n = (uint32_t)images[i].size(); f += raw(&n, 4) + images[i]; } sched::putFile("d.bin", f); Ex e; clear(e); openNow = file; FILE* h = nullptr;
	if (file) { MC_CHECK(fiftyoneDegreesFilePoolInit(&pool, "d.bin", 2, &e) == FIFTYONE_DEGREES_STATUS_SUCCESS, "pool", "not created"); h = __wrap_fopen("d.bin", "rb"); }
	static const fiftyoneDegreesCollectionFileRead readers[TABLES] = { fiftyoneDegreesStringRead, readComponent, readProfile, fiftyoneDegreesCollectionReadFileFixed, fiftyoneDegreesCollectionReadFileFixed, fiftyoneDegreesCollectionReadFileFixed }; if (!file) { memory.reset(new char[f.size()]); memcpy(memory.get(), f.data(), f.size()); }
	for (int i = 0; i < TABLES; i++) if (file) { __wrap_fseek(h, at[i], SEEK_SET); auto hd = fiftyoneDegreesCollectionHeaderFromFile(h, width[i], false); fiftyoneDegreesCollectionConfig cc = { 0, i == STRINGS || i == PROFILES ? 8u : 0u, 2 }; tab[i] = fiftyoneDegreesCollectionCreateFromFile(h, &pool, &cc, hd, readers[i]); MC_CHECK(tab[i], "collection", "not created"); }
	else { fiftyoneDegreesMemoryReader r; r.startByte = (byte*)memory.get(); r.current = r.startByte + at[i]; r.length = (long)f.size(); r.lastByte = r.startByte + f.size(); auto hd = fiftyoneDegreesCollectionHeaderFromMemory(&r, width[i], false); tab[i] = fiftyoneDegreesCollectionCreateFromMemory(&r, hd); MC_CHECK(tab[i], "collection", "not created"); }
	if (h) __wrap_fclose(h); heads = fiftyoneDegreesHeadersCreate(false, HN, headName);
}
static void closeAll() { fiftyoneDegreesHeadersFree(heads); for (auto c : tab) c->freeCollection(c); if (openNow) fiftyoneDegreesFilePoolRelease(&pool); }
// ---- what a thread may do -----------------------------------------------------------------------
static const fiftyoneDegreesEvidencePrefix HD = FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, QR = FIFTYONE_DEGREES_EVIDENCE_QUERY, CK = FIFTYONE_DEGREES_EVIDENCE_COOKIE;
static bool onPair(void* st, Pair* p) { *(S*)st += mc::fmt("%d.%s=%s;", (int)p->prefix, p->field, (const char*)p->parsedValue); return true; }
static void evidence(int v, S& out) {
	static const char* keys[3][2] = { { "query.one", "server.x" }, { "cookie.two", "header.user-agent" }, { "header.three", "nothing.at" } };
	Ev* e = fiftyoneDegreesEvidenceCreate(2); static const char* vals[3][2] = { { "1", "one" }, { "2", "two" }, { "3", "three" } };
	for (int i = 0; i < 2; i++) { auto m = fiftyoneDegreesEvidenceMapPrefix(keys[v][i]); PUT("%s", m ? m->prefix : "none"); if (m) { PUT("%s", fiftyoneDegreesEvidencePrefixString(m->prefixEnum)); fiftyoneDegreesEvidenceAddString(e, m->prefixEnum, keys[v][i] + m->prefixLength, vals[v][i]); } }
	PUT("%u", fiftyoneDegreesEvidenceIterate(e, HD | QR | CK | FIFTYONE_DEGREES_EVIDENCE_SERVER, &out, onPair)); fiftyoneDegreesEvidenceFree(e);
}
static void headers(int v, S& out) {
	static const char* n[3][3] = { { "a\x1f" "b", "c", "C" }, { "x", "y\x1fz", "b" }, { "Accept", "accept", "q\x1fr\x1fs" } }; auto h = fiftyoneDegreesHeadersCreate(v == 1, n[v], headName); PUT("%u %u", h->count, h->pseudoHeadersCount);
	for (uint32_t i = 0; i < h->count; i++) { PUT("%s", h->items[i].name); for (uint32_t k = 0; k < h->items[i].segments->count; k++) out += S(h->items[i].segments->items[k].segment, h->items[i].segments->items[k].length) + ","; }
	for (const char* q : { "a", "HTTP_X", "b", "C", "accept", "s" }) PUT("%d", fiftyoneDegreesHeaderGetIndex(h, q, strlen(q))); auto u = fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, 6); PUT("%s", u ? u->name : "-"); fiftyoneDegreesHeadersFree(h);
	for (const char* q : { "a", "b", "c", "a\x1f" "b" }) if (q[0] != 'a' || v) PUT("%d", fiftyoneDegreesHeaderGetIndex(heads, q, strlen(q)));
}
static void pseudo(int v, S& out) {
	Ev *e = fiftyoneDegreesEvidenceCreate(3), *q = fiftyoneDegreesEvidenceCreate(3); char bufs[3][16]; for (int i = 0; i < 3; i++) { memset(bufs[i], 'J', 16); q->items[i].originalValue = bufs[i]; } e->pseudoEvidence = q; static const char* vals[3][3] = { { "1", "22", "333" }, { "xyz", "y", "z" }, { "long", "longer", "" } }; static const char* f[] = { "a", "B", "c" };
	for (int i = 0; i < 3; i++) fiftyoneDegreesEvidenceAddString(e, v == 1 && i == 0 ? QR : HD, f[i], vals[v][i]); fiftyoneDegreesEvidencePrefix order[] = { HD, QR }; Ex ex; clear(ex); fiftyoneDegreesPseudoHeadersAddEvidence(e, heads, 16, order, 2, &ex); PUT("%d", bad(ex)); fiftyoneDegreesEvidenceIterate(e, HD | QR, &out, onPair); fiftyoneDegreesPseudoHeadersRemoveEvidence(e, 16); PUT("%u %u", e->count, q->count); e->pseudoEvidence = nullptr; fiftyoneDegreesEvidenceFree(q); fiftyoneDegreesEvidenceFree(e);
}
static const char* PN[3][3] = { { "Alpha", "AlphaJavaScript", "b" }, { "xA", "B", "alpha" }, { "SetHeaderX", "c", "C2" } };
static Str* propName(void* st, uint32_t i, It* it) { return i < 3 ? nameItem(((const char**)st)[i], it) : nullptr; }
static uint32_t propEvidence(void*, fiftyoneDegreesPropertyAvailable* p, fiftyoneDegreesEvidenceProperties* e) { if (e) e->items[0] = p->propertyIndex * 3 + 1; return 1; }
static bool any(void*, uint32_t) { return true; }
static void onId(void* st, uint32_t id) { *(S*)st += mc::fmt("id %u;", id); }
static void properties(int v, S& out) {
	static const char* text[] = { "b|alpha", "xa", "c2,setheaderx,C" }; static const char* list[3][3] = { { "alpha", "B", "alphajavascript" }, { "b", "XA", "alpha" }, { "c", "none", "C2" } }; Avail* prior = nullptr;
	for (int form = 0; form < 4; form++) { // text, array, all, a previous selection
		fiftyoneDegreesPropertiesRequired r; memset(&r, 0, sizeof r); if (form == 0) r.string = text[v]; if (form == 1) { r.array = list[v]; r.count = 3 - v; } if (form == 3) r.existing = prior; Avail* a = fiftyoneDegreesPropertiesCreate(form == 2 ? nullptr : &r, PN[v], propName, propEvidence); if (!a) { PUT("none"); continue; }
		for (uint32_t i = 0; i < a->count; i++) PUT("%u %s %u", a->items[i].propertyIndex, FIFTYONE_DEGREES_STRING(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, i)), a->items[i].evidenceProperties->items[0]); for (const char* n : { "ALPHA", "b", "xa", "C2", "none" }) PUT("%d", fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, n)); PUT("%d", fiftyoneDegreesPropertiesIsSetHeaderAvailable(a)); if (form == 0) prior = a; else fiftyoneDegreesPropertiesFree(a);
	}
	fiftyoneDegreesPropertiesFree(prior);
}
static void overrides(int v, S& out) {
	Avail* a = fiftyoneDegreesPropertiesCreate(nullptr, PN[v], propName, propEvidence); Props* p = oCreate(a, v == 1, nullptr, any); Vals* o = fiftyoneDegreesOverrideValuesCreate(2); Ev* e = fiftyoneDegreesEvidenceCreate(3); static const char* f[3][3] = { { "alpha", "B", "51D_ProfileIds" }, { "51D_alpha", "51D_xa", "ProfileIds" }, { "c2", "none", "51D_ProfileIds" } }, *w[3][3] = { { "one", "two", "1|22" }, { "three", "a longer value", "333-4" }, { "5", "6", "77" } };
	for (int i = 0; i < 3; i++) fiftyoneDegreesEvidenceAddString(e, QR, f[v][i], w[v][i]); PUT("%u", oExtract(p, o, e)); for (uint32_t i = 0; i < 3; i++) { It it; Str* s = oFirst(o, i, &it); PUT("%s %d", s ? &s->value : "-", oOverriding(a, i)); } fiftyoneDegreesOverrideProfileIds(e, &out, onId); fiftyoneDegreesEvidenceFree(e); fiftyoneDegreesOverrideValuesFree(o); oFree(p); fiftyoneDegreesPropertiesFree(a);
}
static void addresses(int v, S& out) {
	static const char* t[3][2] = { { "1.2.3.4", "2001:db8::1" }, { "::ffff:a", "200.100.50.25" }, { "fe80::1:2", "1.2.3" } }; unsigned char b[2][16]; memset(b, 0, sizeof b);
	for (int i = 0; i < 2; i++) { auto a = fiftyoneDegreesIpParseAddress(malloc, t[v][i], t[v][i] + strlen(t[v][i])); if (!a) { PUT("none"); continue; } size_t n = a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 ? 16 : 0; PUT("%d", (int)a->type); for (size_t k = 0; k < n; k++) out += mc::fmt("%02x", a->address[k]); memcpy(b[i], a->address, n); free(a); }
	int c = fiftyoneDegreesCompareIpAddresses(b[0], b[1], FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6); PUT("%d", (c > 0) - (c < 0)); static const char* l[] = { "1.1.1.1, 2.2.2.2", "10.0.0.1", "::2,8.8.8.8 ::3" }; auto a = fiftyoneDegreesIpParseAddresses(malloc, l[v]); for (auto x = a; x; x = x->next) PUT("%d %d.%d", (int)x->type, x->address[0], x->address[1]); fiftyoneDegreesIpFreeAddresses(free, a);
}
static void strings(int v, S& out) {
	static const char* a[3][2] = { { "User-Agent", "uSER-aGENT" }, { "abc", "ABD" }, { "x", "" } }, *h[3][2] = { { "a SetHeader b", "setheader" }, { "mozilla", "zil" }, { "abab", "bb" } }; auto sg = [](int x) { return (x > 0) - (x < 0); };
	PUT("%d %d", sg(fiftyoneDegreesStringCompare(a[v][0], a[v][1])), sg(fiftyoneDegreesStringCompareLength(a[v][0], a[v][1], 2))); auto p = fiftyoneDegreesStringSubString(h[v][0], h[v][1]); PUT("%ld", p ? (long)(p - h[v][0]) : -1L);
	float f[] = { 1.5f, -0.001f, 3e38f }; auto i = fiftyoneDegreesNativeToFloat(f[v]); PUT("%02x%02x%02x%02x %g %d", i.value[0], i.value[1], i.value[2], i.value[3], fiftyoneDegreesFloatToNative(i), fiftyoneDegreesFloatIsEqual(i, i) != 0);
	byte m[16] = { 0 }; int16_t n = 9; memcpy(m, &n, 2); m[2] = FIFTYONE_DEGREES_STRING_COORDINATE; float c[3][2] = { { 51.5f, -0.1f }, { -33.8f, 151.2f }, { 0, 180 } }; memcpy(m + 3, c[v], 8); It it; memset(&it, 0, sizeof it); it.data.ptr = m; it.data.used = 11; Ex e; clear(e); auto g = fiftyoneDegreesIpiGetCoordinate(&it, &e); PUT("%g %g %d", g.lat, g.lon, bad(e));
}
static void messages(int v, S& out) {
	fiftyoneDegreesStatusCode c[] = { FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, FIFTYONE_DEGREES_STATUS_CORRUPT_DATA, FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY }; static const char* f[] = { "one.dat", "another file.dat", nullptr }; const char* m = fiftyoneDegreesStatusGetMessage(c[v], f[v]); PUT("%s", m); fiftyoneDegreesFree((void*)m);
	Ex e; clear(e); e.status = c[v]; e.file = v ? "a.c" : "other.c"; e.func = v == 1 ? "func" : "method"; e.line = 10 + v; m = fiftyoneDegreesExceptionGetMessage(&e); PUT("%s", m ? m : "-"); fiftyoneDegreesFree((void*)m);
}
static void onLine(const char* l, void* st) { *(S*)st += S(l) + "/"; }
static void lines(int v, S& out) { char b[24]; static const char* f[] = { "t0.txt", "t1.txt", "t2.txt" }; fiftyoneDegreesTextFileIterateWithLimit(f[v], b, sizeof b, v == 1 ? 2 : -1, &out, onLine); }
static void onDoc(fiftyoneDegreesKeyValuePair* p, uint16_t n, void* st) { for (int i = 0; i < n; i++) *(S*)st += S(p[i].key) + "=" + p[i].value + "/"; *(S*)st += "."; }
static void yaml(int v, S& out) { char b[128], k[3][32], w[3][32]; fiftyoneDegreesKeyValuePair p[3]; for (int i = 0; i < 3; i++) { p[i].key = k[i]; p[i].value = w[i]; p[i].keyLength = p[i].valueLength = 32; } static const char* f[] = { "y0.yml", "y1.yml", "y2.yml" }; PUT("%d", (int)fiftyoneDegreesYamlFileIterateWithLimit(f[v], b, sizeof b, p, 3, -1, &out, onDoc)); }
static void files(int v, S& out) { static const char* f[] = { "t0.txt", "y1.yml", "none" }; fiftyoneDegreesMemoryReader r; memset(&r, 0, sizeof r); int st = fiftyoneDegreesFileReadToByteArray(f[v], &r); PUT("%d %ld", st, fiftyoneDegreesFileGetSize(f[v])); if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { out += raw(r.startByte, r.length); fiftyoneDegreesFree(r.startByte); } static const char* n[] = { "a/b/c.dat", "/x.bin", "plain" }; PUT("%s", fiftyoneDegreesFileGetFileName(n[v])); }
static void relNothing(It*) {}
static void lists(int v, S& out) { static Coll none; none.release = relNothing; fiftyoneDegreesList l; fiftyoneDegreesListInit(&l, 2); static const char* t[3][2] = { { "a", "bb" }, { "ccc", "d" }, { "e", "" } }; S keep[2]; for (int i = 0; i < 2; i++) { keep[i] = text(t[v][i]); It it = fresh(); it.collection = &none; it.data.ptr = (byte*)keep[i].data(); fiftyoneDegreesListAdd(&l, &it); } for (int i = 0; i < 2; i++) PUT("%s", FIFTYONE_DEGREES_STRING(fiftyoneDegreesListGetAsString(&l, i))); fiftyoneDegreesListRelease(&l); PUT("%u", l.count); fiftyoneDegreesListFree(&l); }
struct N { fiftyoneDegreesTreeNode n; }; static void onNode(void* st, fiftyoneDegreesTreeNode* n) { *(S*)st += mc::fmt("%lld,", (long long)n->key); }
static void trees(int v, S& out) { fiftyoneDegreesTreeRoot r; fiftyoneDegreesTreeRootInit(&r); fiftyoneDegreesTreeNode n[5]; static const int64_t k[3][5] = { { 5, 3, 8, 1, 4 }, { -1, 1LL << 40, 0, 7, 2 }, { 9, 8, 7, 6, 5 } }; for (int i = 0; i < 5; i++) { fiftyoneDegreesTreeNodeInit(&n[i], &r); n[i].key = k[v][i]; fiftyoneDegreesTreeInsert(&n[i]); } fiftyoneDegreesTreeDelete(&n[v + 1]); for (int64_t q : { 1, 5, 8, 7 }) PUT("%d", fiftyoneDegreesTreeFind(&r, q) != nullptr); fiftyoneDegreesTreeIterateNodes(&r, &out, onNode); PUT("%u", fiftyoneDegreesTreeCount(&r)); }
static void load(const void* st, fiftyoneDegreesData* d, const void* key, Ex* e) { uint32_t k = *(const uint32_t*)key, x = k * 7 + (uint32_t)(size_t)st; if (!fiftyoneDegreesDataMalloc(d, 4)) return; memcpy(d->ptr, &x, 4); d->used = 4; }
static void caches(int v, S& out) { auto c = fiftyoneDegreesCacheCreate((uint32_t)(2 + v * v * 2 + v), (uint16_t)(v + 1), load, fiftyoneDegreesCacheHash32, (void*)(size_t)(v * 1000)); static const int k[3][6] = { { 1, 2, 1, 3, 4, 2 }, { 9, 8, 9, 7, 6, 8 }, { 0, 100, 0, 7, 100, 3 } }; for (int i = 0; i < 6; i++) { Ex e; clear(e); auto n = fiftyoneDegreesCacheGet(c, &k[v][i], &e); if (!n) { PUT("none %d", (int)e.status); continue; } PUT("%u", *(uint32_t*)n->data.ptr); fiftyoneDegreesCacheRelease(n); } fiftyoneDegreesCacheFree(c); }
static void* mk(fiftyoneDegreesPool*, void* st, Ex*) { return malloc(1); } static void unmk(fiftyoneDegreesPool*, void* r) { free(r); }
static void pools(int v, S& out) { fiftyoneDegreesPool p; Ex e; clear(e); fiftyoneDegreesPoolInit(&p, (uint16_t)(v + 1), nullptr, mk, unmk, &e); std::vector<fiftyoneDegreesPoolItem*> g; for (int i = 0; i < 3; i++) { clear(e); auto x = fiftyoneDegreesPoolItemGet(&p, &e); PUT("%d", x != nullptr); if (x) g.push_back(x); } for (auto x : g) fiftyoneDegreesPoolItemRelease(x); g.clear(); clear(e); auto x = fiftyoneDegreesPoolItemGet(&p, &e); PUT("%d", x != nullptr); if (x) fiftyoneDegreesPoolItemRelease(x); fiftyoneDegreesPoolFree(&p); }
static S* freedTo[4]; struct Res { int id, who; void* handle; }; static void freeRes(void* r) { Res* x = (Res*)r; *freedTo[x->who] += mc::fmt("free %d;", x->id); free(x); }
static int whoNow(S& out) { for (int i = 0; i < 4; i++) if (freedTo[i] == &out) return i; return -1; }
static void resources(int v, S& out) { fiftyoneDegreesResourceManager m; int w = whoNow(out); auto make = [&](int id) { Res* r = (Res*)calloc(1, sizeof(Res)); r->id = id; r->who = w; return r; }; Res* a = make(v * 10); fiftyoneDegreesResourceManagerInit(&m, a, (fiftyoneDegreesResourceHandle**)&a->handle, freeRes); auto h = fiftyoneDegreesResourceHandleIncUse(&m); PUT("%d", ((Res*)h->resource)->id); Res* b = make(v * 10 + 1); fiftyoneDegreesResourceReplace(&m, b, (fiftyoneDegreesResourceHandle**)&b->handle); PUT("replaced %d", fiftyoneDegreesResourceHandleGetUse(h)); fiftyoneDegreesResourceHandleDecUse(h); fiftyoneDegreesResourceManagerFree(&m); }
static void results(int v, S& out) { struct R { fiftyoneDegreesResultsBase b; } r; int tag; fiftyoneDegreesResultsInit(&r.b, &tag); PUT("%d", r.b.dataSet == &tag); fiftyoneDegreesData d; fiftyoneDegreesDataReset(&d); for (size_t n : { 4, 2, 9 }) { auto p = fiftyoneDegreesDataMalloc(&d, n + v); memset(p, 'a' + v, n + v); PUT("%d %u", p != nullptr, d.allocated >= n + v); } out += raw(d.ptr, 9 + v); fiftyoneDegreesFree(d.ptr); }
// -- reading the tables every thread shares
static bool onItem(void* st, It* it) { Val* x = (Val*)it->data.ptr; *(S*)st += mc::fmt("p%d ", x->propertyIndex); FIFTYONE_DEGREES_COLLECTION_RELEASE(it->collection, it); return true; }
static bool onProfile(void* st, It* it) { *(S*)st += mc::fmt("profile %u ", ((Pro*)it->data.ptr)->profileId); return true; } // the library releases it
#define GIVE(t, i) FIFTYONE_DEGREES_COLLECTION_RELEASE(tab[t], &i)
static void profiles(int v, S& out) {
	Ex e; clear(e); It i = fresh(), q = fresh(); uint32_t id = 11 * (v + 1); Pro* p = fiftyoneDegreesProfileGetByProfileId(tab[OFFSETS], tab[PROFILES], id, &i, &e); PUT("%d %u %u", bad(e), p ? p->profileId : 0, p ? p->valueCount : 0); if (!p) return;
	Prop* r = fiftyoneDegreesPropertyGet(tab[PROPERTIES], v & 1, &q, &e); if (r) { PUT("%u", fiftyoneDegreesProfileIterateValuesForProperty(tab[VALUES], p, r, &out, onItem, &e)); GIVE(PROPERTIES, q); } GIVE(PROFILES, i); i = fresh(); p = fiftyoneDegreesProfileGetByIndex(tab[OFFSETS], tab[PROFILES], 2 - v, &i, &e); PUT("%u %d", p ? p->profileId : 0, bad(e)); if (p) GIVE(PROFILES, i);
}
static void values(int v, S& out) {
	Ex e; clear(e); It i = fresh(), s = fresh(); Val* x = fiftyoneDegreesValueGet(tab[VALUES], v + 1, &i, &e); PUT("%d", bad(e)); if (!x) return; typedef Str* (*Get)(Coll*, Val*, It*, Ex*); static const Get g[] = { fiftyoneDegreesValueGetName, fiftyoneDegreesValueGetDescription, fiftyoneDegreesValueGetUrl };
	for (int k = 0; k < 3; k++) { s = fresh(); Str* t = g[(k + v) % 3](tab[STRINGS], x, &s, &e); PUT("%s", t ? &t->value : "-"); if (t) GIVE(STRINGS, s); } GIVE(VALUES, i);
	It q = fresh(); Prop* r = fiftyoneDegreesPropertyGet(tab[PROPERTIES], v & 1, &q, &e); if (r) { static const char* n[] = { "value1", "value2", "value9" }; PUT("%ld", fiftyoneDegreesValueGetIndexByName(tab[VALUES], tab[STRINGS], r, n[v], &e)); GIVE(PROPERTIES, q); }
}
static void props(int v, S& out) {
	Ex e; clear(e); It i = fresh(), s = fresh(); static const char* n[] = { "alpha", "BETA", "beta" }; Prop* p = fiftyoneDegreesPropertyGetByName(tab[PROPERTIES], tab[STRINGS], n[v], &i, &e); PUT("%d %d", p != nullptr, bad(e)); if (!p) return; typedef Str* (*Get)(Coll*, Prop*, It*, Ex*); static const Get g[] = { fiftyoneDegreesPropertyGetName, fiftyoneDegreesPropertyGetCategory, fiftyoneDegreesPropertyGetUrl };
	for (int k = 0; k < 3; k++) { s = fresh(); Str* t = g[k](tab[STRINGS], p, &s, &e); PUT("%s", t ? &t->value : "-"); if (t) GIVE(STRINGS, s); } GIVE(PROPERTIES, i);
}
static void having(int v, S& out) { Ex e; clear(e); static const char* n[3][2] = { { "alpha", "value0" }, { "beta", "value2" }, { "alpha", "value1" } }; PUT("%u", fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(tab[STRINGS], tab[PROPERTIES], tab[VALUES], tab[PROFILES], tab[OFFSETS], n[v][0], n[v][1], &out, onProfile, &e)); PUT("%d", bad(e)); }
static void components(int v, S& out) {
	Ex e; clear(e); It i = fresh(), s = fresh(); Comp* c = (Comp*)tab[COMPONENTS]->get(tab[COMPONENTS], componentAt[v & 1], &i, &e); PUT("%d", bad(e)); if (!c) return; Str* t = fiftyoneDegreesComponentGetName(tab[STRINGS], c, &s, &e); PUT("%s", t ? &t->value : "-"); if (t) GIVE(STRINGS, s); for (uint16_t k = 0; k < c->keyValuesCount; k++) { auto kv = keyValue(c, k, &e); PUT("%u %u", kv ? kv->key : 0, kv ? kv->value : 0); } PUT("%u", fiftyoneDegreesComponentGetDefaultProfileId(tab[PROFILES], c, &e)); GIVE(COMPONENTS, i);
	if (v == 2) { fiftyoneDegreesList l; initComponents(tab[COMPONENTS], &l, 2, &e); PUT("%u", l.count); for (uint32_t k = 0; k < l.count; k++) PUT("%d", ((Comp*)l.items[k].data.ptr)->componentId); fiftyoneDegreesListFree(&l); }
}
struct Op { const char* name; bool tables; void (*f)(int, S&); };
static const Op OPS[] = { { "evidence", 0, evidence }, { "headers", 1, headers }, { "pseudo headers", 1, pseudo }, { "properties", 0, properties }, { "overrides", 0, overrides }, { "addresses", 0, addresses }, { "strings", 0, strings }, { "messages", 0, messages }, { "lines", 0, lines }, { "yaml", 0, yaml }, { "files", 0, files }, { "lists", 0, lists }, { "trees", 0, trees }, { "caches", 0, caches }, { "pools", 0, pools }, { "resources", 0, resources }, { "results", 0, results }, { "profiles", 1, profiles }, { "values", 1, values }, { "property look ups", 1, props }, { "profiles having", 1, having }, { "components", 1, components } };
static const int NOPS = sizeof OPS / sizeof *OPS;
static void world(bool t, bool file) {
	sched::begin(); sched::putFile("t0.txt", "first line\nsecond\n\nfourth"); sched::putFile("t1.txt", "aaaa\r\nbb\r\ncccc\r\n"); sched::putFile("t2.txt", "x\nyyyyyyyyyyyyyyyyyyyyyy\nz\n"); sched::putFile("y0.yml", "---\na: 1\nb: two\n---\na: 3\n"); sched::putFile("y1.yml", "---\nkey: value\nother: thing\n...\n"); sched::putFile("y2.yml", "---\nx: \"quoted\"\n---\nx: 'y'\nz: 5\n---\n"); if (t) openAll(file);
}
static std::map<int, S> alone;
static const S& expect(int o, int v, bool file) { int k = (o * 3 + v) * 2 + file; auto i = alone.find(k); if (i != alone.end()) return i->second; world(OPS[o].tables, file); S out; freedTo[3] = &out; sched::preemptions = 0; sched::everyAccess = false; sched::horizon = 400000; sched::spawn("alone", [o, v, &out] { sched::op(OPS[o].name); OPS[o].f(v, out); }); sched::run(); freedTo[3] = nullptr; if (OPS[o].tables) closeAll(); return alone[k] = out; }
struct Job { int o, v; };
static void together(const std::vector<Job>& js, bool file, int pb, bool every) {
	std::vector<S> want, got(js.size()); bool t = false; for (auto& j : js) { want.push_back(expect(j.o, j.v, file)); t |= OPS[j.o].tables; mc::note("%s %d", OPS[j.o].name, j.v); } mc::note(file ? "from file" : "from memory");
	world(t, file); sched::preemptions = pb; sched::everyAccess = every; sched::horizon = 400000; static const char* nm[] = { "t0", "t1", "t2" }; for (size_t i = 0; i < js.size(); i++) { freedTo[i] = &got[i]; Job j = js[i]; S* g = &got[i]; sched::spawn(nm[i], [j, g] { sched::op(OPS[j.o].name); OPS[j.o].f(j.v, *g); }); }
	sched::run(); for (size_t i = 0; i < js.size(); i++) if (got[i] != want[i]) mc::fail(mc::fmt("separate:%s", OPS[js[i].o].name).c_str(), "%s (input %d) gives %s instead of %s when %s runs at the same time", OPS[js[i].o].name, js[i].v, mc::quoted(got[i]).c_str(), mc::quoted(want[i]).c_str(), OPS[js[i ? 0 : 1].o].name);
	if (t) closeAll(); MC_CHECK(sched::liveBlocks() == 0, "separate:leak", "%zu blocks not returned", sched::liveBlocks()); MC_CHECK(sched::openFiles() == 0, "separate:file-leak", "%d files left open", sched::openFiles()); mc::outcome(OPS[js[0].o].name);
}
// two different inputs of the three
static void inputs(Job& a, Job& b) { static const int P[6][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 1, 0 }, { 2, 1 }, { 0, 2 } }; int k = mc::choose(mc::tier(3, 6)); a.v = P[k][0]; b.v = P[k][1]; }
MC_SUITE(C37, same, 3, "the same call sequence of each of 22 kinds in 2 threads with different inputs (tables in memory and in a file): a switch before any one memory access (thorough: before any two)") {
	Job a{ mc::choose(NOPS), 0 }, b{ a.o, 0 }; inputs(a, b); bool file = OPS[a.o].tables && mc::flip(); together({ a, b }, file, mc::tier(1, 2), true);
}
MC_SUITE(C37, different, 3, "every ordered pair of different call sequences of the 22 kinds in 2 threads: a switch before any one memory access") {
	Job a{ mc::choose(NOPS), 0 }, b{ (a.o + 1 + mc::choose(NOPS - 1)) % NOPS, 0 }; inputs(a, b); bool file = (OPS[a.o].tables || OPS[b.o].tables) && mc::flip(); together({ a, b }, file, 1, true);
}
MC_SUITE(C37, three, 3, "three threads with the same call sequence of each of the 22 kinds and three inputs: a switch before any one memory access") {
	Job a{ mc::choose(NOPS), 0 }, b{ a.o, 1 }, c{ a.o, 2 }; bool file = false; together({ a, b, c }, file, 1, true);
}
static void learnBody() { Job a{ mc::choose(NOPS), 0 }, b{ mc::choose(NOPS), 0 }; inputs(a, b); together({ a, b }, (OPS[a.o].tables || OPS[b.o].tables) && mc::flip(), 0, false); }
MC_SUITE(C37, pairs, 4, "every pair of the 22 call sequences in 2 threads with different inputs: all interleavings of synchronisation and of accesses that can race up to the preemption bound") {
	Job a{ mc::choose(NOPS), 0 }, b{ mc::choose(NOPS), 0 }; inputs(a, b); bool file = (OPS[a.o].tables || OPS[b.o].tables) && mc::flip(); together({ a, b }, file, mc::tier(1, 2), false);
}
static struct Setup { Setup() { mc_suite_C37_pairs.setup = [] { sched::learnRaces(learnBody, 20000); }; } } setup_;
