// FLAVOR: asan
// PROPS: C34
#include "mc.hpp"
#include "env.hpp"
#include "engine.hpp"
#include <functional>
extern "C" { fiftyoneDegreesSignal* newSignal() asm("fiftyoneDegreesSignalCreate"); void closeSignal(fiftyoneDegreesSignal*) asm("fiftyoneDegreesSignalClose"); void ovFree(fiftyoneDegreesOverridePropertyArray*) asm("fiftyoneDegreesOverridePropertiesFree"); }
typedef std::vector<S> VS;
enum { NOMEM = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY };
// What an operation came to: a result in full (given as text), or a failure it reported. why: the status, -1 for a null result
struct R { bool ok; S got; int why; };
static R good(const S& s) { return { true, s, 0 }; } static R none() { return { false, "", -1 }; } static R failed(int st) { return { false, "", st }; }
static void clean(Ex& e) { memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; } static bool bad(const Ex& e) { return e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != OK_; }
struct NoFaults { int m = env::memFaults; NoFaults() { env::memFaults = 0; } ~NoFaults() { env::memFaults = m; } };
// A scenario makes something, looks at all of it and takes it down again. It
// runs with requests for memory failing at every point, then without.
// How far a result may differ when a request failed: LESS, the list may be
// shorter (reported under its own signature); TEXT, a message may be generic.
enum { SAME, ANY_STATUS = 1, TEXT = 2, LESS = 4 };
struct Scenario { const char* name; std::function<R()> run; int may; };
static bool subsequence(const S& a, const S& b) { size_t i = 0; for (char ch : b) if (i < a.size() && a[i] == ch) i++; return i == a.size(); }
// ---- sources that need no memory from the library ---------------------------
static VS words; static fiftyoneDegreesCollection wordColl; static int wordsOut;
static std::vector<void*> given; static bool nothingHeld() { if (mc::memoryOnly) { for (auto p : given) free(p); given.clear(); return true; } return !wordsOut; }
static fiftyoneDegreesString* word(uint32_t i, It* it) { if (i >= words.size()) return nullptr; size_t n = words[i].size() + 1; char* b = (char*)malloc(n + 2); int16_t l = (int16_t)n; memcpy(b, &l, 2); memcpy(b + 2, words[i].c_str(), n); it->data.ptr = (byte*)b; it->data.used = it->data.allocated = (uint32_t)n + 2; it->collection = &wordColl; it->handle = b; wordsOut++; if (mc::memoryOnly) given.push_back(b); return (fiftyoneDegreesString*)b; }
static fiftyoneDegreesString* wordProperty(void*, uint32_t i, It* it) { return word(i, it); } static long wordHeader(void*, uint32_t i, It* it) { return word(i, it) ? (long)i + 1 : -1; }
static uint32_t wordEvidence(void*, fiftyoneDegreesPropertyAvailable* p, fiftyoneDegreesEvidenceProperties* e) { uint32_t n = p->propertyIndex % 3; if (e) for (uint32_t j = 0; j < n; j++) e->items[j] = p->propertyIndex * 10 + j; return n; }
static void source(const VS& w) { words = w; wordsOut = 0; memset((void*)&wordColl, 0, sizeof wordColl); wordColl.release = [](It* it) { MC_CHECK(it->handle, "oom:release", "an item was given back twice"); free(it->handle); it->handle = nullptr; it->data.ptr = nullptr; wordsOut--; }; }
static S str(fiftyoneDegreesHeaders* h) { S s; for (uint32_t i = 0; i < h->count; i++) { auto& x = h->items[i]; s += mc::fmt("%s/%zu/%d/%u(", x.name, x.nameLength, x.isDataSet, x.uniqueId); for (uint32_t j = 0; j < x.segments->count; j++) s += S(x.segments->items[j].segment, x.segments->items[j].length) + ","; s += ")"; } return s; }
static S str(fiftyoneDegreesPropertiesAvailable* a) { S s; for (uint32_t i = 0; i < a->count; i++) { auto& x = a->items[i]; if (!x.evidenceProperties) return ""; s += mc::fmt("%s=%u(", x.name.data.ptr ? FIFTYONE_DEGREES_STRING(x.name.data.ptr) : "null", x.propertyIndex); for (uint32_t j = 0; j < x.evidenceProperties->count; j++) s += mc::fmt("%u,", x.evidenceProperties->items[j]); s += ")"; } return s; }
static R headers(bool upper, const VS& names) { source(names); auto h = fiftyoneDegreesHeadersCreate(upper, nullptr, wordHeader); if (!h) { MC_CHECK(nothingHeld(), "oom:held", "%d names held after failing", wordsOut); return none(); } S s = str(h); fiftyoneDegreesHeadersFree(h); MC_CHECK(nothingHeld(), "oom:held", "%d names held", wordsOut); return good(s); }
static R properties(int form) {
	source({ "Beta", "alpha", "Gamma", "delta" }); fiftyoneDegreesPropertiesRequired q = fiftyoneDegreesPropertiesDefault; const char* arr[] = { "gamma", "nothing", "ALPHA" }; q.string = form == 1 ? "gamma|beta,none" : nullptr; if (form == 2) { q.array = arr; q.count = 3; } fiftyoneDegreesPropertiesAvailable* other = nullptr; { NoFaults nf; if (form == 3) { auto o = q; o.string = "delta,alpha"; other = fiftyoneDegreesPropertiesCreate(&o, nullptr, wordProperty, wordEvidence); q.existing = other; } }
	mc::label("oom:properties"); auto a = fiftyoneDegreesPropertiesCreate(form == 4 ? nullptr : &q, nullptr, wordProperty, wordEvidence); R r = none(); if (a) { S s = str(a); if (!s.empty()) r = good(s); fiftyoneDegreesPropertiesFree(a); } if (other) fiftyoneDegreesPropertiesFree(other); MC_CHECK(nothingHeld(), "oom:held", "%d names held", wordsOut); return r;
}
// ---- collections --------------------------------------------------------------
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
#define fiftyoneDegreesStringRead nullptr
#define fiftyoneDegreesCollectionReadFileFixed nullptr
#endif
static S fixedImage() { S s; uint32_t n = 6; s.append((char*)&n, 4); for (uint32_t i = 0; i < n; i++) { char b[16]; memset(b, 'a' + (int)i, 16); s.append(b, 16); } return s; }
static std::vector<uint32_t> textKeys; static S textImage() { S b; textKeys.clear(); for (auto t : { "", "a", "some text", "another rather longer text" }) { textKeys.push_back((uint32_t)b.size()); int16_t l = (int16_t)strlen(t) + 1; b.append((char*)&l, 2); b.append(t, l); } uint32_t n = (uint32_t)b.size(); return S((char*)&n, 4) + b; }
static R collection(bool text, int mode) {
	S im = text ? textImage() : fixedImage(); std::vector<uint32_t> keys = textKeys; if (!text) keys = { 0, 1, 2, 3, 4, 5 }; uint32_t es = text ? 0 : 16; fiftyoneDegreesMemoryReader r; std::unique_ptr<char[]> mem(new char[im.size()]); memcpy(mem.get(), im.data(), im.size()); r.startByte = r.current = (byte*)mem.get(); r.length = (long)im.size(); r.lastByte = r.startByte + im.size(); Coll* c; fiftyoneDegreesFilePool pool; FILE* f = nullptr; Ex e;
	if (mode == 0) { auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, es, !text); mc::label("oom:collection from memory"); c = fiftyoneDegreesCollectionCreateFromMemory(&r, h); }
	else {
		static const fiftyoneDegreesCollectionConfig CF[] = { {}, { 0, 0, 1 }, { 0, 2, 1 }, { 100, 0, 1 }, { 2, 4, 2 }, { 2, 0, 1 } }; auto cf = CF[mode]; { NoFaults nf; env::writeFile("c.bin", im); clean(e); if (fiftyoneDegreesFilePoolInit(&pool, "c.bin", 3, &e) != OK_) mc::fail("oom:pool", "no file pool"); f = fopen("c.bin", "rb"); } auto h = fiftyoneDegreesCollectionHeaderFromFile(f, es, !text); mc::label("oom:collection from file"); c = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &cf, h, text ? fiftyoneDegreesStringRead : fiftyoneDegreesCollectionReadFileFixed);
	}
	R out = none(); if (c) {
		S all; int st = 0; It held; memset(&held, 0, sizeof held); fiftyoneDegreesDataReset(&held.data); bool hold = false; mc::label("oom:collection get");
		for (int round = 0; round < 2 && !st; round++) for (auto k : keys) { It it; memset(&it, 0, sizeof it); fiftyoneDegreesDataReset(&it.data); clean(e); void* p = c->get(c, k, &it, &e); if (!p || bad(e)) { st = bad(e) ? e.status : -2; NoFaults nf; It again; memset(&again, 0, sizeof again); fiftyoneDegreesDataReset(&again.data); clean(e); p = c->get(c, k, &again, &e); MC_CHECK(p && !bad(e), "oom:get-again", "item %u can not be read with memory back: status %d", k, e.status); FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &again); break; } all += S((char*)it.data.ptr, text ? 2 + *(int16_t*)it.data.ptr : 16); if (!hold && round == 0) { held = it; hold = true; } else { FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &it); } }
		if (hold) { FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &held); } out = st ? failed(st) : good(all); mc::label("oom:collection free"); c->freeCollection(c);
	}
	if (f) fclose(f); if (mode) { NoFaults nf; fiftyoneDegreesFilePoolRelease(&pool); } return out;
}
// ---- caches, pools, resources, lists, files ------------------------------------
static void cacheLoad(const void*, fiftyoneDegreesData* d, const void* k, Ex* exception) { int v = *(int*)k; size_t n = 8 + 8 * (v % 3); if (!fiftyoneDegreesDataMalloc(d, n)) { exception->status = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; return; } memset(d->ptr, v, n); d->used = (uint32_t)n; }
static R cache(uint32_t cap, uint16_t conc) {
	mc::label("oom:cache"); auto c = fiftyoneDegreesCacheCreate(cap, conc, cacheLoad, fiftyoneDegreesCacheHash32, nullptr); if (!c) return none(); S all; int st = 0; Ex e; for (int i = 0; i < 12 && !st; i++) { int k = i * 5 % 7; clean(e); auto n = fiftyoneDegreesCacheGet(c, &k, &e); if (!n || bad(e)) { st = bad(e) ? e.status : -2; if (n) fiftyoneDegreesCacheRelease(n); NoFaults nf; clean(e); n = fiftyoneDegreesCacheGet(c, &k, &e); MC_CHECK(n && !bad(e), "oom:get-again", "key %d can not be got with memory back: status %d", k, e.status); MC_CHECK(n->data.used == 8 + 8 * (uint32_t)(k % 3) && n->data.ptr[0] == k, "oom:get-again", "key %d has other data", k); fiftyoneDegreesCacheRelease(n); break; } all += mc::fmt("%u:%d ", n->data.used, n->data.ptr[0]); fiftyoneDegreesCacheRelease(n); }
	fiftyoneDegreesCacheFree(c); return st ? failed(st) : good(all);
}
static int poolMade; static R pool(int n) {
	poolMade = 0; fiftyoneDegreesPool p; Ex e; clean(e); mc::label("oom:pool"); auto r = fiftyoneDegreesPoolInit(&p, (uint16_t)n, nullptr, [](fiftyoneDegreesPool*, void*, Ex* exception) -> void* { void* x = fiftyoneDegreesMalloc(24); if (!x) exception->status = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; else poolMade++; return x; }, [](fiftyoneDegreesPool*, void* x) { poolMade--; fiftyoneDegreesFree(x); }, &e); MC_CHECK((r != nullptr) == !bad(e), "oom:pool-null", "%s with status %d", r ? "a pool" : "no pool", e.status); R out = bad(e) ? failed(e.status) : good(mc::fmt("%d", poolMade)); fiftyoneDegreesPoolFree(&p); MC_CHECK(!poolMade, "oom:pool-leak", "%d resources left", poolMade); return out;
}
static int freed; static R resource(bool replace) {
	fiftyoneDegreesResourceManager m; fiftyoneDegreesResourceHandle* h = nullptr; int a = 1, b = 2; freed = 0; mc::label("oom:resource"); fiftyoneDegreesResourceManagerInit(&m, &a, &h, [](void* p) { freed += *(int*)p; }); if (!h) { MC_CHECK(!m.active && !freed, "oom:resource", "a manager without a handle has an active one"); return none(); } R out = good("init");
	if (replace) { fiftyoneDegreesResourceHandle* g = nullptr; auto held = fiftyoneDegreesResourceHandleIncUse(&m); bool ok = fiftyoneDegreesResourceReplace(&m, &b, &g); auto now = fiftyoneDegreesResourceHandleIncUse(&m); MC_CHECK(now->resource == (ok ? &b : &a), "oom:active", "another resource is active"); MC_CHECK(ok == (g != nullptr), "oom:resource", "replaced without a handle"); fiftyoneDegreesResourceHandleDecUse(now); MC_CHECK(!freed, "oom:early", "freed while held"); fiftyoneDegreesResourceHandleDecUse(held); MC_CHECK(freed == (ok ? 1 : 0), "oom:freed", "%d", freed); out = ok ? good("replaced") : none(); fiftyoneDegreesResourceManagerFree(&m); MC_CHECK(freed == (ok ? 3 : 1), "oom:freed", "%d at the end", freed); } else { fiftyoneDegreesResourceManagerFree(&m); MC_CHECK(freed == 1, "oom:freed", "%d", freed); } return out;
}
static R list() { fiftyoneDegreesList l; memset((void*)&l, 0, sizeof l); mc::label("oom:list"); auto p = fiftyoneDegreesListInit(&l, 3); if (!p) return none(); source({ "x", "y" }); for (uint32_t i = 0; i < 2; i++) { It it; memset(&it, 0, sizeof it); word(i, &it); fiftyoneDegreesListAdd(&l, &it); } S s = mc::fmt("%u", l.count); for (int i = 0; i < 2; i++) s += FIFTYONE_DEGREES_STRING(fiftyoneDegreesListGetAsString(&l, i)); fiftyoneDegreesListFree(&l); MC_CHECK(nothingHeld(), "oom:held", "%d items held", wordsOut); return good(s); }
static R data() { fiftyoneDegreesData d; fiftyoneDegreesDataReset(&d); mc::label("oom:data"); S s; for (size_t n : { 4, 2, 40, 8, 41 }) { if (!fiftyoneDegreesDataMalloc(&d, n)) { if (d.allocated) fiftyoneDegreesFree(d.ptr); return none(); } MC_CHECK(d.allocated >= n && d.ptr, "oom:data", "%u bytes for %zu", d.allocated, n); memset(d.ptr, (int)n, n); s += mc::fmt("%zu ", n); } fiftyoneDegreesFree(d.ptr); return good(s); }
static R fileToMemory(bool zero) { { NoFaults nf; env::writeFile("f.bin", zero ? "" : "the content of the file"); } fiftyoneDegreesMemoryReader r; memset((void*)&r, 0, sizeof r); mc::label("oom:file"); int st = fiftyoneDegreesFileReadToByteArray("f.bin", &r); if (st != OK_) return failed(st); S s((char*)r.startByte, r.length); fiftyoneDegreesFree(r.startByte); return good(s + "."); }
static R filePool() { { NoFaults nf; env::writeFile("f.bin", "0123456789"); } fiftyoneDegreesFilePool p; Ex e; clean(e); mc::label("oom:file pool"); int st = fiftyoneDegreesFilePoolInit(&p, "f.bin", 2, &e); if (st != OK_) return failed(st); auto h = fiftyoneDegreesFileHandleGet(&p, &e); MC_CHECK(h && !bad(e), "oom:file-handle", "no handle"); char b[4] = { 0 }; fseek(h->file, 3, SEEK_SET); S s; if (fread(b, 3, 1, h->file) == 1) s = b; fiftyoneDegreesFileHandleRelease(h); fiftyoneDegreesFilePoolRelease(&p); return good(s); }
static R evidence(uint32_t n) { mc::label("oom:evidence"); auto a = fiftyoneDegreesEvidenceCreate(n); if (!a) return none(); S s; for (uint32_t i = 0; i < n; i++) { auto k = fiftyoneDegreesEvidenceAddString(a, FIFTYONE_DEGREES_EVIDENCE_QUERY, "field", i % 2 ? "x" : "y"); MC_CHECK(k, "oom:evidence", "no room for entry %u of %u", i, n); s += k->field; } s += mc::fmt("%u", a->count); fiftyoneDegreesEvidenceFree(a); return good(s); }
static R overrides() { source({ "Alpha", "Beta", "Gamma" }); fiftyoneDegreesPropertiesAvailable* a; { NoFaults nf; a = fiftyoneDegreesPropertiesCreate(nullptr, nullptr, wordProperty, wordEvidence); } mc::label("oom:overrides"); auto o = ovCreate(a, true, nullptr, [](void*, uint32_t i) { return i != 1; }); R r = none(); if (o) { S s; for (uint32_t i = 0; i < o->count; i++) s += mc::fmt("%u ", o->items[i].requiredPropertyIndex); ovFree(o); r = good(s); } fiftyoneDegreesPropertiesFree(a); MC_CHECK(nothingHeld(), "oom:held", "%d names held", wordsOut); return r; }
static R overrideValues() { mc::label("oom:override values"); auto v = fiftyoneDegreesOverrideValuesCreate(3); if (!v) return none(); S s = mc::fmt("%u of %u", v->count, v->capacity); fiftyoneDegreesOverrideValuesFree(v); return good(s); }
static R ip(const char* t) { mc::label("oom:ip"); auto a = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, t, t + strlen(t)); if (!a) return none(); S s = mc::fmt("%d", a->type); for (int i = 0; i < (a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16); i++) s += mc::fmt("%02x", a->address[i]); fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, a); return good(s); }
static R ips(const char* t) { mc::label("oom:ips"); auto a = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, t); if (!a) return none(); S s; for (auto x = a; x; x = x->next) s += mc::fmt("%d:%02x ", x->type, x->address[0]); fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, a); return good(s); }
static R status(int code, const char* f) { mc::label("oom:status"); auto m = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)code, f); if (!m) return none(); S s = m; fiftyoneDegreesFree((void*)m); return good(s); }
static R exceptionText() { Ex e; memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; e.file = "file.c"; e.func = "func"; e.line = 12; mc::label("oom:exception"); auto m = fiftyoneDegreesExceptionGetMessage(&e); if (!m) return none(); S s = m; fiftyoneDegreesFree((void*)m); return good(s); }
static R signalMake() { mc::label("oom:signal"); auto g = newSignal(); if (!g) return none(); closeSignal(g); return good("signal"); }
// ---- data sets ----------------------------------------------------------------
static R dataset(int mode, int reload) {
	static Cfg c; memset(&c, 0, sizeof c); c.b.allInMemory = mode == 0; c.c.concurrency = 1; c.c.capacity = mode == 2 ? 6 : 0; c.c.loaded = mode == 3 ? 2 : 0; refuse = 0; fiftyoneDegreesPropertiesRequired q = fiftyoneDegreesPropertiesDefault; Ex e; { NoFaults nf; env::writeFile("v0.dat", image(0, false)); env::writeFile("v1.dat", image(1, false)); }
	S im = image(1, false); std::unique_ptr<char[]> mem(new char[im.size()]); memcpy(mem.get(), im.data(), im.size()); Ds* d; fiftyoneDegreesResourceManager m; int st; auto text = [](Ds* x) { NoFaults nf; S s; for (uint32_t i = 0; i < 5; i++) { It it; memset(&it, 0, sizeof it); fiftyoneDegreesDataReset(&it.data); x->error = false; auto n = nameAt(x, i, &it); MC_CHECK(n, "oom:dataset-read", "string %u of a good data set can not be read", i); s += &n->value; FIFTYONE_DEGREES_COLLECTION_RELEASE(x->names, &it); } return s + str(x->b.available) + str(x->b.uniqueHeaders) + mc::fmt("%u", x->b.overridable->count); };
	auto make = [&](const char* f) -> int { clean(e); d = (Ds*)fiftyoneDegreesMalloc(sizeof(Ds)); if (!d) return NOMEM; if (reload == 3) { int s = initMemory(d, &c, &q, mem.get(), (long)im.size(), &e); if (s != OK_) fiftyoneDegreesFree(d); return s; } return initFile(d, &c, &q, f, &e); };
	mc::label("oom:dataset"); if (reload == 0 || reload == 3) { st = make("v0.dat"); if (st != OK_) return failed(st); S s = text(d); freeDs(d); return good(s); }
	{ NoFaults nf; MC_CHECK(make("v0.dat") == OK_, "oom:dataset", "no first data set"); fiftyoneDegreesResourceManagerInit(&m, d, &d->b.handle, freeDs); } size_t blocks = env::liveBlocks(); int open = env::openFiles(); clean(e); mc::label("oom:reload");
	st = reload == 1 ? dsReloadFile(&m, "v1.dat", sizeof(Ds), initFile, &e) : dsReloadMemory(&m, mem.get(), (long)im.size(), sizeof(Ds), initMemory, &e); NoFaults nf; size_t after = env::liveBlocks(); int openAfter = env::openFiles(); Ds* now = (Ds*)dsGet(&m); S s = text(now); MC_CHECK((s.find("version-1") == 0) == (st == OK_), "oom:reload-active", "status %d but the active data set is %s", st, s.c_str()); dsRelease(&now->b); if (st != OK_) MC_CHECK(after == blocks && openAfter == open, "oom:reload-leak", "%zu blocks and %d files, before %zu and %d", after, openAfter, blocks, open); fiftyoneDegreesResourceManagerFree(&m); MC_CHECK(alive.empty(), "oom:dataset-left", "%zu data sets left", alive.size()); return st == OK_ ? good(s) : failed(st);
}
static R datasetParts(int part) { // the library's own steps report running out of memory as that
	static Cfg c; memset(&c, 0, sizeof c); c.b.usesUpperPrefixedHeaders = true; fiftyoneDegreesPropertiesRequired q = fiftyoneDegreesPropertiesDefault; static Base& b = *(Base*)calloc(1, sizeof(Base)); dsReset(&b); b.config = &c; int st; S s; source({ "Beta", "alpha", "Gamma" }); mc::label("oom:dataset part");
	if (part == 0) { st = dsInitProperties(&b, &q, nullptr, wordProperty, wordEvidence); if (st == OK_) s = str(b.available); } else if (part == 1) { source({ "Ua", "a\x1f" "b" }); st = dsInitHeaders(&b, nullptr, wordHeader); if (st == OK_) s = str(b.uniqueHeaders); } else { { NoFaults nf; env::writeFile("v0.dat", image(0, false)); } st = dsInitFromFile(&b, "v0.dat", -1); fiftyoneDegreesMemoryReader r; memset((void*)&r, 0, sizeof r); if (st == OK_) st = dsInitInMemory(&b, &r); if (st == OK_) s = S((char*)r.startByte, r.length); }
	dsFree(&b); MC_CHECK(nothingHeld(), "oom:held", "%d names held", wordsOut); return st == OK_ ? good(s) : failed(st);
}
#define SEP "\x1f"
static std::vector<Scenario> all() {
	std::vector<Scenario> v; auto add = [&](const char* n, std::function<R()> f, int may = SAME) { v.push_back({ n, f, may }); };
	for (int u = 0; u < 2; u++) { add("headers", [=] { return headers(u, { "User-Agent", "b" }); }); add("pseudo headers", [=] { return headers(u, { "a" SEP "b", "b", "c" SEP "a" SEP "d" }); }); } for (int f = 0; f < 5; f++) add("properties", [=] { return properties(f); });
	for (int t = 0; t < 2; t++) for (int m = 0; m < 6; m++) add(t ? "text collection" : "fixed collection", [=] { return collection(t, m); });
	add("cache", [] { return cache(1, 1); }); add("cache", [] { return cache(4, 1); }); add("sharded cache", [] { return cache(8, 2); }); for (int n : { 0, 1, 3 }) add("pool", [=] { return pool(n); }); add("resource", [] { return resource(false); }); add("resource replace", [] { return resource(true); }); add("list", list); add("data", data); add("file to memory", [] { return fileToMemory(false); }); add("file pool", filePool); for (uint32_t n : { 0u, 1u, 3u }) add("evidence", [=] { return evidence(n); });
	add("overrides", overrides); add("override values", overrideValues); for (auto t : { "1.2.3.4", "::1", "2001:db8::1" }) add("ip", [=] { return ip(t); }); for (auto t : { "1.2.3.4", "1.2.3.4,::1", "1.2.3.4, 5.6.7.8, ::1" }) add("ips", [=] { return ips(t); }, LESS); for (int s : { 0, 1, 5, 12 }) for (auto f : { (const char*)nullptr, "file" }) add("status", [=] { return status(s, f); }, TEXT); add("exception", exceptionText, TEXT); add("signal", signalMake);
	for (int m = 0; m < 4; m++) for (int r = 0; r < 3; r++) add(r == 0 ? "data set" : r == 1 ? "data set reload from file" : "data set reload from memory", [=] { return dataset(m, r); }, ANY_STATUS); add("data set from memory", [] { return dataset(0, 3); }, ANY_STATUS); add("data set properties", [] { return datasetParts(0); }); add("data set headers", [] { return datasetParts(1); }, ANY_STATUS); add("data set into memory", [] { return datasetParts(2); });
	return v;
}
static void explore(int budget) {
	static const std::vector<Scenario> V = all(); int i = mc::choose((int)V.size()); auto& s = V[i]; mc::note("%s (%d)", s.name, i); env::cleanScratch(); alive.clear(); S sig = S("oom:") + s.name; mc::step();
	env::memFaults = budget; R r = s.run(); bool hit = env::memFaultsFired > 0; S where = env::lastFault; env::memFaults = 0; S unbalanced = sig + ":after-failure"; env::checkBalanced(hit ? unbalanced.c_str() : sig.c_str()); mc::step();
	R again = s.run(); MC_CHECK(again.ok, sig.c_str(), "fails with memory available%s: status %d", hit ? " again" : "", again.why); env::checkBalanced(sig.c_str());
	if (r.ok && hit && s.may == LESS && r.got != again.got && subsequence(r.got, again.got)) mc::known("oom:ips:dropped", "an address which there was no memory for is left out of the list: %s of %s", r.got.c_str(), again.got.c_str());
	if (r.ok && hit && s.may == TEXT) MC_CHECK(!r.got.empty(), (sig + ":silent").c_str(), "an empty message");
	else if (r.ok) MC_CHECK(r.got == again.got, hit ? (sig + ":silent").c_str() : sig.c_str(), "success after a failed request, but with another result: %s instead of %s", mc::quoted(r.got).c_str(), mc::quoted(again.got).c_str());
	else { MC_CHECK(hit, sig.c_str(), "status %d with memory available", r.why); MC_CHECK(s.may == ANY_STATUS || r.why == NOMEM || r.why == -1, (sig + ":status").c_str(), "status %d after a failed request for memory", r.why); }
	mc::state(mc::hashStr(mc::fmt("%d ", i) + where)); mc::outcome(mc::fmt("%d %d %d", i, r.ok, r.why));
}
MC_SUITE(C34, single, 2, "sixty ways of making things (headers, properties, collections from memory and file in six storages, caches, pools, resources, lists, files, evidence, overrides, IP addresses, messages, signals, data sets and reloads), each with every single request for memory failing: reported, nothing lost, works the next time") { explore(1); }
MC_SUITE(C34, pairs, 3, "the same with every two (thorough three) requests failing") { explore(mc::tierOf(2, 2, 3)); }
