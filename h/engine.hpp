// A small engine, used by the data set harnesses.
#pragma once
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <set>
#include <memory>
typedef fiftyoneDegreesDataSetBase Base; typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex; typedef std::string S;
enum { OK_ = FIFTYONE_DEGREES_STATUS_SUCCESS };
extern "C" {
void dsReset(Base*) asm("fiftyoneDegreesDataSetReset"); void dsFree(Base*) asm("fiftyoneDegreesDataSetFree"); int dsInitFromFile(Base*, const char*, long) asm("fiftyoneDegreesDataSetInitFromFile"); int dsInitInMemory(Base*, fiftyoneDegreesMemoryReader*) asm("fiftyoneDegreesDataSetInitInMemory");
int dsInitProperties(Base*, fiftyoneDegreesPropertiesRequired*, void*, fiftyoneDegreesPropertiesGetMethod, fiftyoneDegreesEvidencePropertiesGetMethod) asm("fiftyoneDegreesDataSetInitProperties"); int dsInitHeaders(Base*, void*, fiftyoneDegreesHeadersGetMethod) asm("fiftyoneDegreesDataSetInitHeaders");
fiftyoneDegreesOverridePropertyArray* ovCreate(fiftyoneDegreesPropertiesAvailable*, bool, void*, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate");
Base* dsGet(fiftyoneDegreesResourceManager*) asm("fiftyoneDegreesDataSetGet"); void dsRelease(Base*) asm("fiftyoneDegreesDataSetRelease");
int dsReloadMemory(fiftyoneDegreesResourceManager*, void*, long, size_t, fiftyoneDegreesDataSetInitFromMemoryMethod, Ex*) asm("fiftyoneDegreesDataSetReloadManagerFromMemory"); int dsReloadFile(fiftyoneDegreesResourceManager*, const char*, size_t, fiftyoneDegreesDataSetInitFromFileMethod, Ex*) asm("fiftyoneDegreesDataSetReloadManagerFromFile");
}
// A small engine built on the library the way the real ones are. Its data:
// a fixed width collection of five 16 byte strings: version, two property
// names, two header names.
struct Cfg { fiftyoneDegreesConfigBase b; fiftyoneDegreesCollectionConfig c; };
struct Ds { Base b; Cfg cfg; Coll* names; bool error; int magic; };
static std::set<Ds*> alive; static int refuse; // refuse: the engine's own initialisation fails at the end
static S image(int version, bool truncated) {
	S s; uint32_t n = 5; s.append((char*)&n, 4); S t[5] = { mc::fmt("version-%d", version), "alpha", "beta", "Hdr-A", "Hdr-B\x1fHdr-C" };
	for (auto& x : t) { char b[16] = { 0 }; int16_t l = (int16_t)x.size() + 1; memcpy(b, &l, 2); memcpy(b + 2, x.data(), x.size()); s.append(b, 16); }
	if (truncated) s.resize(30); return s;
}
static fiftyoneDegreesString* nameAt(Ds* d, uint32_t i, It* it) { Ex e; memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; void* p = d->names->get(d->names, i, it, &e); if (!p || (e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != OK_)) { d->error = true; return nullptr; } return (fiftyoneDegreesString*)p; }
static fiftyoneDegreesString* getName(void* s, uint32_t i, It* it) { return i < 2 ? nameAt((Ds*)s, 1 + i, it) : nullptr; }
static uint32_t getEvidence(void*, fiftyoneDegreesPropertyAvailable*, fiftyoneDegreesEvidenceProperties* e) { if (e) e->items[0] = 7; return 1; }
static long getHeader(void* s, uint32_t i, It* it) { if (i >= 2) return -1; return nameAt((Ds*)s, 3 + i, it) ? (long)(100 + i) : -1; }
static bool overridable(void*, uint32_t) { return true; }
static void freeInner(Ds* d) { dsFree(&d->b); if (d->names) { d->names->freeCollection(d->names); d->names = nullptr; } }
static void freeDs(void* p) { Ds* d = (Ds*)p; if (!alive.count(d)) mc::fail("dataset:double-free", "a data set was freed that is not in existence"); alive.erase(d); d->magic = 0; freeInner(d); fiftyoneDegreesFree(d); }
static void start(Ds* d, const void* config) { memset((void*)d, 0xA5, sizeof *d); dsReset(&d->b); memcpy(&d->cfg, config, sizeof d->cfg); d->b.config = &d->cfg; d->names = nullptr; d->error = false; d->magic = 0x51D; alive.insert(d); }
static int finish(Ds* d, fiftyoneDegreesPropertiesRequired* props) {
	int st = dsInitProperties(&d->b, props, d, getName, getEvidence); if (st != OK_) return st; if (d->error) return FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE;
	st = dsInitHeaders(&d->b, d, getHeader); if (st != OK_) return st; if (d->error) return FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE;
	d->b.overridable = ovCreate(d->b.available, false, d, overridable); if (!d->b.overridable) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	return refuse ? FIFTYONE_DEGREES_STATUS_CORRUPT_DATA : OK_;
}
static int fromReader(Ds* d, fiftyoneDegreesMemoryReader* r, fiftyoneDegreesPropertiesRequired* props) {
	auto h = fiftyoneDegreesCollectionHeaderFromMemory(r, 16, true); d->names = fiftyoneDegreesCollectionCreateFromMemory(r, h); if (!d->names) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return finish(d, props);
}
static fiftyoneDegreesStatusCode initMemory(void* ds, const void* config, fiftyoneDegreesPropertiesRequired* props, void* mem, long size, Ex*) {
	Ds* d = (Ds*)ds; start(d, config); d->b.isInMemory = true; fiftyoneDegreesMemoryReader r; r.startByte = r.current = (byte*)mem; r.length = size; r.lastByte = r.startByte + size; int st = fromReader(d, &r, props);
	if (st != OK_) { alive.erase(d); freeInner(d); } return (fiftyoneDegreesStatusCode)st; // the data set structure itself is freed by the caller
}
static int fromFile(Ds* d, fiftyoneDegreesPropertiesRequired* props, const char* file, Ex* e) {
	int st = dsInitFromFile(&d->b, file, -1); if (st != OK_) return st;
	if (d->cfg.b.allInMemory) { d->b.isInMemory = true; fiftyoneDegreesMemoryReader r; memset(&r, 0, sizeof r); st = dsInitInMemory(&d->b, &r); if (st != OK_) return st; return fromReader(d, &r, props); }
	st = fiftyoneDegreesFilePoolInit(&d->b.filePool, d->b.fileName, 3, e); if (st != OK_) return st;
	auto h = fiftyoneDegreesFileHandleGet(&d->b.filePool, e); if (!h) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES;
	bool at0 = fseek(h->file, 0, SEEK_SET) == 0; auto hd = fiftyoneDegreesCollectionHeaderFromFile(h->file, 16, true); if (at0 && hd.count == 5) d->names = fiftyoneDegreesCollectionCreateFromFile(h->file, &d->b.filePool, &d->cfg.c, hd, fiftyoneDegreesCollectionReadFileFixed);
	fiftyoneDegreesFileHandleRelease(h); if (!d->names) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return finish(d, props);
}
static fiftyoneDegreesStatusCode initFile(void* ds, const void* config, fiftyoneDegreesPropertiesRequired* props, const char* file, Ex* e) { Ds* d = (Ds*)ds; start(d, config); int st = fromFile(d, props, file, e); if (st != OK_) freeDs(d); return (fiftyoneDegreesStatusCode)st; }

