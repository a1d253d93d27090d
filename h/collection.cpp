// FLAVOR: asan
// PROPS: C08 C09 C11 C18
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <limits.h>
#include <algorithm>
#include <memory>
extern "C" FILE* __wrap_fopen(const char*, const char*); extern "C" int __wrap_fclose(FILE*); // the files the library sees
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY // nothing is read by item
#define fiftyoneDegreesStringRead nullptr
#define fiftyoneDegreesCollectionReadFileFixed nullptr
#endif
typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It; typedef fiftyoneDegreesException Ex;
static void clear(Ex& e) { memset(&e, 0, sizeof e); e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; }
static bool bad(const Ex& e) { return e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != FIFTYONE_DEGREES_STATUS_SUCCESS; }
// ---- source data -------------------------------------------------------------
struct Source { bool variable; uint32_t es; bool isCount; std::vector<std::string> items; std::vector<uint32_t> keys; std::string body; };
static Source makeFixed(uint32_t es, int n, bool isCount, int salt) {
	Source s; s.variable = false; s.es = es; s.isCount = isCount;
	for (int i = 0; i < n; i++) { std::string b; for (uint32_t j = 0; j < es; j++) b += (char)(salt + i * 16 + j + 1); s.items.push_back(b); s.keys.push_back(i); s.body += b; }
	return s;
}
static Source makeVariable(const std::vector<int>& lens, int salt) {
	Source s; s.variable = true; s.es = 0; s.isCount = false;
	for (size_t i = 0; i < lens.size(); i++) { int16_t l = (int16_t)lens[i]; std::string b((char*)&l, 2); for (int j = 0; j < l; j++) b += (char)(salt + i * 16 + j + 1); s.keys.push_back((uint32_t)s.body.size()); s.items.push_back(b); s.body += b; }
	return s;
}
static void putHeader(std::string& f, const Source& s) { uint32_t v = s.isCount ? (uint32_t)s.items.size() : (uint32_t)s.body.size(); f.append((char*)&v, 4); }
static std::string layout(const std::vector<const Source*>& v) { std::string f = "junkjunk"; for (auto s : v) { putHeader(f, *s); f += s->body; } f += "tailtail"; return f; }
// ---- configurations ----------------------------------------------------------
struct Config { bool memory; uint32_t loaded, capacity; uint16_t concurrency; };
static std::string show(const Config& c) { return c.memory ? "memory" : mc::fmt("file(loaded=%u capacity=%u concurrency=%u)", c.loaded, c.capacity, c.concurrency); }
static uint32_t shardCap(const Config& c) { return c.capacity / c.concurrency; }
static bool legal(const Config& c) { return c.memory || (c.concurrency > 0 && (c.capacity == 0 || shardCap(c) >= c.concurrency)); }
static bool cached(const Config& c) { return !c.memory && c.capacity > 0 && c.concurrency > 0; }
// Everything that is open for one data set of some collections
struct World {
	std::vector<const Source*> src; std::vector<Config> cfg; std::vector<Coll*> coll; std::unique_ptr<char[]> mem; size_t memLen = 0; FILE* file = nullptr; fiftyoneDegreesFilePool pool; bool poolOk = false; uint16_t poolConc;
	// creates; returns false when some collection could not be created
	bool create(bool judge, uint16_t handles) {
		std::string data = layout(src); coll.assign(src.size(), nullptr); poolConc = handles; bool all = true;
		bool anyFile = false; for (auto& c : cfg) anyFile |= !c.memory;
		std::string name = "d.bin"; int mf = env::memFaults, io = env::ioFaults; env::memFaults = env::ioFaults = 0;
		fiftyoneDegreesMemoryReader r; mem.reset(new char[data.size()]); memcpy(mem.get(), data.data(), data.size()); r.startByte = r.current = (byte*)mem.get(); r.length = (long)data.size(); r.lastByte = r.startByte + data.size();
		if (anyFile) {
			env::writeFile(name, data); Ex e; clear(e); mc::label("collection:pool");
			if (fiftyoneDegreesFilePoolInit(&pool, name.c_str(), handles, &e) != FIFTYONE_DEGREES_STATUS_SUCCESS) mc::fail("pool", "file pool not created");
			poolOk = true; file = __wrap_fopen(name.c_str(), "rb");
			// all pool handles exist from here on, so faults below concern the collections
		}
		env::memFaults = mf; env::ioFaults = io;
		uint32_t at = 8;
		for (size_t i = 0; i < src.size(); i++) {
			const Source& s = *src[i]; mc::label("collection:create %s", cfg[i].memory ? "memory" : "file");
			if (cfg[i].memory) {
				r.current = r.startByte + at; auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, s.es, s.isCount); coll[i] = fiftyoneDegreesCollectionCreateFromMemory(&r, h);
				if (judge && coll[i]) MC_CHECK(r.current == r.startByte + at + 4 + s.body.size(), "collection:position", "the reader is not behind the collection");
			}
			else {
				{ int k = env::ioFaults; env::ioFaults = 0; fseek(file, at, SEEK_SET); env::ioFaults = k; } auto h = fiftyoneDegreesCollectionHeaderFromFile(file, s.es, s.isCount);
				fiftyoneDegreesCollectionConfig c = { cfg[i].loaded, cfg[i].capacity, cfg[i].concurrency };
				if (h.startPosition == at + 4 || !env::faultsFired) coll[i] = fiftyoneDegreesCollectionCreateFromFile(file, &pool, &c, h, s.variable ? fiftyoneDegreesStringRead : fiftyoneDegreesCollectionReadFileFixed);
				if (judge && coll[i] && !env::faultsFired) MC_CHECK(ftell(file) == (long)(at + 4 + s.body.size()), "collection:position", "the file is not positioned behind the collection");
			}
			at += 4 + (uint32_t)s.body.size(); if (!coll[i]) { all = false; if (judge && legal(cfg[i]) && !env::faultsFired) mc::fail("collection:create", "no collection for %s", show(cfg[i]).c_str()); }
		}
		return all;
	}
	void destroy() {
		mc::label("collection:free"); env::memFaults = env::ioFaults = 0;
		for (auto& c : coll) if (c) { c->freeCollection(c); c = nullptr; }
		if (file) { __wrap_fclose(file); file = nullptr; } if (poolOk) { fiftyoneDegreesFilePoolRelease(&pool); poolOk = false; }
	}
};
static void checkItem(const char* sig, const Source& s, int k, const It& it) { const std::string& b = s.items[k]; MC_CHECK(it.data.ptr, sig, "no data"); MC_CHECK(!memcmp(it.data.ptr, b.data(), b.size()), sig, "item %u holds other bytes than the source", s.keys[k]); }
// keys to ask for: the valid ones and ones beyond the data
static std::vector<uint32_t> keysOf(const Source& s) { std::vector<uint32_t> k = s.keys; k.push_back(s.variable ? (uint32_t)s.body.size() : (uint32_t)s.items.size()); k.push_back(UINT32_MAX); k.push_back(0x80000000u); return k; }
// ---- C08: histories ----------------------------------------------------------
struct Slot { It it; int coll, key; };
static bool history(const std::vector<const Source*>& src, const std::vector<Config>& cfg, int slots, const std::vector<int>& h, std::string& canon, bool concrete) {
	env::reset(); World w; w.src = src; w.cfg = cfg; w.create(true, 2); bool ok = true; std::vector<Slot> s(slots); std::vector<std::pair<int, int>> lru;
	for (auto& x : s) { memset(&x.it, 0xA5, sizeof x.it); fiftyoneDegreesDataReset(&x.it.data); x.coll = x.key = -1; }
	std::vector<std::pair<int, int>> ops; std::vector<std::vector<uint32_t>> keys; for (size_t c = 0; c < src.size(); c++) { keys.push_back(keysOf(*src[c])); for (size_t k = 0; k < keys[c].size(); k++) ops.push_back({ (int)c, (int)k }); }
	std::string last; int per = (int)ops.size() + 1;
	for (size_t step = 0; step < h.size() && ok; step++) {
		Slot& x = s[h[step] / per]; int o = h[step] % per; last = mc::fmt("%d", o == per - 1 ? -1 : ops[o].first);
		if (o == per - 1) {
			if (x.key < 0) { ok = false; break; }
			mc::label("collection:release"); Coll* c = w.coll[x.coll]; FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &x.it);
			auto p = std::make_pair(x.coll, x.key); lru.erase(std::remove(lru.begin(), lru.end(), p), lru.end()); lru.push_back(p); if (lru.size() > 4) lru.erase(lru.begin()); x.key = -1;
		}
		else {
			if (x.key >= 0) { ok = false; break; }
			int ci = ops[o].first, ki = ops[o].second; const Source& so = *src[ci]; bool valid = ki < (int)so.items.size(); Ex e; clear(e);
			mc::label("collection:get %s", valid ? "valid" : "beyond"); void* p = w.coll[ci]->get(w.coll[ci], keys[ci][ki], &x.it, &e);
			if (valid) {
				int held = 0; for (auto& y : s) if (y.key >= 0 && y.coll == ci && !(y.key == ki)) held++;
				if (cached(cfg[ci]) && held >= (int)shardCap(cfg[ci])) { if (!p) { ok = false; break; } }
				MC_CHECK(p && !bad(e), "collection:refused", "item %u could not be fetched (status %d)", keys[ci][ki], (int)e.status); MC_CHECK(p == x.it.data.ptr, "collection:pointer", "the pointer returned is not the item's");
				x.coll = ci; x.key = ki;
			}
			else { MC_CHECK(!p, "collection:beyond", "%u is beyond the data but an item was returned", keys[ci][ki]); MC_CHECK(bad(e), "collection:beyond-silent", "%u is beyond the data but no error was reported", keys[ci][ki]); }
		}
		for (auto& y : s) if (y.key >= 0) checkItem("collection:bytes", *src[y.coll], y.key, y.it);
	}
	canon = last + "|"; for (auto& x : s) canon += mc::fmt("%d.%d ", x.coll, x.key); for (auto& p : lru) canon += mc::fmt(",%d.%d", p.first, p.second);
	if (ok) { // what the implementation holds, but for the counters of its caches
		env::Ranges counters; env::eachBlock([&](const void* p, size_t n) { auto k = (const fiftyoneDegreesCache*)p; if (n >= sizeof *k && k->hash == fiftyoneDegreesCacheHash32) { counters.push_back({ &k->hits, sizeof k->hits }); counters.push_back({ &k->misses, sizeof k->misses }); } });
		if (concrete) canon += env::heapState({ { s.data(), s.size() * sizeof(Slot) } }, counters);
		for (size_t c = 0; c < src.size(); c++) if (!src[c]->variable) MC_CHECK(fiftyoneDegreesCollectionGetCount(w.coll[c]) == src[c]->items.size(), "collection:count", "count %u, there are %zu items", fiftyoneDegreesCollectionGetCount(w.coll[c]), src[c]->items.size());
		for (auto& x : s) if (x.key >= 0) { mc::label("collection:release"); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[x.coll], &x.it); }
		w.destroy(); env::checkBalanced("collection:free");
	}
	else { for (auto& x : s) if (x.key >= 0) FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[x.coll], &x.it); w.destroy(); }
	return ok;
}
static std::vector<Source> sources() {
	std::vector<Source> v; v.push_back(makeFixed(4, 3, false, 0)); v.push_back(makeFixed(1, 2, true, 3)); v.push_back(makeFixed(5, 4, true, 7)); v.push_back(makeFixed(4, 0, false, 0)); v.push_back(makeFixed(3, 1, false, 9));
	v.push_back(makeVariable({ 1, 4, 2 }, 0)); v.push_back(makeVariable({ 3 }, 4)); v.push_back(makeVariable({ 2, 0, 5, 1 }, 5)); return v;
}
static std::vector<Config> configs() {
	std::vector<Config> v; v.push_back({ true, 0, 0, 0 });
	for (uint32_t l : { 0, 1, 2, 3, 4, 7, 100 }) { for (auto cc : { std::pair<uint32_t, uint16_t>{ 0, 0 }, { 0, 1 }, { 1, 1 }, { 2, 1 }, { 4, 2 }, { 5, 2 }, { 20, 1 } }) v.push_back({ false, l, cc.first, cc.second }); }
	return v;
}
static Config pickConfig(const std::vector<Config>& v) { return v[mc::choose((int)v.size())]; }
MC_SUITE(C08, histories, 2, "8 data sources (fixed width 1,3,4,5, variable width, empty) x 50 storage configurations; all histories of gets (every index and offset, 3 beyond the data) and releases of 2 item objects, breadth first over model states (deeper) and over the implementation's states (shallower)") {
	static std::vector<Source> S = sources(); static std::vector<Config> C = configs(); const Source& s = S[mc::choose((int)S.size())]; const Config& c = C[mc::choose((int)C.size())];
	// two collections one after the other in the same data, the second one holding other data
	static Source other = makeFixed(2, 2, true, 100); mc::note("%s es=%u n=%zu %s", s.variable ? "variable" : "fixed", s.es, s.items.size(), show(c).c_str());
	std::vector<const Source*> src = { &s, &other }; std::vector<Config> cfg = { c, c }; int per = (int)(keysOf(s).size() + keysOf(other).size()) + 1;
	bool concrete = mc::flip();
	auto r = mc::bfs(2 * per, [&](const std::vector<int>& h, std::string& canon) { return history(src, cfg, 2, h, canon, concrete); }, concrete ? mc::tierOf(60, 300, 6000) : mc::tierOf(40, 150, 4000), [&](int o) { return mc::fmt("slot%d:%s%d", o / per, o % per == per - 1 ? "release" : "get", o % per); }, mc::tier(5, 12));
	mc::outcome(mc::fmt("%s %zu states depth %d", show(c).c_str(), r.states, r.depth));
}
MC_SUITE(C08, integers, 2, "the 32 bit integer helper over 50 storage configurations of 3 items: every sequence of up to 4 (thorough 5) indexes in and beyond the data gives the number held there or an error, with nothing kept") {
	static Source s = makeFixed(4, 3, false, 0); static std::vector<Config> C = configs(); Config c = pickConfig(C); mc::note("%s", show(c).c_str()); World w; w.src = { &s }; w.cfg = { c }; w.create(true, 2); auto keys = keysOf(s); int depth = mc::tier(4, 5);
	for (int d = 0; d < depth; d++) {
		int k = mc::choose((int)s.items.size() + 1); bool valid = k < (int)s.items.size(); Ex e; clear(e); mc::step(); mc::note("%u", keys[k]); mc::label("collection:integer"); size_t files = env::openFiles(); int32_t got = fiftyoneDegreesCollectionGetInteger32(w.coll[0], keys[k], &e), want = 0;
		if (valid) { memcpy(&want, s.items[k].data(), 4); MC_CHECK(!bad(e) && got == want, "collection:bytes", "item %u read as %08x, it holds %08x (status %d)", keys[k], got, want, (int)e.status); }
		else MC_CHECK(bad(e), "collection:beyond-silent", "%u is beyond the data but no error was reported", keys[k]); (void)files;
		// nothing is kept: all the capacity can be used at once
		if (cached(c)) { std::vector<It> its(shardCap(c) < 3 ? 1 : 3); for (size_t i = 0; i < its.size(); i++) { fiftyoneDegreesDataReset(&its[i].data); Ex x; clear(x); MC_CHECK(w.coll[0]->get(w.coll[0], keys[i], &its[i], &x) && !bad(x), "collection:refused", "item %u could not be fetched", keys[i]); } for (auto& i : its) FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &i); }
	}
	mc::outcome(show(c)); w.destroy(); env::checkBalanced("collection:free");
}
MC_SUITE(C08, reuse, 2, "all pairs of 10 storage configurations over the same data set: one item object used for every sequence of up to 4 gets (in and beyond range) and releases on both collections") {
	static std::vector<Source> S; if (S.empty()) { S.push_back(makeFixed(8, 2, true, 0)); S.push_back(makeVariable({ 1, 6 }, 50)); }
	static std::vector<Config> C = { { true, 0, 0, 0 }, { false, 0, 0, 1 }, { false, 1, 0, 1 }, { false, 1, 2, 1 }, { false, 0, 1, 1 }, { false, 0, 2, 1 }, { false, 9, 0, 0 }, { false, 0, 4, 2 }, { false, 2, 2, 1 }, { false, 100, 0, 0 } };
	Config a = pickConfig(C), b = pickConfig(C); bool swap = mc::flip(); mc::note("%s then %s", show(a).c_str(), show(b).c_str()); std::vector<const Source*> src = { &S[swap], &S[!swap] }; std::vector<Config> cfg = { a, b };
	int per = (int)(keysOf(S[0]).size() + keysOf(S[1]).size()) + 1; std::vector<int> h;
	World w; w.src = src; w.cfg = cfg; w.create(true, 1); It it; memset(&it, 0xA5, sizeof it); fiftyoneDegreesDataReset(&it.data); int depth = mc::tier(4, 6);
	for (int d = 0; d < depth; d++) {
		int ci = mc::choose(2), ki = mc::choose((int)src[ci]->items.size() + 1); const Source& s = *src[ci]; auto keys = keysOf(s); Ex e; clear(e); bool valid = ki < (int)s.items.size(); mc::note("get %d:%d", ci, ki); mc::step();
		mc::label("collection:get %s", valid ? "valid" : "beyond"); void* p = w.coll[ci]->get(w.coll[ci], keys[ki], &it, &e);
		if (valid) { MC_CHECK(p && !bad(e), "collection:refused", "item %u could not be fetched (status %d)", keys[ki], (int)e.status); checkItem("collection:bytes", s, ki, it); mc::label("collection:release"); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[ci], &it); }
		else { MC_CHECK(!p, "collection:beyond", "%u is beyond the data but an item was returned", keys[ki]); MC_CHECK(bad(e), "collection:beyond-silent", "%u is beyond the data but no error was reported", keys[ki]); }
	}
	(void)per; w.destroy(); env::checkBalanced("collection:free");
}
// ---- C09: faults -------------------------------------------------------------
static void faulty(bool io, int budget, int depth) {
	static std::vector<Source> S; if (S.empty()) { S.push_back(makeFixed(4, 3, false, 0)); S.push_back(makeVariable({ 1, 4, 2 }, 0)); S.push_back(makeFixed(2, 3, true, 5)); }
	static std::vector<Config> C = { { false, 0, 0, 0 }, { false, 0, 1, 1 }, { false, 0, 2, 1 }, { false, 0, 4, 2 }, { false, 1, 0, 1 }, { false, 2, 1, 1 }, { false, 1, 2, 1 }, { false, 3, 0, 0 }, { false, 50, 0, 0 }, { true, 0, 0, 0 } };
	const Source& s = S[mc::choose((int)S.size())]; const Config& c = C[mc::choose((int)C.size() - (io ? 1 : 0))]; env::unbuffered = io && mc::flip(); env::faultMask = env::F_READ | env::F_SHORT | env::F_SEEK | env::F_OPEN;
	mc::note("%s %s", s.variable ? "variable" : "fixed", show(c).c_str()); World w; w.src = { &s }; w.cfg = { c }; auto keys = keysOf(s); keys.resize(s.items.size() + 1);
	(io ? env::ioFaults : env::memFaults) = budget; bool made = w.create(false, 1);
	if (!made) { MC_CHECK(env::faultsFired, "collection:create", "not created although nothing failed"); w.destroy(); env::checkBalanced("collection:create"); mc::outcome("create failed: " + env::lastFault); return; }
	std::vector<Slot> sl(2); for (auto& x : sl) { memset(&x.it, 0xA5, sizeof x.it); fiftyoneDegreesDataReset(&x.it.data); x.key = -1; }
	for (int d = 0; d < depth; d++) {
		int o = mc::choose((int)keys.size() + 2); mc::step();
		if (o >= (int)keys.size()) { Slot& x = sl[o - keys.size()]; if (x.key < 0) mc::prune(); mc::note("release"); mc::label("collection:release"); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &x.it); x.key = -1; }
		else {
			Slot* x = nullptr; for (auto& y : sl) if (y.key < 0) { x = &y; break; } if (!x) mc::prune(); bool valid = o < (int)s.items.size(); int before = env::memFaultsFired + env::ioFaultsFired; size_t blocks = env::liveBlocks();
			Ex e; clear(e); mc::note("get %u", keys[o]); mc::label("collection:get with fault"); void* p = w.coll[0]->get(w.coll[0], keys[o], &x->it, &e); bool hit = env::memFaultsFired + env::ioFaultsFired > before;
			if (p) { MC_CHECK(!bad(e), "fault:item-with-error", "an item was returned together with status %d", (int)e.status); MC_CHECK(valid, "collection:beyond", "an item beyond the data"); checkItem("fault:bytes", s, o, x->it); x->key = o; }
			else {
				int held = 0; for (auto& y : sl) if (y.key >= 0 && y.key != o) held++;
				MC_CHECK(bad(e), "fault:silent", "no item and no error status%s%s", hit ? " after " : "", hit ? env::lastFault.c_str() : "");
				bool full = cached(c) && held >= (int)shardCap(c); if (valid && !full) MC_CHECK(hit, "fault:lasting", "item %u could not be fetched although nothing failed during the call (status %d)", keys[o], (int)e.status);
				if (!cached(c)) MC_CHECK(env::liveBlocks() == blocks || !hit, "fault:leak", "%zu blocks before the failed get, %zu after", blocks, env::liveBlocks());
			}
		}
		for (auto& y : sl) if (y.key >= 0) checkItem("fault:held-changed", s, y.key, y.it);
	}
	env::memFaults = env::ioFaults = 0;
	for (auto& y : sl) if (y.key >= 0) { mc::label("collection:release"); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &y.it); y.key = -1; }
	// everything works again with the same item objects, and with all the entries and handles
	for (int round = 0; round < 2; round++) for (size_t k = 0; k < s.items.size(); k++) { Ex e; clear(e); mc::label("collection:get after fault"); void* p = w.coll[0]->get(w.coll[0], keys[k], &sl[0].it, &e); MC_CHECK(p && !bad(e), "fault:lasting", "item %u can not be fetched after the fault has gone (status %d)", keys[k], (int)e.status); checkItem("fault:bytes-after", s, (int)k, sl[0].it); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &sl[0].it); }
	uint32_t can = cached(c) ? shardCap(c) : 3; std::vector<It> held; for (size_t k = 0; k < s.items.size() && k < can; k++) { It it; fiftyoneDegreesDataReset(&it.data); it.handle = nullptr; Ex e; clear(e); void* p = w.coll[0]->get(w.coll[0], keys[k], &it, &e); MC_CHECK(p && !bad(e), "fault:capacity", "only %zu of %u items can be held at once after the fault", k, can); held.push_back(it); }
	for (size_t k = 0; k < held.size(); k++) { checkItem("fault:bytes-after", s, (int)k, held[k]); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &held[k]); }
	Ex e; clear(e); fiftyoneDegreesFileHandle* hd = w.poolOk ? fiftyoneDegreesFileHandleGet(&w.pool, &e) : nullptr; if (w.poolOk) { MC_CHECK(hd && !bad(e), "fault:handles", "the file handle was not given back"); fiftyoneDegreesFileHandleRelease(hd); }
	w.destroy(); env::checkBalanced("collection:free"); mc::outcome(env::faultsFired ? "survived " + env::lastFault : "no fault");
}
MC_SUITE(C09, device, 4, "one device fault (open, read, premature end, seek; buffered or not) at every point of creating 3 data sources in 9 configurations and of every history of 5 gets and releases with 2 item objects; then full use again") { faulty(true, mc::tier(1, 2), mc::tier(5, 5)); }
MC_SUITE(C09, memory, 4, "one failing memory request at every point of creating 3 data sources in 10 configurations and of every history of 5 gets and releases with 2 item objects; then full use again") { faulty(false, mc::tier(1, 2), mc::tier(5, 6)); }
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY // no handles and no entries, and nothing is given back
MC_SUITE(C09, exhaustion, 2, "all file handles in use, or all cache entries in use, at a get: error status, no item, nothing lost, works afterwards") {
	static std::vector<Source> S; if (S.empty()) { S.push_back(makeFixed(4, 4, false, 0)); S.push_back(makeVariable({ 1, 4, 2, 3 }, 0)); }
	static std::vector<Config> C = { { false, 0, 0, 0 }, { false, 0, 1, 1 }, { false, 0, 2, 1 }, { false, 1, 0, 0 }, { false, 1, 1, 1 }, { false, 1, 2, 1 } };
	const Source& s = S[mc::choose(2)]; const Config& c = C[mc::choose((int)C.size())]; World w; w.src = { &s }; w.cfg = { c }; uint16_t handles = (uint16_t)(1 + mc::choose(2)); w.create(false, handles); MC_CHECK(w.coll[0], "collection:create", "no collection"); mc::note("%s handles=%u", show(c).c_str(), handles);
	int takes = mc::choose(handles + 1); std::vector<fiftyoneDegreesFileHandle*> hs; Ex e; clear(e); for (int i = 0; i < takes; i++) hs.push_back(fiftyoneDegreesFileHandleGet(&w.pool, &e)); MC_CHECK(!bad(e), "handles", "handle refused");
	std::vector<It> held; std::vector<int> keys; std::vector<uint32_t> ks = s.keys; int first = mc::choose((int)ks.size());
	for (size_t i = 0; i < ks.size(); i++) {
		int k = (int)((first + i) % ks.size()); It it; fiftyoneDegreesDataReset(&it.data); clear(e); mc::label("collection:get exhausted"); void* p = w.coll[0]->get(w.coll[0], ks[k], &it, &e); bool resident = (uint32_t)k < c.loaded;
		bool must = resident || (takes < handles && (!cached(c) || (int)std::count_if(keys.begin(), keys.end(), [&](int x) { return (uint32_t)x >= c.loaded; }) < (int)c.capacity));
		if (p) { MC_CHECK(!bad(e), "fault:item-with-error", "item with an error"); checkItem("fault:bytes", s, k, it); held.push_back(it); keys.push_back(k); if (!resident && takes == handles) mc::fail("fault:handles", "an item was read although no handle was free"); }
		else { MC_CHECK(bad(e), "fault:silent", "no item and no error status when %s", takes == handles ? "no handle is free" : "no entry is free"); MC_CHECK(!must, "fault:false-exhaustion", "refused although a handle and an entry were free"); }
	}
	for (auto h : hs) fiftyoneDegreesFileHandleRelease(h);
	for (size_t i = 0; i < held.size(); i++) { checkItem("fault:held-changed", s, keys[i], held[i]); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &held[i]); }
	for (size_t k = 0; k < ks.size(); k++) { It it; fiftyoneDegreesDataReset(&it.data); clear(e); void* p = w.coll[0]->get(w.coll[0], ks[k], &it, &e); MC_CHECK(p && !bad(e), "fault:lasting", "item %zu can not be fetched afterwards", k); checkItem("fault:bytes-after", s, (int)k, it); FIFTYONE_DEGREES_COLLECTION_RELEASE(w.coll[0], &it); }
	w.destroy(); env::checkBalanced("collection:free"); mc::outcome(mc::fmt("%zu held", held.size()));
}
// ---- C11: search -------------------------------------------------------------
struct Search { uint32_t target, lo, hi; int calls, failAt; bool outside; const Source* s; };
static int compare(void* state, It* item, long index, Ex* exception) {
	Search* q = (Search*)state; q->calls++; if (index < (long)q->lo || index > (long)q->hi) q->outside = true; uint32_t v; memcpy(&v, item->data.ptr, 4);
	MC_CHECK(!memcmp(item->data.ptr, q->s->items[index].data(), 4), "search:item", "the comparer was given another item");
	if (q->failAt == q->calls) { exception->status = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return 0; }
	return v < q->target ? -1 : v > q->target ? 1 : 0;
}
static int gets, releases; static Coll* spied; static fiftyoneDegreesCollectionGetMethod realGet; static fiftyoneDegreesCollectionReleaseMethod realRelease; static std::vector<uint32_t> asked;
static void* spyGet(Coll* c, uint32_t i, It* it, Ex* e) { asked.push_back(i); void* p = realGet(c, i, it, e); if (p) gets++; return p; }
static void spyRelease(It* it) { releases++; MC_CHECK(releases <= gets, "search:double-release", "an item was released twice"); realRelease(it); }
MC_SUITE(C11, sorted, 4, "every sorted content of up to 5 (thorough 7) items over 4 values, every pair of bounds, every target, 4 storage configurations (one cache entry only in one); with the comparer or the device failing at every step") {
	static std::vector<Config> C = { { true, 0, 0, 0 }, { false, 0, 0, 0 }, { false, 0, 1, 1 }, { false, 2, 1, 1 } }; const Config& c = C[mc::choose(4)]; int n = 1 + mc::choose(mc::tier(5, 7)), v = 0; Source s; s.variable = false; s.es = 4; s.isCount = false; std::vector<uint32_t> vals;
	for (int i = 0; i < n; i++) { v += mc::choose(4 - v); uint32_t x = v * 2 + 1; vals.push_back(x); s.items.push_back(std::string((char*)&x, 4)); s.keys.push_back(i); s.body.append((char*)&x, 4); }
	Search q; q.s = &s; q.lo = mc::choose(n); q.hi = q.lo + mc::choose(n - q.lo); q.target = mc::choose(9); q.calls = 0; q.outside = false; int fault = mc::choose(3); q.failAt = fault == 1 ? 1 + mc::choose(3) : 0;
	std::string vs; for (auto x : vals) vs += mc::fmt("%u ", x); mc::note("%s [%s] %u..%u target %u", show(c).c_str(), vs.c_str(), q.lo, q.hi, q.target); World w; w.src = { &s }; w.cfg = { c }; w.create(false, 1); MC_CHECK(w.coll[0], "collection:create", "no collection");
	Coll* co = spied = w.coll[0]; realGet = co->get; realRelease = co->release; co->get = spyGet; if (co->release) co->release = spyRelease; gets = releases = 0; asked.clear();
	It it; memset(&it, 0xA5, sizeof it); Ex e; clear(e); if (fault == 2) { if (c.memory) mc::prune(); env::faultMask = env::F_READ | env::F_SHORT | env::F_SEEK; env::ioFaults = 1; } mc::label("search");
	long r = fiftyoneDegreesCollectionBinarySearch(co, &it, q.lo, q.hi, &q, compare, &e); env::ioFaults = 0; mc::step(); co->get = realGet; co->release = realRelease; size_t steps = asked.size();
	MC_CHECK(!q.outside, "search:outside", "an item outside the bounds was compared"); for (auto a : asked) MC_CHECK(a >= q.lo && a <= q.hi, "search:outside", "index %u outside the bounds was fetched", a);
	MC_CHECK(steps <= 64, "search:steps", "%zu items fetched", steps);
	bool there = false; for (uint32_t i = q.lo; i <= q.hi; i++) there |= vals[i] == q.target;
	if (bad(e)) { MC_CHECK(q.failAt || env::faultsFired, "search:false-error", "an error although nothing failed"); MC_CHECK(gets == releases, "search:leak", "%d items fetched, %d released after an error", gets, releases); }
	else {
		if (q.failAt && q.calls >= q.failAt) mc::fail("search:error-lost", "the comparer's error was lost");
		if (there) { MC_CHECK(r >= (long)q.lo && r <= (long)q.hi && vals[r] == q.target, "search:missed", "returned %ld although there is a match", r); MC_CHECK(gets == releases + 1 || !realRelease, "search:leak", "%d items fetched, %d released", gets, releases); uint32_t x; memcpy(&x, it.data.ptr, 4); MC_CHECK(x == q.target, "search:item", "the item is not the one found"); co->release(&it); }
		else { MC_CHECK(r < 0, "search:invented", "returned %ld although there is no match", r); MC_CHECK(gets == releases, "search:leak", "%d items fetched, %d released", gets, releases); }
	}
	w.destroy(); env::checkBalanced("search"); mc::outcome(mc::fmt("%ld in %zu", bad(e) ? -9 : r, steps)); mc::state(mc::hashStr(vs) * 31 + q.lo * 7 + q.hi);
}
// Collections too large to hold: the items are computed, so the bounds can lie anywhere in the index range.
static uint32_t vDup, vHeld, vValue, vLo, vHi; static int vSteps; static int64_t vTarget; static std::string vBad;
static uint32_t vAt(uint32_t i) { return i / vDup; }
static void* vGet(Coll* c, uint32_t i, It* it, Ex* e) {
	if (i < vLo || i > vHi) { vBad = mc::fmt("index %u was fetched", i); e->status = FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE; return nullptr; }
	if (++vSteps > 64) { vBad = "more than 64 items fetched"; e->status = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return nullptr; }
	vHeld++; vValue = vAt(i); it->collection = c; it->handle = nullptr; it->data.ptr = (byte*)&vValue; it->data.used = 4; it->data.allocated = 0; return &vValue;
}
static void vRelease(It* it) { if (!vHeld--) vBad = "an item was released twice"; }
static int vCompare(void*, It* it, long index, Ex*) { uint32_t v; memcpy(&v, it->data.ptr, 4); if (v != vAt((uint32_t)index)) vBad = "another item was compared"; return v < vTarget ? -1 : v > vTarget ? 1 : 0; }
MC_SUITE(C11, wide, 2, "computed collections of 2^32 - 1 items (runs of 1 or 3 equal items): 14 lower bounds at the extremes of the index types x 12 widths x every target around the ends, the middle and outside") {
	static const std::vector<uint32_t> L = { 0, 1, 2, 0x7FFFFFF0u, 0x7FFFFFFEu, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0x90000000u, 0xC0000000u, 0xFFFFFF00u, 0xFFFFFFFCu, 0xFFFFFFFDu, 0xFFFFFFFEu }, W = { 0, 1, 2, 3, 4, 7, 16, 100, 65536, 0x7FFFFFFEu, 0x80000000u, 0xFFFFFFFEu };
	vLo = mc::pick(L); uint64_t hi = (uint64_t)vLo + mc::pick(W); if (hi > 0xFFFFFFFEu) mc::prune(); vHi = (uint32_t)hi; vDup = mc::flip() ? 3 : 1; int t = mc::choose(5); int64_t at[] = { vAt(vLo), vAt(vHi), vAt(vLo + (vHi - vLo) / 2), vAt(vLo + (vHi - vLo) / 3), vAt(vLo + (vHi - vLo) / 4 * 3) }; vTarget = at[t] + mc::choose(5) - 2;
	mc::note("%u..%u runs of %u target %lld", vLo, vHi, vDup, (long long)vTarget); mc::label("search"); vHeld = 0; vSteps = 0; vBad.clear(); Coll c; memset(&c, 0, sizeof c); c.get = vGet; c.release = vRelease; c.count = c.size = 0xFFFFFFFFu; c.elementSize = 4;
	It it; memset(&it, 0xA5, sizeof it); Ex e; clear(e); int dummy; long r = fiftyoneDegreesCollectionBinarySearch(&c, &it, vLo, vHi, &dummy, vCompare, &e); mc::step();
	MC_CHECK(vBad.empty(), "search:wide", "%s", vBad.c_str()); MC_CHECK(!bad(e), "search:false-error", "an error although nothing failed");
	if (vTarget >= vAt(vLo) && vTarget <= vAt(vHi)) { MC_CHECK(r >= (long)vLo && r <= (long)vHi && vAt((uint32_t)r) == vTarget, "search:missed", "returned %ld although there is a match", r); MC_CHECK(vHeld == 1 && vValue == vTarget, "search:item", "the item is not the one found or not held once"); }
	else MC_CHECK(r < 0 && !vHeld, "search:invented", "returned %ld holding %u items although there is no match", r, vHeld);
	mc::outcome(r < 0 ? "none" : "found");
}
#endif
// ---- C18: bounds -------------------------------------------------------------
extern "C" bool advanceReader(fiftyoneDegreesMemoryReader*, size_t) asm("fiftyoneDegreesMemoryAdvance"); // not declared extern "C" by the library
MC_SUITE(C18, advance, 2, "every buffer of up to 12 bytes, every position, every amount up to 14 and at the extremes of the type, two advances in a row") {
	size_t n = mc::choose(13), at = mc::choose((int)n + 1); std::unique_ptr<char[]> b(new char[n + 1]); fiftyoneDegreesMemoryReader r; r.startByte = (byte*)b.get(); r.current = r.startByte + at; r.lastByte = r.startByte + n; r.length = (long)n;
	static const size_t ex[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 32, (size_t)INT_MAX, (size_t)UINT32_MAX, SIZE_MAX - 11 };
	for (int i = 0; i < 2; i++) { int k = mc::choose(15 + 8); size_t by = k < 15 ? k : ex[k - 15]; mc::note("%zu/%zu + %zu", at, n, by); mc::label("advance"); bool ok = advanceReader(&r, by); bool fits = by <= n - at; mc::step();
		MC_CHECK(ok == fits, "advance:bounds", "advancing %zu of %zu by %zu %s", at, n, by, ok ? "succeeded" : "was refused"); if (fits) at += by; MC_CHECK(r.current == r.startByte + at, "advance:position", "position %ld instead of %zu", (long)(r.current - r.startByte), at); }
}
static void readAll(Coll* c, const Source& s, size_t available, bool memory) {
	// every item that can be got lies wholly inside what is there (memory: the address sanitizer sees every other byte)
	static const uint32_t idx[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF };
	for (uint32_t i : idx) { It it; fiftyoneDegreesDataReset(&it.data); it.handle = nullptr; Ex e; clear(e); mc::label("bounds:get"); void* p = c->get(c, i, &it, &e);
		if (p) { size_t w = s.es ? s.es : 1; volatile char x = 0; mc::label("bounds:read"); for (size_t j = 0; j < w; j++) x += ((char*)p)[j]; if (!memory && s.es) MC_CHECK((uint64_t)(i + 1) * s.es <= available, "bounds:beyond", "item %u was returned from %zu bytes", i, available); FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &it); }
		else MC_CHECK(bad(e), "bounds:silent", "no item %u and no error", i); }
}
static const uint32_t SIZES[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 0x20000000, 0x20000001, 0x33333334, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x55555556, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xAAAAAAAB, 0xFFFFFFFC, 0xFFFFFFFF };
static const uint32_t WIDTHS[] = { 0, 1, 2, 3, 4, 5, 8 };
MC_SUITE(C18, memory, 3, "collection headers with 30 sizes or counts (small, at 2^32 overflow, maximal) x 7 widths over buffers of 0 to 16 bytes at 3 positions: no byte outside the buffer is touched and what does not fit is refused") {
	size_t n = mc::choose(17), pos = mc::choose(3) * 3; if (pos > n) mc::prune(); Source s; s.es = WIDTHS[mc::choose(7)]; s.isCount = s.es && mc::flip(); uint32_t v = SIZES[mc::choose(30)]; mc::note("%zu bytes at %zu: %s %u width %u", n, pos, s.isCount ? "count" : "size", v, s.es);
	std::unique_ptr<char[]> b(new char[n]); memset(b.get(), 0x11, n); if (n >= pos + 4) memcpy(b.get() + pos, &v, 4); fiftyoneDegreesMemoryReader r; r.startByte = (byte*)b.get(); r.current = r.startByte + pos; r.lastByte = r.startByte + n; r.length = (long)n;
	mc::label("bounds:header"); auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, s.es, s.isCount); mc::label("bounds:create"); Coll* c = fiftyoneDegreesCollectionCreateFromMemory(&r, h); uint64_t need = s.isCount ? (uint64_t)v * s.es : v; bool fits = n >= pos + 4 && need <= n - pos - 4; mc::step(2);
	if (!c) { if (fits) mc::fail("bounds:refused", "%llu bytes fit in %zu but were refused", (unsigned long long)need, n - pos - 4); env::checkBalanced("bounds:create"); mc::outcome("refused"); return; }
	if (n < pos + 4) mc::fail("bounds:accepted", "a collection from %zu bytes, not enough for its header", n - pos);
	if (!fits) mc::fail("bounds:accepted", "a collection of %llu bytes from %zu", (unsigned long long)need, n - pos - 4);
	s.variable = s.es == 0; if (s.isCount || !s.es || v % s.es == 0) readAll(c, s, n - pos - 4, true); c->freeCollection(c); env::checkBalanced("bounds:create"); mc::outcome("accepted");
}
MC_SUITE(C18, file, 3, "the same headers over files of 0 to 16 bytes, in 6 storage configurations: creation is refused, or every item that is not wholly there is an error") {
	size_t n = mc::choose(17), pos = mc::choose(2) * 3; if (pos > n || n == 0) mc::prune(); Source s; s.es = WIDTHS[1 + mc::choose(6)]; s.isCount = mc::flip(); uint32_t v = SIZES[mc::choose(30)]; static std::vector<Config> C = { { false, 0, 0, 0 }, { false, 0, 2, 1 }, { false, 1, 0, 0 }, { false, 2, 1, 1 }, { false, 100, 0, 0 }, { false, 0x50000000, 0, 0 } };
	const Config& c = C[mc::choose((int)C.size())]; mc::note("%zu bytes at %zu: %s %u width %u %s", n, pos, s.isCount ? "count" : "size", v, s.es, show(c).c_str());
	std::string d(n, 0x11); if (n >= pos + 4) memcpy(&d[pos], &v, 4); env::writeFile("b.bin", d); fiftyoneDegreesFilePool pool; Ex e; clear(e); if (fiftyoneDegreesFilePoolInit(&pool, "b.bin", 1, &e) != FIFTYONE_DEGREES_STATUS_SUCCESS) mc::fail("pool", "no pool"); FILE* f = __wrap_fopen("b.bin", "rb"); fseek(f, (long)pos, SEEK_SET);
	volatile char dirty[256]; memset((void*)dirty, 0x7f, sizeof dirty); mc::label("bounds:header"); auto h = fiftyoneDegreesCollectionHeaderFromFile(f, s.es, s.isCount); mc::label("bounds:create"); fiftyoneDegreesCollectionConfig cc = { c.loaded, c.capacity, c.concurrency };
	Coll* co = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &cc, h, fiftyoneDegreesCollectionReadFileFixed); uint64_t need = s.isCount ? (uint64_t)v * s.es : v; bool fits = n >= pos + 4 && need <= n - pos - 4; mc::step(2);
	if (co) { if (n < pos + 4) mc::fail("bounds:accepted", "a collection from %zu bytes, not enough for its header", n - pos); if (s.isCount || v % s.es == 0) readAll(co, s, n < pos + 4 ? 0 : n - pos - 4, false); co->freeCollection(co); mc::outcome("accepted"); } else { if (fits && (s.isCount || v % s.es == 0)) mc::fail("bounds:refused", "%llu bytes fit in %zu but were refused", (unsigned long long)need, n - pos - 4); mc::outcome("refused"); }
	__wrap_fclose(f); fiftyoneDegreesFilePoolRelease(&pool); env::checkBalanced("bounds:create");
}
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
// ---- items that claim a length of their own ---------------------------------
extern "C" { void* readComponentItem(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesComponentReadFromFile"); void* readProfileItem(const fiftyoneDegreesCollectionFile*, uint32_t, fiftyoneDegreesData*, Ex*) asm("fiftyoneDegreesProfileReadFromFile"); }
MC_SUITE(C18, lengths, 3, "strings, profiles and components in files of up to 40 bytes whose own length is 1280 around zero and the extremes, thorough every, 16 bit value (strings, components) or 25 values around the true one, the overflow points and the extremes (profiles), in 6 storage configurations, at each offset: what is returned is wholly inside the file, anything else is an error") {
	int kind = mc::choose(3); size_t n = kind == 0 ? mc::pick(std::vector<size_t>{ 2, 3, 9 }) : kind == 1 ? 12 + 4 * mc::choose(4) : 8 + 8 * mc::choose(4); static std::vector<Config> C = { { false, 0, 0, 0 }, { false, 0, 2, 1 }, { false, 1, 0, 0 }, { false, 1, 2, 1 }, { false, 2, 0, 0 }, { false, 2, 1, 1 } }; const Config& c = C[mc::choose((int)C.size())];
	std::vector<uint32_t> vs; if (kind == 1) { uint32_t t = n >= sizeof(fiftyoneDegreesProfile) ? (uint32_t)(n - sizeof(fiftyoneDegreesProfile)) / 4 : 0; for (uint32_t v : { 0u, 1u, 2u, 3u, 4u, t, t + 1, 0x10000u, 0x3FFFFFFDu, 0x3FFFFFFEu, 0x3FFFFFFFu, 0x40000000u, 0x40000001u, 0x40000002u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xBFFFFFFFu, 0xC0000000u, 0xC0000001u, 0xFFFFFFFCu, 0xFFFFFFFDu, 0xFFFFFFFEu, 0xFFFFFFFFu }) vs.push_back(v); } else { int k = mc::tier(0, 1) ? mc::choose(256) : mc::pick(std::vector<int>{ 0, 1, 0x7F, 0x80, 0xFF }); for (int i = 0; i < 256; i++) vs.push_back(k * 256 + i); }
	auto read = kind == 0 ? fiftyoneDegreesStringRead : kind == 1 ? readProfileItem : readComponentItem; const size_t fixed = kind == 0 ? 2 : kind == 1 ? sizeof(fiftyoneDegreesProfile) : sizeof(fiftyoneDegreesComponent) - sizeof(fiftyoneDegreesComponentKeyValuePair), at = kind == 0 ? 0 : kind == 1 ? offsetof(fiftyoneDegreesProfile, valueCount) : offsetof(fiftyoneDegreesComponent, keyValuesCount);
	for (uint32_t v : vs) {
		long long own = kind == 0 ? (long long)fixed + (int16_t)v : (long long)fixed + (kind == 1 ? 4LL : (long long)sizeof(fiftyoneDegreesComponentKeyValuePair)) * v; mc::note("kind %d of %zu bytes claiming %u (%lld) %s", kind, n, v, own, show(c).c_str());
		std::string d(4 + n, 0x11); uint32_t nn = (uint32_t)n; memcpy(&d[0], &nn, 4); if (at + (kind == 1 ? 4 : 2) <= n) memcpy(&d[4 + at], &v, kind == 1 ? 4 : 2); env::writeFile("b.bin", d); fiftyoneDegreesFilePool pool; Ex e; clear(e); if (fiftyoneDegreesFilePoolInit(&pool, "b.bin", 2, &e) != FIFTYONE_DEGREES_STATUS_SUCCESS) mc::fail("pool", "no pool"); FILE* f = __wrap_fopen("b.bin", "rb");
		mc::label("bounds:item-create"); auto h = fiftyoneDegreesCollectionHeaderFromFile(f, 0, false); fiftyoneDegreesCollectionConfig cc = { c.loaded, c.capacity, c.concurrency }; Coll* co = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &cc, h, read); mc::step();
		bool fits = own >= (long long)fixed && own <= (long long)n; MC_CHECK(co || !fits || c.loaded, "bounds:item-refused", "no collection of an item of %lld bytes in %zu", own, n);
		if (co) for (int twice = 0; twice < 2; twice++) {
			It it; memset((void*)&it, 0, sizeof it); fiftyoneDegreesDataReset(&it.data); clear(e); mc::label("bounds:item"); void* p = co->get(co, 0, &it, &e); MC_CHECK((p != nullptr) == !bad(e), "bounds:silent", "%s with status %d", p ? "an item" : "no item", e.status);
			if (p) { MC_CHECK(own >= (long long)fixed && own <= (long long)n, "bounds:item-beyond", "an item that claims %lld bytes was returned from %zu", own, n); mc::label("bounds:item-read"); MC_CHECK(!memcmp(p, d.data() + 4, (size_t)own), "bounds:item-content", "other bytes"); FIFTYONE_DEGREES_COLLECTION_RELEASE(co, &it); } else MC_CHECK(!fits, "bounds:item-refused", "an item of %lld bytes in %zu: status %d", own, n, e.status);
		}
		if (co) co->freeCollection(co); __wrap_fclose(f); fiftyoneDegreesFilePoolRelease(&pool); env::checkBalanced("bounds:item");
	} mc::outcome(mc::fmt("%d", kind));
}
#endif
