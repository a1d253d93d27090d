// FLAVOR: asan
// PROPS: C04 C05
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
#include <limits.h>
#include <map>
#include <algorithm>
// One run: a cache of a given shape, a history of operations, a reference model.
static std::vector<int64_t> loaded; static int failMode; static bool wide; static int style; static char statics[64][16];
static int64_t keyOf(const void* k) { return wide ? *(const int64_t*)k : *(const int32_t*)k; }
static void valueFor(int64_t k, char out[16]) { memset(out, 0, 16); memcpy(out, &k, 8); int64_t x = k * 31 + 7; memcpy(out + 8, &x, 8); }
static int loaderTag; static std::vector<int64_t> keys; static int keyIndex(int64_t k) { for (size_t i = 0; i < keys.size(); i++) if (keys[i] == k) return (int)i; return -1; }
static void loader(const void* state, fiftyoneDegreesData* data, const void* key, fiftyoneDegreesException* exception) {
	MC_CHECK(state == &loaderTag, "cache:loader-state", "the loader got another state");
	int64_t k = keyOf(key); loaded.push_back(k);
	if (failMode == 1) { exception->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; return; }
	char v[16]; valueFor(k, v); int i = keyIndex(k);
	if (style == 2) { if (data->allocated) { fiftyoneDegreesFree(data->ptr); } fiftyoneDegreesDataReset(data); memcpy(statics[i], v, 16); data->ptr = (byte*)statics[i]; data->used = 16; data->allocated = 0; }
	else {
		size_t n = style == 1 ? 16 + 8 * (i % 3) : 16;
		if (fiftyoneDegreesDataMalloc(data, n) == nullptr) { exception->status = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; return; }
		memcpy(data->ptr, v, 16); data->used = 16;
	}
	if (failMode == 2) { if (style == 2) fiftyoneDegreesDataReset(data); else memset(data->ptr, 0xEE, 16); exception->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; }
}
enum { EMPTY = -1 };
struct Shard { uint32_t capacity = 0; int fresh = 0; std::vector<int> lru; /* front = oldest; EMPTY entries are used first */ };
struct Model {
	std::map<const void*, Shard> shards; std::vector<const void*> shardOf; std::vector<int> refs; std::vector<fiftyoneDegreesCacheNode*> node; unsigned long hits = 0, misses = 0;
};
struct Cfg { uint32_t cap; uint16_t conc; };
static bool strong; // judge C05 too
static bool concrete; // tell states apart by what the implementation holds, not only by the reference model
static bool runHistory(Cfg c, const std::vector<int>& h, std::string& canon) {
	env::reset(); int K = (int)keys.size(); loaded.clear(); failMode = 0; std::vector<const void*> shardOf(K);
	{   // which shard a key belongs to, observed on a cache of its own
		fiftyoneDegreesCache* probe = fiftyoneDegreesCacheCreate(c.cap, c.conc, loader, wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &loaderTag);
		MC_CHECK(probe, "cache:create", "no cache for capacity %u concurrency %u", c.cap, c.conc);
		for (int i = 0; i < K; i++) {
			fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; int64_t k64 = keys[i]; int32_t k32 = (int32_t)keys[i];
			fiftyoneDegreesCacheNode* n = fiftyoneDegreesCacheGet(probe, wide ? (void*)&k64 : (void*)&k32, &e); MC_CHECK(n, "cache:first-get", "no entry for the first use of key %lld", (long long)keys[i]);
			shardOf[i] = (const void*)(size_t)(1 + ((char*)n->shard - (char*)probe->shards)); fiftyoneDegreesCacheRelease(n);
		}
		fiftyoneDegreesCacheFree(probe); loaded.clear();
	}
	fiftyoneDegreesCache* cache = fiftyoneDegreesCacheCreate(c.cap, c.conc, loader, wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &loaderTag);
	Model m; m.shardOf = shardOf; m.refs.assign(K, 0); m.node.assign(K, nullptr);
	if (strong) MC_CHECK((uint32_t)cache->capacity >= c.cap, "cache:capacity", "capacity %d for a request of %u", cache->capacity, c.cap);
	for (int i = 0; i < K; i++) { Shard& s = m.shards[m.shardOf[i]]; s.capacity = cache->shards[0].capacity; s.fresh = (int)s.capacity; }
	bool ok = true;
	for (size_t step = 0; step < h.size() && ok; step++) {
		int o = h[step], i = o % K, kind = o / K; int64_t k64 = keys[i]; int32_t k32 = (int32_t)keys[i]; Shard& s = m.shards[m.shardOf[i]];
		mc::label("cache:%s", kind == 1 ? "release" : "get");
		if (kind == 1) {
			if (!m.refs[i]) { ok = false; break; }
			fiftyoneDegreesCacheRelease(m.node[i]);
			if (--m.refs[i] == 0) { m.node[i] = nullptr; s.lru.push_back(i); }
		}
		else {
			if (m.refs[i] >= 2) { ok = false; break; }
			failMode = kind == 0 ? 0 : kind - 1; loaded.clear(); fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET;
			auto pos = std::find(s.lru.begin(), s.lru.end(), i); bool held = m.refs[i] > 0, present = held || pos != s.lru.end();
			
			fiftyoneDegreesCacheNode* n = fiftyoneDegreesCacheGet(cache, wide ? (void*)&k64 : (void*)&k32, &e);
			bool error = e.status != FIFTYONE_DEGREES_STATUS_NOT_SET && e.status != FIFTYONE_DEGREES_STATUS_SUCCESS;
			// judged always: values, entries in use
			for (auto x : loaded) MC_CHECK(x == keys[i], "cache:loaded-other", "get of key %lld loaded key %lld", (long long)keys[i], (long long)x);
			if (held) {
				MC_CHECK(n == m.node[i] && loaded.empty(), "cache:held-reloaded", "get of a key in use gave another entry or loaded again");
			}
			if (n && !error) { char v[16]; valueFor(keys[i], v); MC_CHECK(n->data.used == 16 && !memcmp(n->data.ptr, v, 16), "cache:wrong-value", "get of key %lld gave another value", (long long)keys[i]);
				for (int j = 0; j < K; j++) if (j != i && m.refs[j]) MC_CHECK(n != m.node[j], "cache:two-keys-one-entry", "one entry for two keys in use"); }
			if (error) MC_CHECK(!loaded.empty() && failMode, "cache:false-error", "an error although the loader did not fail");
			// the reference model
			bool failed = false;
			if (present) {
				if (strong) { MC_CHECK(loaded.empty(), "cache:lost-entry", "key %lld was loaded again although it should still be cached", (long long)keys[i]); MC_CHECK(n && !error, "cache:lost-entry", "get of a cached key failed"); }
				m.hits++; if (!held) s.lru.erase(pos); if (m.refs[i]) {}
			}
			else {
				m.misses++;
				bool room = s.fresh > 0 || !s.lru.empty();
				if (!room) {
					if (strong) MC_CHECK(n == nullptr && loaded.empty(), "cache:overcommitted", "an entry was given although all are in use");
					failed = true;
				}
				else {
					if (strong) { MC_CHECK(loaded.size() == 1, "cache:loads", "%zu loads for one miss", loaded.size()); MC_CHECK((n && !error) || failMode, "cache:false-full", "get failed although an entry was free"); }
					if (s.fresh > 0) s.fresh--; else { auto e2 = std::find(s.lru.begin(), s.lru.end(), (int)EMPTY); s.lru.erase(e2 != s.lru.end() ? e2 : s.lru.begin()); }
					if (failMode) { failed = true; s.lru.insert(s.lru.begin(), (int)EMPTY); if (strong) MC_CHECK(error, "cache:no-error", "the loader failed but no error was reported"); }
				}
			}
			if (failed) { // nothing is held
				if (error && n && !loaded.empty() && strong) { /* a node may be reported with the error, but is not in use */ }
			}
			else {
				if (!n || error) { ok = false; break; }
				m.refs[i]++; m.node[i] = n;
			}
		}
		for (int j = 0; j < K; j++) if (m.refs[j]) { char v[16]; valueFor(keys[j], v); MC_CHECK(m.node[j]->data.used == 16 && !memcmp(m.node[j]->data.ptr, v, 16), "cache:held-changed", "the value of key %lld changed while in use", (long long)keys[j]); }
		if (strong) { MC_CHECK(cache->hits == m.hits, "cache:hits", "%lu hits counted, %lu expected", cache->hits, m.hits); MC_CHECK(cache->misses == m.misses, "cache:misses", "%lu misses counted, %lu expected", cache->misses, m.misses); }
	}
	canon.clear();
	for (auto& s : m.shards) { canon += mc::fmt("S%d:", s.second.fresh); for (int x : s.second.lru) canon += mc::fmt("%d,", x); }
	for (int i = 0; i < K; i++) canon += mc::fmt(" %d", m.refs[i]);
	if (concrete && ok) canon += env::heapState({}, { { &cache->hits, sizeof cache->hits }, { &cache->misses, sizeof cache->misses } });
	if (ok) {
		mc::label("cache:free");
		if (h.size() % 2) for (int i = 0; i < K; i++) while (m.refs[i]) { m.refs[i]--; fiftyoneDegreesCacheRelease(m.node[i]); }
		fiftyoneDegreesCacheFree(cache); env::checkBalanced("cache:free");
	}
	return ok;
}
static void explore(bool strongMode) {
	strong = strongMode;
	static const Cfg cfgs[] = { { 1, 1 }, { 2, 1 }, { 3, 1 }, { 4, 2 }, { 5, 2 } };
	static const int64_t k32[] = { 1, 0, 2, INT_MIN, -1, INT_MAX }; static const int64_t k64[] = { 1, 0, (int64_t)1 << 32, -((int64_t)1 << 31), INT64_MIN, ((int64_t)1 << 32) + 1 };
	int ci = mc::choose(5); Cfg c = cfgs[ci]; wide = mc::flip(); style = mc::choose(3); int K = ci < 3 ? (int)c.cap + 2 : mc::tier(4, 5);
	concrete = true; bool second = mc::flip(); keys.clear(); for (int i = 0; i < K; i++) keys.push_back((wide ? k64 : k32)[(i + (second ? 3 : 0)) % 6]);
	mc::note("capacity=%u concurrency=%u wide=%d style=%d keys=%d%s", c.cap, c.conc, wide, style, K, second ? "'" : "");
	auto r = mc::bfs(K * 4, [&](const std::vector<int>& h, std::string& canon) { return runHistory(c, h, canon); }, mc::tierOf(2500, ci < 2 ? 12000 : 5000, 200000),
		[&](int o) { static const char* n[] = { "get", "release", "getFailing", "getFailingLate" }; return mc::fmt("%s(%lld)", n[o / K], (long long)keys[o % K]); }, mc::tier(ci < 2 ? 40 : 14, 40));
	mc::outcome(mc::fmt("%zu states depth %d", r.states, r.depth));
}
MC_SUITE(C04, values, 4, "breadth first over all reachable states of caches of 1 to 5 entries in 1 or 2 shards (32 and 64 bit keys incl. extremes, three loader styles, two failure styles): every returned value, entries in use untouched") { explore(false); }
MC_SUITE(C05, lru, 4, "breadth first over all reachable states of caches of 1 to 5 entries in 1 or 2 shards against a reference LRU with reference counts: loads, evictions, capacity after failures, hit and miss counters") { explore(true); }
// Shapes: what can be created, and that all of it is usable.
MC_SUITE(C05, shapes, 3, "all capacities up to 40 and concurrencies up to 8, hash extremes: creation accepted exactly when each shard has an entry per thread, whole capacity usable at once") {
	uint32_t cap = mc::choose(41); uint16_t conc = (uint16_t)mc::choose(9); style = 0; failMode = 0; wide = mc::flip(); keys.clear(); mc::note("capacity=%u concurrency=%u", cap, conc); mc::label("cache:create");
	fiftyoneDegreesCache* cache = fiftyoneDegreesCacheCreate(cap, conc, loader, wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &loaderTag);
	bool legal = conc > 0 && cap / conc >= conc;
	MC_CHECK((cache != nullptr) == legal, "cache:create", "capacity %u concurrency %u %s", cap, conc, cache ? "accepted" : "refused");
	if (!cache) { env::checkBalanced("cache:create"); return; }
	MC_CHECK((uint32_t)cache->capacity >= cap, "cache:capacity", "capacity %d for a request of %u", cache->capacity, cap);
	static const int64_t ex[] = { 0, 1, -1, INT_MIN, INT_MAX, (int64_t)INT_MIN + 1, ((int64_t)1 << 32) | 0x80000000LL, INT64_MIN, INT64_MAX };
	for (int64_t k : ex) { if (!wide && (k < INT_MIN || k > INT_MAX)) continue; keys.assign(1, k); loaded.clear(); int32_t k32 = (int32_t)k; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET;
		mc::label("cache:get extreme key"); fiftyoneDegreesCacheNode* n = fiftyoneDegreesCacheGet(cache, wide ? (void*)&k : (void*)&k32, &e); MC_CHECK(n, "cache:extreme", "no entry for key %lld", (long long)k);
		MC_CHECK((char*)n->shard >= (char*)cache->shards && n->shard < cache->shards + cache->concurrency, "cache:extreme", "key %lld is outside the shards", (long long)k); char v[16]; valueFor(k, v); MC_CHECK(!memcmp(n->data.ptr, v, 16), "cache:wrong-value", "value of key %lld", (long long)k); fiftyoneDegreesCacheRelease(n); }
	// fill: consecutive keys spread over the shards evenly, so the capacity asked for can be in use at once
	std::vector<fiftyoneDegreesCacheNode*> all; mc::label("cache:fill"); keys.clear(); for (int i = 0; i < 64; i++) keys.push_back(i);
	uint32_t want = cap / conc * conc;
	for (uint32_t i = 0; i < want; i++) { int64_t k = i; int32_t k32 = i; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; auto n = fiftyoneDegreesCacheGet(cache, wide ? (void*)&k : (void*)&k32, &e); MC_CHECK(n, "cache:false-full", "only %u of %u entries usable at once", i, want); all.push_back(n); }
	for (size_t i = 0; i < all.size(); i++) { char v[16]; valueFor((int64_t)i, v); MC_CHECK(!memcmp(all[i]->data.ptr, v, 16), "cache:held-changed", "value of key %zu changed", i); }
	for (auto n : all) fiftyoneDegreesCacheRelease(n);
	loaded.clear(); for (uint32_t i = 0; i < want; i++) { int64_t k = i; int32_t k32 = i; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET; auto n = fiftyoneDegreesCacheGet(cache, wide ? (void*)&k : (void*)&k32, &e); MC_CHECK(n && loaded.empty(), "cache:lost-entry", "key %u was loaded again", i); fiftyoneDegreesCacheRelease(n); }
	mc::label("cache:free"); fiftyoneDegreesCacheFree(cache); env::checkBalanced("cache:free"); mc::state(cap * 100 + conc);
}
// Keys of extreme hashes, in caches of every small shape: one entry each, its value right, whatever the order.
MC_SUITE(C04, extremes, 3, "all concurrencies up to 8 with 8 and 9 entries a shard, every ordered pair of nine extreme and small 32 and 64 bit keys: right value for each, held together, and again after release") {
	int conc = 1 + mc::choose(8); uint32_t cap = (uint32_t)(conc * (8 + mc::choose(2))); style = mc::choose(3); failMode = 0; wide = mc::flip(); mc::label("cache:extreme keys");
	static const int64_t ex32[] = { 0, 1, -1, INT_MIN, INT_MAX, (int64_t)INT_MIN + 1, 3, -7, 1 << 16 }; static const int64_t ex64[] = { 0, ((int64_t)1 << 32) | 0x80000000LL, -1, INT_MIN, INT64_MAX, INT64_MIN, INT64_MIN + 1, (int64_t)1 << 32, 0x80000000LL };
	const int64_t* ex = wide ? ex64 : ex32; mc::note("capacity=%u concurrency=%d wide=%d style=%d", cap, conc, wide, style);
	for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) {
		env::reset(); keys.assign(1, ex[a]); if (a != b) keys.push_back(ex[b]); loaded.clear();
		fiftyoneDegreesCache* cache = fiftyoneDegreesCacheCreate(cap, (uint16_t)conc, loader, wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &loaderTag);
		MC_CHECK(cache, "cache:create", "no cache for capacity %u concurrency %d", cap, conc);
		for (int round = 0; round < 2; round++) {
			std::vector<fiftyoneDegreesCacheNode*> n;
			for (int64_t k : keys) { int32_t k32 = (int32_t)k; fiftyoneDegreesException e; e.status = FIFTYONE_DEGREES_STATUS_NOT_SET;
				auto x = fiftyoneDegreesCacheGet(cache, wide ? (void*)&k : (void*)&k32, &e); char v[16]; valueFor(k, v);
				MC_CHECK(x && (e.status == FIFTYONE_DEGREES_STATUS_NOT_SET || e.status == FIFTYONE_DEGREES_STATUS_SUCCESS), "cache:extreme", "no entry for key %lld", (long long)k);
				MC_CHECK(!memcmp(x->data.ptr, v, 16), "cache:wrong-value", "get of key %lld gave another value", (long long)k); n.push_back(x); }
			for (size_t i = 0; i < n.size(); i++) { char v[16]; valueFor(keys[i], v); MC_CHECK(!memcmp(n[i]->data.ptr, v, 16), "cache:held-changed", "the value of key %lld changed while in use", (long long)keys[i]); }
			for (auto x : n) fiftyoneDegreesCacheRelease(x);
		}
		fiftyoneDegreesCacheFree(cache); mc::step(); mc::state(mc::mix(mc::mix(cap, conc * 2 + wide), a * 9 + b)); env::checkBalanced("cache:free");
	}
}
