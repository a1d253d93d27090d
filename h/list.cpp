// FLAVOR: asan
// PROPS: C31
#include "mc.hpp"
#include "env.hpp"
#include <deque>
#include "fiftyone.h"
#include <string.h>
#include <map>
typedef fiftyoneDegreesCollection Coll; typedef fiftyoneDegreesCollectionItem It;
// Two collections that hand out tickets; every ticket must come back once, to the collection it came from.
static std::map<void*, int> out[2]; static int issued; static Coll fakes[2];
static void release(int c, It* it) { MC_CHECK(it->collection == &fakes[c], "list:collection", "an item was released to another collection"); MC_CHECK(out[c].count(it->handle), "list:release", "an item was released that is not out (twice or never got)"); out[c].erase(it->handle); it->handle = nullptr; }
static void rel0(It* i) { release(0, i); } static void rel1(It* i) { release(1, i); }
static char words[16][8]; static std::deque<char> tickets; // heap addresses, all alike in a state digest
static It ticket(int c, int w) { It it; fiftyoneDegreesDataReset(&it.data); it.data.ptr = (byte*)words[w]; it.data.used = 8; it.handle = (tickets.push_back(0), &tickets.back()); it.collection = &fakes[c]; out[c][it.handle] = w; return it; }
static size_t outCount() { return out[0].size() + out[1].size(); }
static bool history(uint32_t cap, const std::vector<int>& h, std::string& canon) {
	env::reset(); tickets.clear(); out[0].clear(); out[1].clear(); issued = 0; memset(fakes, 0, sizeof fakes); fakes[0].release = rel0; fakes[1].release = rel1; fakes[0].elementSize = 8; for (int i = 0; i < 16; i++) { int16_t l = 6; memcpy(words[i], &l, 2); memset(words[i] + 2, 'a' + i, 5); words[i][7] = 0; }
	fiftyoneDegreesList l; memset(&l, 0xA5, sizeof l); std::vector<std::pair<int, void*>> model; bool on = false; int w = 0, fresh = 0;
	for (int o : h) {
		switch (o) {
		case 0: case 1: { if (!on || model.size() >= cap) return false; It it = ticket(o, ((int)model.size() * 2 + o) % 16); mc::label("list:add"); fiftyoneDegreesListAdd(&l, &it); model.push_back({ o, it.handle }); memset(&it, 0x5A, sizeof it); break; }
		case 2: if (!on) return false; mc::label("list:release"); fiftyoneDegreesListRelease(&l); model.clear(); MC_CHECK(outCount() == 0, "list:leak", "%zu items not given back by release", outCount()); break;
		case 3: if (!on) return false; mc::label("list:free"); fiftyoneDegreesListFree(&l); model.clear(); on = false; fresh = 2; MC_CHECK(outCount() == 0, "list:leak", "%zu items not given back by free", outCount()); MC_CHECK(env::liveBlocks() == 0, "list:free", "memory not returned"); break;
		case 4: if (on) return false; mc::label("list:init"); MC_CHECK(fiftyoneDegreesListInit(&l, cap) == &l, "list:init", "not initialised"); on = true; MC_CHECK(l.capacity == cap && l.count == 0, "list:init", "capacity %u count %u", l.capacity, l.count); break;
		case 5: if (on) return false; mc::label("list:reset"); fiftyoneDegreesListReset(&l); fresh = 1; MC_CHECK(l.count == 0 && l.capacity == 0, "list:reset", "capacity %u count %u", l.capacity, l.count); break;
		case 6: if (on || !fresh) return false; mc::label("list:free again"); fiftyoneDegreesListFree(&l); break;
		case 7: if (on) return false; { mc::label("list:init out of memory"); env::failAllocAt = 1; auto r = fiftyoneDegreesListInit(&l, cap); env::failAllocAt = 0; MC_CHECK(!r, "list:init", "initialised without memory"); } break;
		}
		if (on) {
			MC_CHECK(l.count == model.size(), "list:size", "the list says %u, %zu were added", l.count, model.size());
			for (size_t i = 0; i < model.size(); i++) { MC_CHECK(l.items[i].handle == model[i].second && l.items[i].collection == &fakes[model[i].first], "list:items", "item %zu is another one", i); MC_CHECK((char*)fiftyoneDegreesListGetAsString(&l, (int)i) == words[out[model[i].first][model[i].second]], "list:items", "string %zu is another one", i); MC_CHECK(out[model[i].first].count(model[i].second), "list:early", "item %zu was released while in the list", i); }
		}
	}
	canon = mc::fmt("%d %d:", on, fresh); for (auto& m : model) canon += (char)('0' + m.first); canon += env::heapState({ { &l, sizeof l } });
	if (on) { mc::label("list:free"); fiftyoneDegreesListFree(&l); MC_CHECK(outCount() == 0, "list:leak", "%zu items not given back", outCount()); } env::checkBalanced("list:free");
	return true;
}
MC_SUITE(C31, lists, 2, "breadth first over all states of lists with capacity 0 to 4 (thorough 6): add items of two collections, release, free, free again, reset, initialise (with and without memory), reuse") {
	uint32_t cap = mc::choose(mc::tier(5, 7)); mc::note("capacity %u", cap); static const char* n[] = { "addA", "addB", "release", "free", "init", "reset", "freeAgain", "initNoMemory" };
	auto r = mc::bfs(8, [&](const std::vector<int>& h, std::string& c) { return history(cap, h, c); }, 100000, [](int o) { return std::string(n[o]); }, 60); mc::outcome(mc::fmt("%u: %zu states", cap, r.states));
}
MC_SUITE(C31, data, 2, "every sequence of up to 4 (thorough 5) requests of 11 sizes on one data buffer, each with or without memory, ended by its release") {
	static const size_t S[] = { 1, 2, 3, 7, 8, 9, 16, 100, 255, 256, 65536 }; fiftyoneDegreesData d; memset(&d, 0xA5, sizeof d); mc::label("data:reset"); fiftyoneDegreesDataReset(&d); MC_CHECK(!d.ptr && !d.allocated && !d.used, "data:reset", "not empty after reset"); int n = 1 + mc::choose(mc::tier(4, 5));
	for (int i = 0; i < n; i++) {
		size_t want = S[mc::choose(11)]; bool mem = !mc::flip(); mc::note("%zu%s", want, mem ? "" : "!"); mc::step(); size_t had = d.allocated; byte* was = d.ptr; std::string keep((char*)was, had ? had : 0); mc::label("data:malloc"); env::failAllocAt = mem ? 0 : 1; void* p = fiftyoneDegreesDataMalloc(&d, want); bool used = !mem && env::failAllocAt == 0; env::failAllocAt = 0;
		if (had >= want) { MC_CHECK(p == was && d.ptr == was && d.allocated == had, "data:reuse", "a buffer of %zu was not reused for %zu", had, want); MC_CHECK(!memcmp(p, keep.data(), had), "data:content", "the content of a reused buffer changed"); }
		else if (used) { MC_CHECK(!p && !d.ptr && !d.allocated, "data:failed", "not empty after a failed request"); }
		else { MC_CHECK(p && p == d.ptr && d.allocated >= want, "data:grow", "%u bytes for a request of %zu", d.allocated, want); }
		if (p) memset(p, 'a' + i, d.allocated);
		MC_CHECK(env::liveBlocks() == (d.allocated ? 1 : 0), "data:leak", "%zu blocks for one buffer", env::liveBlocks());
	}
	if (d.allocated) fiftyoneDegreesFree(d.ptr); env::checkBalanced("data"); mc::outcome(mc::fmt("%u", d.allocated));
}
