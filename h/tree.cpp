// FLAVOR: asan
// PROPS: C07
#include "mc.hpp"
#include "env.hpp"
extern "C" {
#include "tree.h"
}
#include <map>
#include <set>
#include <math.h>
#include <string.h>
typedef fiftyoneDegreesTreeNode Node; typedef fiftyoneDegreesTreeRoot Root;

// The key families: dense, the 64 bit extremes, multiples of 2^32 (equal when
// truncated), and a family whose order differs when compared as unsigned.
static int64_t keyOf(int family, int i, int n) {
	switch (family) {
	case 0: return i;
	case 1: { int64_t e[] = { INT64_MIN, INT64_MIN + 1, -1, 0, 1, INT64_MAX - 1, INT64_MAX, 5, -7, 1LL << 40, -(1LL << 40), 3 }; return e[i]; }
	case 2: return (int64_t)i << 32;
	default: return (i & 1 ? 1 : -1) * ((int64_t)(i + 1) << 31);
	}
}
struct World {
	Root root; std::vector<Node> nodes; std::map<int64_t, Node*> ref;
	Root other; Node otherNodes[2]; char snap[sizeof(Root) + 2 * sizeof(Node)];
	void save() { memcpy(snap, &other, sizeof other); memcpy(snap + sizeof other, otherNodes, sizeof otherNodes); }
	bool same() { return !memcmp(snap, &other, sizeof other) && !memcmp(snap + sizeof other, otherNodes, sizeof otherNodes); }
};
static void visit(void* s, Node* n) { ((std::vector<Node*>*)s)->push_back(n); }
static int height(Root* r, Node* n, int d) {
	if (n == &r->empty) return 0;
	if (d > 64) mc::fail("tree:cycle", "path longer than 64 nodes");
	int a = height(r, n->left, d + 1), b = height(r, n->right, d + 1); return 1 + (a > b ? a : b);
}
static void shape(Root* r, Node* n, std::string& o, std::vector<Node>& base) {
	if (n == &r->empty) { o += '.'; return; }
	o += (char)('a' + (n - base.data())); o += n->colour ? '+' : '-';
	shape(r, n->left, o, base); shape(r, n->right, o, base);
}
static void inorder(Root* r, Node* n, std::vector<int64_t>& o) {
	if (n == &r->empty) return;
	inorder(r, n->left, o); o.push_back(n->key); inorder(r, n->right, o);
}
static void verify(World& w, int family, int N) {
	std::vector<Node*> seen;
	fiftyoneDegreesTreeIterateNodes(&w.root, &seen, visit);
	std::set<Node*> uniq(seen.begin(), seen.end());
	MC_CHECK(seen.size() == uniq.size(), "tree:iterate-twice", "a node was visited twice (%zu visits, %zu nodes)", seen.size(), uniq.size());
	MC_CHECK(uniq.size() == w.ref.size(), "tree:iterate-count", "visited %zu nodes, %zu are present", uniq.size(), w.ref.size());
	for (auto& e : w.ref) MC_CHECK(uniq.count(e.second), "tree:iterate-missing", "key %lld not visited", (long long)e.first);
	MC_CHECK(fiftyoneDegreesTreeCount(&w.root) == w.ref.size(), "tree:count", "count %u, expected %zu", fiftyoneDegreesTreeCount(&w.root), w.ref.size());
	for (int i = 0; i < N; i++) for (int64_t d = -1; d <= 1; d++) {
		int64_t k = keyOf(family, i, N); if ((d < 0 && k == INT64_MIN) || (d > 0 && k == INT64_MAX)) continue; k += d;
		Node* f = fiftyoneDegreesTreeFind(&w.root, k); auto it = w.ref.find(k); Node* x = it == w.ref.end() ? nullptr : it->second;
		MC_CHECK(f == x, "tree:find", "find(%lld) gave %s", (long long)k, f ? (x ? "another node" : "a node although absent") : "nothing although present");
	}
	int h = height(&w.root, w.root.root.left, 0); double lim = 2 * log2((double)w.ref.size() + 1);
	MC_CHECK(h <= lim + 1e-9, "tree:balance", "height %d with %zu nodes", h, w.ref.size());
	std::vector<int64_t> io; inorder(&w.root, w.root.root.left, io);
	for (size_t i = 1; i < io.size(); i++) MC_CHECK(io[i - 1] < io[i], "tree:order", "keys out of order");
	MC_CHECK(w.same(), "tree:other-touched", "an operation on one tree changed another tree");
}
static void explore(int family, int N, int clearMode) {
	mc::note("family=%d keys=%d clear=%d", family, N, clearMode);
	mc::label("tree");
	auto run = [&](const std::vector<int>& h, std::string& canon) -> bool {
		World w; w.nodes.resize(N);
		fiftyoneDegreesTreeRootInit(&w.root);
		fiftyoneDegreesTreeRootInit(&w.other);
		for (int i = 0; i < 2; i++) { fiftyoneDegreesTreeNodeInit(&w.otherNodes[i], &w.other); w.otherNodes[i].key = keyOf(family, i, N); fiftyoneDegreesTreeInsert(&w.otherNodes[i]); }
		w.save();
		for (int i = 0; i < N; i++) { fiftyoneDegreesTreeNodeInit(&w.nodes[i], &w.root); }
		for (size_t s = 0; s < h.size(); s++) {
			int i = h[s]; Node* n = &w.nodes[i]; int64_t k = keyOf(family, i, N);
			if (w.ref.count(k)) {
				fiftyoneDegreesTreeDelete(n); w.ref.erase(k);
				if (clearMode) fiftyoneDegreesTreeNodeRemove(n);
			}
			else { n->key = k; fiftyoneDegreesTreeInsert(n); w.ref[k] = n; }
		}
		verify(w, family, N);
		shape(&w.root, w.root.root.left, canon, w.nodes);
		return true;
	};
	// operation i toggles key i: inserts it when absent, deletes it when present
	mc::BfsResult r = mc::bfs(N, run, mc::tier(400000, 3000000), [](int o) { return mc::fmt("t%d", o); });
	mc::outcome(mc::fmt("%zu", r.states));
	if (!r.complete) mc::report("tree:capped", "state cap reached");
}
MC_SUITE(C07, shapes, 3, "all tree shapes reachable over a key set, every insert/delete/find/iterate from each") {
	int family = mc::choose(4), clearMode = mc::choose(2);
	int N = mc::choose(2) ? mc::tier(8, 10) : 5;
	explore(family, N, clearMode);
}
// Long monotone and alternating histories: every order type of a bigger tree
// is out of reach, but every (order, deletion start, deletion stride) is small.
MC_SUITE(C07, long_runs, 3, "all insert strides and deletion strides over up to 64 keys, verified after every operation") {
	int n = (int[]){ 13, 31, 61 }[mc::choose(3)]; int si = 1 + mc::choose(n - 1), sd = 1 + mc::choose(mc::tier(6, n - 1)); int family = mc::choose(2) ? 2 : 0;
	mc::note("n=%d insert stride=%d delete stride=%d", n, si, sd); mc::label("tree-long");
	World w; w.nodes.resize(n); fiftyoneDegreesTreeRootInit(&w.root); fiftyoneDegreesTreeRootInit(&w.other);
	for (int i = 0; i < 2; i++) { fiftyoneDegreesTreeNodeInit(&w.otherNodes[i], &w.other); w.otherNodes[i].key = i; fiftyoneDegreesTreeInsert(&w.otherNodes[i]); }
	w.save();
	for (int i = 0; i < n; i++) fiftyoneDegreesTreeNodeInit(&w.nodes[i], &w.root);
	for (int i = 0; i < n; i++) { int j = (int)((long)i * si % n); int64_t k = keyOf(family, j, n); w.nodes[j].key = k; fiftyoneDegreesTreeInsert(&w.nodes[j]); w.ref[k] = &w.nodes[j]; mc::step(); if (i % 3 == 0 || i == n - 1) verify(w, family, n); }
	for (int i = 0; i < n; i++) { int j = (int)((long)i * sd % n); int64_t k = keyOf(family, j, n); fiftyoneDegreesTreeDelete(&w.nodes[j]); w.ref.erase(k); mc::step(); verify(w, family, n); mc::state(mc::mix(mc::mix(n * 100 + si, sd), i)); }
}
