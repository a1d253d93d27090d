// FLAVOR: asan
// PROPS: C25
// CXX: yes
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include "IpAddress.hpp"
#include <string.h>
#include <arpa/inet.h>
typedef std::string S; typedef fiftyoneDegreesEvidenceIpAddress A;
static const auto V4 = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4; static const auto V6 = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6; static const auto BAD = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
static int fillByte, mallocs, frees, failAt; static void* mal(size_t n) { if (++mallocs == failAt) return nullptr; void* p = malloc(n); memset(p, fillByte, n); return p; } static void fre(void* p) { frees++; free(p); }
static size_t len(const A* a) { return a->type == V4 ? 4 : a->type == V6 ? 16 : 0; }
// What the standard parser makes of a text: family and bytes, or nothing.
struct Std { int type; unsigned char b[16]; Std(const S& s) : type(BAD) { memset(b, 0, 16); if (inet_pton(AF_INET, s.c_str(), b) == 1) type = V4; else if (inet_pton(AF_INET6, s.c_str(), b) == 1) type = V6; } };
static S hex(const unsigned char* b, size_t n) { S r; for (size_t i = 0; i < n; i++) r += mc::fmt("%02x", b[i]); return r; }
// One text: parsed from memory of exactly its size, twice over differently filled memory.
static void one(const S& s, char term = 0) {
	char* m = (char*)malloc(s.size() + 1); memcpy(m, s.c_str(), s.size()); m[s.size()] = term; if (term) { free(m); m = (char*)malloc(s.size() + 2); memcpy(m, s.c_str(), s.size()); m[s.size()] = term; m[s.size() + 1] = 0; }
	unsigned char seen[2][16]; int type[2]; size_t n[2]; mc::step(); mc::label("ip:parse");
	for (int k = 0; k < 2; k++) { fillByte = k ? 0xa5 : 0x3c; mallocs = frees = failAt = 0; A* a = fiftyoneDegreesIpParseAddress(mal, m, m + s.size()); if (!a) { type[k] = BAD; n[k] = 0; continue; } type[k] = a->type; n[k] = len(a); MC_CHECK(a->type == V4 || a->type == V6 || a->type == BAD, "ip:type", "%d", a->type); MC_CHECK(a->next == nullptr, "ip:next", "%s: a single address has a next one", mc::quoted(s).c_str()); memcpy(seen[k], a->address, n[k]); fiftyoneDegreesIpFreeAddresses(fre, a); MC_CHECK(frees == 1, "ip:free", "%d frees", frees); }
	MC_CHECK(type[0] == type[1] && !memcmp(seen[0], seen[1], n[0]), "ip:unset-bytes", "%s: the address has bytes which were never set: %s and %s", mc::quoted(s).c_str(), hex(seen[0], n[0]).c_str(), hex(seen[1], n[1]).c_str());
	Std w(s); if (w.type != BAD) { MC_CHECK(type[0] == w.type, "ip:family", "%s is of family %d, not %d", mc::quoted(s).c_str(), w.type, type[0]); MC_CHECK(!memcmp(seen[0], w.b, n[0]), "ip:bytes", "%s is %s, not %s", mc::quoted(s).c_str(), hex(w.b, n[0]).c_str(), hex(seen[0], n[0]).c_str()); }
	free(m);
}
MC_SUITE(C25, text, 3, "every text of up to 8 (thorough 9) characters over 0 1 f . : g space and comma, and every text of up to 12 (thorough 14) over 1 . and :") {
	S s; if (mc::flip()) { static const char C[] = "01f.:g ,"; int n = mc::choose(mc::tier(9, 10)); for (int i = 0; i < n; i++) s += C[mc::choose(8)]; } else { static const char C[] = "1:."; int n = mc::choose(mc::tier(13, 15)); for (int i = 0; i < n; i++) s += C[mc::choose(3)]; }
	one(s); mc::outcome(mc::fmt("%d", Std(s).type)); env::checkBalanced("ip");
}
MC_SUITE(C25, v4, 3, "every IPv4 address with octets from all boundary values, each octet over all 256 values and beyond, with every terminator, cut at and extended by every character") {
	static const int B[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255 }; int k = mc::choose(3);
	if (k == 0) { S s; for (int i = 0; i < 4; i++) s += (i ? "." : "") + std::to_string(B[mc::choose(14)]); one(s); one(s, ','); one(s, ' '); }
	else if (k == 1) { int p = mc::choose(4); for (int v = 0; v < 1100; v++) { S s; for (int i = 0; i < 4; i++) s += (i ? "." : "") + std::to_string(i == p ? v : 77); one(s); } }
	else { S s = "192.168.10.254"; int i = mc::choose((int)s.size() + 1); one(s.substr(0, i)); for (int b = 1; b < 256; b++) { S t = s; t.insert(i, 1, (char)b); one(t); if (i < (int)s.size()) { t = s; t[i] = (char)b; one(t); } } }
	mc::outcome(mc::fmt("%d", k)); env::checkBalanced("ip");
}
MC_SUITE(C25, v6, 3, "every IPv6 text of 0-9 (thorough 10) groups, each from four values, with an abbreviation at every position or two of them, and with an embedded IPv4 address at every position; every single character replaced and inserted in one of them; every 16 bit group value") {
	static const char* G[] = { "0", "1", "abcd", "F00" }; int k = mc::choose(4);
	if (k == 0) { int n = mc::choose(mc::tier(9, 10)), g[16]; for (int i = 0; i < n; i++) g[i] = mc::choose(n > 7 ? 2 : 4) + (n > 7); for (int a = -1; a <= n; a++) for (int b = a; b <= n; b++) for (int e = -1; e <= n; e++) { if (b > a && e >= 0) continue; S s; for (int i = 0; i <= n; i++) { if (i == a || i == b) s += "::"; else if (i && i < n + 0) s += ":"; if (i < n) s += i == e ? "1.2.3.4" : G[g[i]]; } one(s); if (e < 0 && a == b) { one(s, ','); one(s, ' '); } } }
	else if (k == 1) { for (int v = mc::choose(64) * 1024, e = v + 1024; v < e; v++) { one(mc::fmt("1:2:%x:4:5:6:7:8", v)); one(mc::fmt("::%X", v)); one(mc::fmt("%04x::", v)); } }
	else if (k == 2) { S s = mc::flip() ? "2001:db8::ff00:42:8329" : "::ffff:192.0.2.128"; int i = mc::choose((int)s.size() + 1); one(s.substr(0, i)); for (int b = 1; b < 256; b++) { S t = s; t.insert(i, 1, (char)b); one(t); if (i < (int)s.size()) { t = s; t[i] = (char)b; one(t); } } }
	else { static const char* parts[] = { "1.", "1:", "::", ".", ":", "1:2.", "1.2:", "ffff:", "999.", "1", " ", ",", "1,", "1 ", ":.", "::1.", "%", "aaaaaaaaaaaaaaaaaaaa:", "99999999999999999999." }; S unit = parts[mc::choose(19)], tail = parts[mc::choose(19)]; for (int r : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 260, 300, 512, 520 }) { S s; for (int i = 0; i < r; i++) s += unit; one(s); one(s + tail); one(tail + s); } }
	mc::outcome(mc::fmt("%d", k)); env::checkBalanced("ip");
}
MC_SUITE(C25, list, 3, "every list of up to 4 (thorough 5) entries from a pool of good and bad addresses with every separator (comma, space, both, doubled) between, before and after; every allocation failing in turn") {
	static const char* P[] = { "1.2.3.4", "::1", "2001:db8::ff00:42:8329", "255.255.255.255", "bad", "1.2.3", "1:2" }; static const char* SEP[] = { ",", " ", ", ", ",," }; int n = mc::choose(mc::tier(4, 5)); int sep = mc::choose(4); S s; if (mc::choose(3) == 1) s = SEP[sep]; std::vector<Std> want; std::vector<Std> all;
	for (int i = 0; i < n; i++) { if (i) s += SEP[sep]; S t = P[mc::choose(7)]; s += t; Std w(t); if (w.type != BAD) want.push_back(w); } if (mc::flip()) s += SEP[sep]; char* m = (char*)malloc(s.size() + 1); memcpy(m, s.c_str(), s.size() + 1);
	for (int fail = 0; fail <= 12; fail++) {
		mc::label("ip:list"); mc::step(); mallocs = frees = 0; failAt = fail; fillByte = fail & 1 ? 0xa5 : 0x3c; A* h = fiftyoneDegreesIpParseAddresses(mal, m); size_t i = 0; int nodes = 0;
		for (A* a = h; a; a = a->next) { nodes++; if (a->type == BAD) continue; if (fail && mallocs >= fail) { bool known = false; for (auto& w : want) known |= w.type == (int)a->type && !memcmp(a->address, w.b, len(a)); MC_CHECK(known, "ip:list", "%s: an address not in the text", mc::quoted(s).c_str()); continue; } MC_CHECK(i < want.size() && want[i].type == (int)a->type && !memcmp(a->address, want[i].b, len(a)), "ip:list", "%s: address %zu is not the one in the text", mc::quoted(s).c_str(), i); i++; }
		if (!fail || mallocs < fail) MC_CHECK(i == want.size(), "ip:list", "%s: %zu addresses, %zu in the text", mc::quoted(s).c_str(), i, want.size()); mc::label("ip:list-free"); fiftyoneDegreesIpFreeAddresses(fre, h); MC_CHECK(frees == nodes && frees == mallocs - (fail && mallocs >= fail ? 1 : 0), "ip:list-free", "%s: %d allocated, %d freed", mc::quoted(s).c_str(), mallocs, frees);
	}
	mc::outcome(mc::fmt("%zu", want.size())); free(m); env::checkBalanced("ip");
}
MC_SUITE(C25, compare, 2, "every pair of addresses differing at up to two positions with all boundary byte values, for both families and the invalid one") {
	auto t = mc::flip() ? V6 : V4; int L = t == V4 ? 4 : 16; int i = mc::choose(L), j = mc::choose(L); static const int B[] = { 0, 1, 127, 128, 254, 255 }; mc::label("ip:compare");
	for (int a : B) for (int b : B) for (int c : B) for (int d : B) { std::vector<unsigned char> x(L, 9), y(L, 9); x[i] = a; y[i] = b; if (i != j) { x[j] = c; y[j] = d; } mc::step(); int w = memcmp(x.data(), y.data(), L), g = fiftyoneDegreesCompareIpAddresses(x.data(), y.data(), t); MC_CHECK((w < 0) == (g < 0) && (w > 0) == (g > 0), "ip:compare", "%d differs from %d", g, w); MC_CHECK(fiftyoneDegreesCompareIpAddresses(x.data(), y.data(), BAD) == 0, "ip:compare", "invalid"); }
	mc::outcome("ok");
}
using FiftyoneDegrees::IpIntelligence::IpAddress;
MC_SUITE(C25, cpp, 3, "the C++ address made from every text of a pool of good and bad addresses and from bytes, copied into buffers of every size up to 20") {
	static const char* P[] = { "1.2.3.4", "::1", "2001:db8::ff00:42:8329", "255.255.255.255", "bad", "1.2.3", "1:2", "", "::ffff:1.2.3.4" }; S s = P[mc::choose(9)]; Std w(s); mc::label("ip:cpp"); IpAddress a(s.c_str()); IpAddress b(w.b, (fiftyoneDegreesEvidenceIpType)w.type); IpAddress none; MC_CHECK(none.getType() == BAD, "ip:cpp", "none");
	for (auto x : { &a, &b }) { MC_CHECK(x->getType() == w.type || w.type == BAD, "ip:cpp-type", "%s", s.c_str()); size_t L = w.type == V4 ? 4 : w.type == V6 ? 16 : 0; MC_CHECK(!memcmp(x->getIpAddress(), w.b, L), "ip:cpp-bytes", "%s", s.c_str()); for (uint32_t n = 0; n <= 20; n++) { unsigned char* c = (unsigned char*)malloc(n + 1); memset(c, 0x77, n + 1); mc::step(); x->getCopyOfIpAddress(c, n); size_t k = std::min((size_t)n, L); MC_CHECK(!memcmp(c, w.b, k), "ip:cpp-copy", "%s: the copy of %u bytes is %s", s.c_str(), n, hex(c, n).c_str()); MC_CHECK(c[n] == 0x77, "ip:cpp-copy", "written past the buffer"); free(c); } }
	mc::outcome(s); env::checkBalanced("ip");
}
