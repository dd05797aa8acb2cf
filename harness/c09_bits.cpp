// C09: digests and bit operations against their definitions.
#include "vh.hpp"
#include <sys/mman.h>
extern "C" {
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_bit_ops.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_string.h"
}
using namespace vh; typedef std::vector<uint8_t> B;
// FIPS 180-4, constants derived from the fractional parts of prime roots
static uint32_t frac_root(unsigned p, bool cube) { // floor(2^32 * frac(root(p))) by integer bisection
    __uint128_t lo = 0, hi = (__uint128_t)1 << 36; auto le = [&](__uint128_t x) { // x/2^32 <= root(p)
        if (!cube) return x * x <= (((__uint128_t)p) << 64);
        // x^3 <= p * 2^96 : split to stay in range
        __uint128_t q = x * x; __uint128_t hiq = q >> 64, loq = (uint64_t)q; __uint128_t l = loq * x, h = hiq * x + (l >> 64); uint64_t low = (uint64_t)l; __uint128_t th = ((__uint128_t)p) << 32; return h < th || (h == th && low == 0); };
    while (hi - lo > 1) { __uint128_t m = (lo + hi) / 2; if (le(m)) lo = m; else hi = m; } return (uint32_t)lo; }
static std::vector<uint32_t> Kc, Hc;
static void init() { std::vector<unsigned> pr; for (unsigned n = 2; pr.size() < 64; ++n) { bool ok = true; for (unsigned d = 2; d * d <= n; ++d) if (n % d == 0) ok = false; if (ok) pr.push_back(n); } for (auto p : pr) Kc.push_back(frac_root(p, true)); for (int i = 0; i < 8; ++i) Hc.push_back(frac_root(pr[i], false)); }
static B sha(const B &m) {
    if (Kc.empty()) init(); auto H = Hc; B p = m; p.push_back(0x80); while (p.size() % 64 != 56) p.push_back(0); uint64_t bits = (uint64_t)m.size() * 8; for (int i = 7; i >= 0; --i) p.push_back((uint8_t)(bits >> (8 * i)));
    auto R = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    for (size_t o = 0; o < p.size(); o += 64) { uint32_t w[64]; for (int t = 0; t < 16; ++t) w[t] = (uint32_t)p[o + 4 * t] << 24 | (uint32_t)p[o + 4 * t + 1] << 16 | (uint32_t)p[o + 4 * t + 2] << 8 | p[o + 4 * t + 3]; for (int t = 16; t < 64; ++t) w[t] = (R(w[t - 2], 17) ^ R(w[t - 2], 19) ^ (w[t - 2] >> 10)) + w[t - 7] + (R(w[t - 15], 7) ^ R(w[t - 15], 18) ^ (w[t - 15] >> 3)) + w[t - 16]; auto v = H;
        for (int t = 0; t < 64; ++t) { uint32_t t1 = v[7] + (R(v[4], 6) ^ R(v[4], 11) ^ R(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + Kc[t] + w[t], t2 = (R(v[0], 2) ^ R(v[0], 13) ^ R(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int i = 7; i > 0; --i) v[i] = v[i - 1]; v[4] += t1; v[0] = t1 + t2; }
        for (int i = 0; i < 8; ++i) H[i] += v[i]; }
    B r; for (auto h : H) for (int i = 3; i >= 0; --i) r.push_back((uint8_t)(h >> (8 * i))); return r;
}
static std::string hex(const B &b) { std::string s; for (auto x : b) s += fmt("%02x", x); return s; }
static B rb(Rng &r, size_t n) { B b(n); for (auto &x : b) x = (uint8_t)r.next(); return b; }
static void vectors(Ctx &c) { static const char *v[][2] = {{"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"}, {"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"}, {"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"}}; for (auto &p : v) { B m((const uint8_t *)p[0], (const uint8_t *)p[0] + strlen(p[0])); REQ(c, hex(sha(m)) == p[1], "reference implementation is wrong"); uint8_t h[32]; nx_sha256(h, (const uint8_t *)p[0], strlen(p[0])); REQ(c, hex(B(h, h + 32)) == p[1], "standard vector '%s'", p[0]); c.ev("standard_vector"); } B m(1000000, 'a'); uint8_t h[32]; nx_sha256(h, m.data(), m.size()); REQ(c, hex(B(h, h + 32)) == "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0", "million a"); c.mix(1); c.nt(); }
static void digest(Ctx &c) {
    auto &r = c.rng; size_t n = r.coin() ? (size_t)c.case_id % 260 : r.i(0, 1500); if (r.coin(1, 200)) n = r.i(10000, 200000); B m = rb(r, n); c.desc("len %zu ", n); c.mix(n); c.mixb(m.data(), n); if (n) c.nt(); B e = sha(m); uint8_t h[32];
    B exact(m); nx_sha256(h, exact.data(), n); REQ(c, B(h, h + 32) == e, "digest %s expected %s", hex(B(h, h + 32)).c_str(), hex(e).c_str()); REQ(c, exact == m, "message modified"); c.ev("digest");
    for (int t = 0; t < 3; ++t) { int k = r.i(1, r.coin() ? 3 : 40); std::vector<size_t> cut = {0, n}; for (int i = 1; i < k; ++i) cut.push_back(r.coin(1, 4) ? std::min<size_t>(n, 64 * (size_t)r.i(0, (int)(n / 64))) : (size_t)r.i(0, (int)n)); std::sort(cut.begin(), cut.end()); std::vector<B> parts; std::vector<const uint8_t *> p; std::vector<size_t> l; for (size_t i = 0; i + 1 < cut.size(); ++i) parts.emplace_back(m.begin() + cut[i], m.begin() + cut[i + 1]); for (auto &b : parts) { b.reserve(1); p.push_back(b.data()); l.push_back(b.size()); } nx_sha256_multi(h, (int)p.size(), p.data(), l.data()); REQ(c, B(h, h + 32) == e, "digest of %zu pieces differs", p.size()); for (auto &b : parts) c.mix(b.size()); c.ev("split_digest"); }
    char *s = nx_hash_to_str(32, h); REQ(c, std::string(s) == hex(e), "hash text '%s'", s); nx_free(s); { B z = rb(r, r.i(0, 90)); uint8_t dm = 0; s = nx_hash_to_str((int)z.size(), z.empty() ? &dm : z.data()); REQ(c, std::string(s) == hex(z), "hash text '%s' of %zu octets", s, z.size()); nx_free(s); }
}
static int pc(uint64_t x) { int n = 0; while (x) { n += x & 1; x >>= 1; } return n; }
static void words(Ctx &c) {
    auto &r = c.rng; for (int t = 0; t < 200; ++t) { uint64_t x = r.next(); switch (r.i(0, 6)) { case 0: x = 1ull << r.i(0, 63); break; case 1: x = ~(1ull << r.i(0, 63)); break; case 2: x = t & 1 ? 0 : ~0ull; break; case 3: x &= r.next(); break; case 4: x >>= r.i(0, 63); break; default:; } c.mix(x); uint32_t y = r.coin() ? (uint32_t)x : (uint32_t)(x >> 32);
        REQ(c, nx_bit_count64(x) == pc(x), "bit count of %016llx is %d", (unsigned long long)x, nx_bit_count64(x)); REQ(c, nx_bit_count32(y) == pc(y), "bit count of %08x is %d", y, nx_bit_count32(y));
        for (int n = 0; n < 64; ++n) { uint64_t e = 0; for (int b = 0; b < 64; ++b) if (x >> b & 1) e |= 1ull << ((b - n + 64) % 64); REQ(c, nx_rotr64(x, n) == e, "rotation of %016llx by %d", (unsigned long long)x, n); if (n < 32) { uint32_t f = 0; for (int b = 0; b < 32; ++b) if (y >> b & 1) f |= 1u << ((b - n + 32) % 32); REQ(c, nx_rotr32(y, n) == f, "rotation of %08x by %d", y, n); } }
        alignas(8) uint8_t buf[24]; memset(buf, 0xA5, 24); int off = r.i(1, 8); nx_split_big_endian64(buf + off, x); for (int i = 0; i < 8; ++i) REQ(c, buf[off + i] == (uint8_t)(x >> (8 * (7 - i))), "big endian 64 byte %d", i); REQ(c, buf[off - 1] == 0xA5 && buf[off + 8] == 0xA5, "neighbouring byte changed"); memset(buf, 0xA5, 24); nx_split_big_endian32(buf + off, y); for (int i = 0; i < 4; ++i) REQ(c, buf[off + i] == (uint8_t)(y >> (8 * (3 - i))), "big endian 32 byte %d", i); REQ(c, buf[off - 1] == 0xA5 && buf[off + 4] == 0xA5, "neighbouring byte changed"); REQ(c, nx_compose_big_endian32(buf + off) == y, "compose"); c.ev("word", 1); }
    c.nt();
}
static void bitarray(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 60) ? r.logsize(300, 20000) : r.i(1, 300); c.desc("bits %d", n); c.mix(n); c.nt(); uint8_t *b = nx_bit_array_new(n); nx_bit_array_set_zero(n, b); std::vector<bool> m(n); for (int i = 0; i < n; ++i) REQ(c, !nx_bit_array_get(b, i), "bit %d not cleared", i); int k = r.i(1, 400); while (k--) { int i = r.i(0, n - 1); bool v = r.coin(); int raw = v ? (r.coin() ? 1 : r.i(2, 1000)) : 0; nx_bit_array_set(b, i, raw); m[i] = v; c.mix(i * 2 + v); if (r.coin(1, 10)) for (int j = 0; j < n; ++j) REQ(c, (nx_bit_array_get(b, j) != 0) == m[j], "bit %d after setting bit %d", j, i); c.ev("bit_set"); } for (int j = 0; j < n; ++j) REQ(c, (nx_bit_array_get(b, j) != 0) == m[j], "bit %d", j); nx_free(b);
}
static void hamming(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 60) ? r.logsize(200, 20000) : r.coin() ? r.i(0, 20) : r.i(0, 200); B a = rb(r, n), b = r.coin(1, 4) ? a : rb(r, n); if (n && r.coin(1, 4)) b[r.i(0, n - 1)] ^= 1 << r.i(0, 7); int e = 0; for (int i = 0; i < n; ++i) e += pc(a[i] ^ b[i]); c.desc("octets %d", n); c.mixb(a.data(), n); c.mixb(b.data(), n); if (n) c.nt(); int off = r.i(0, 7); B ap(off + n), bp(n); std::copy(a.begin(), a.end(), ap.begin() + off); bp = b; REQ(c, nx_brief_extractor_descriptor_distance(n, ap.data() + off, bp.data()) == e, "distance %d expected %d", nx_brief_extractor_descriptor_distance(n, ap.data() + off, bp.data()), e); REQ(c, nx_brief_extractor_descriptor_distance(n, bp.data(), ap.data() + off) == e, "not symmetric"); c.ev("hamming");
}
static void octets(Ctx &c) { int x = (int)(c.case_id % 256); c.mix(x); c.nt(); for (int y = 0; y < 256; ++y) { uint8_t a[9], b[9]; memset(a, 0x5a, 9); memset(b, 0x5a, 9); int at = c.rng.i(0, 8); a[at] = x; b[at] = y; REQ(c, nx_brief_extractor_descriptor_distance(9, a, b) == pc(x ^ y), "distance of %02x and %02x at %d", x, y, at); c.ev("octet_pair"); } }
// messages whose length in bits or bytes leaves 32 bits; the zero pages of a read-only mapping cost no memory. Reference digests: Python hashlib.
static void huge(Ctx &c) {
    static const struct { uint64_t n; const char *h; } T[] = {{4294967326ull, "d45c6b3f0dd7a1511ddac0527fb96cf199a1a0b7d8db586152864eafebb5bb59"}, {2147483653ull, "68bdfcb656af3067b8110b5cc839b4e12b180ef11e86011b8df4a709fe2c2f67"}, {536870975ull, "56a7b6d087f1fee2d664d83efe237e431adc59b0f6ad50c168b75095ad3dca9a"}, {536870919ull, "1417c61fc10e280a7480c5debfb71b7250d304f2685a7e5cc4b590d644a05242"}, {268435516ull, "3f763add775362d99f0c677efbe18a7d205802342ec56dd8718e8a990231e190"}, {268435477ull, "964fb4e6b934be07a9d43e741cdfd8c348b552187c2f740e9a88fe5380084173"}, {4294967355ull, "1bd35071afa4ef0e6fcf085508ed787cb928689da8e1ba7294e8bb2e0029f64a"}};
    size_t k = (size_t)c.case_id / 2; bool multi = c.case_id & 1; if (c.sanitized || k >= sizeof(T) / sizeof(T[0]) || (!c.thorough && (multi ? T[k].n > (1ull << 30) : k == 6))) { c.skip(); return; }
    uint64_t n = T[k].n; c.desc("%llu zero bytes%s", (unsigned long long)n, multi ? " in pieces" : ""); c.mix(n * 2 + multi); c.nt();
    Outcome o = fork_run([&] { size_t map = multi ? 1u << 24 : n; uint8_t *p = (uint8_t *)mmap(nullptr, map, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { printf("nomap"); return; }
        uint8_t h[32]; if (!multi) nx_sha256(h, p, n); else { std::vector<const uint8_t *> m; std::vector<size_t> l; uint64_t left = n; while (left) { size_t t = std::min<uint64_t>(left, c.rng.coin(1, 6) ? c.rng.i(0, 70) : c.rng.i(1, 1 << 24)); m.push_back(p); l.push_back(t); left -= t; } nx_sha256_multi(h, (int)m.size(), m.data(), l.data()); }
        printf("%s", hex(B(h, h + 32)).c_str()); }, 250);
    if (o.kind == HUNG || o.out == "nomap") { c.skip(); return; } REQ(c, o.kind == RETURNED && o.out == T[k].h, "digest %s expected %s (%s)", o.out.c_str(), T[k].h, o.err.substr(0, 200).c_str()); c.ev("huge_digest");
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"vectors", vectors, 1, 1}, {"digest", digest, 6000, 100000}, {"words", words, 500, 20000}, {"bitarray", bitarray, 3000, 50000}, {"hamming", hamming, 20000, 400000}, {"octets", octets, 512, 1024}, {"huge", huge, 14, 14}}); }
