// Random samplers against a literal SFMT-19937 and statistical monitors.
#include "vh.hpp"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include "virg/nexus/nx_alloc.h"
using namespace vh;
struct Sfmt { // published recursion (Saito & Matsumoto), 156 words of 128 bits
    uint32_t s[624]; int idx;
    explicit Sfmt(uint32_t seed) { s[0] = seed; for (uint32_t i = 1; i < 624; ++i) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; idx = 624; const uint32_t par[4] = {1, 0, 0, 0x13c9e684u}; uint32_t in = 0; for (int i = 0; i < 4; ++i) in ^= s[i] & par[i]; if (!__builtin_parity(in)) s[0] ^= 1; }
    void gen() { typedef unsigned __int128 W; auto ld = [&](int i) { W w = 0; for (int k = 3; k >= 0; --k) w = (w << 32) | s[4 * i + k]; return w; }; const uint32_t m[4] = {0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u}; W r1 = ld(154), r2 = ld(155); for (int i = 0; i < 156; ++i) { W a = ld(i), x = a ^ (a << 8) ^ (r1 >> 8); int b = (i + 122) % 156; uint32_t o[4]; for (int k = 0; k < 4; ++k) o[k] = (uint32_t)(x >> (32 * k)) ^ ((s[4 * b + k] >> 11) & m[k]) ^ ((uint32_t)(r2 >> (32 * k)) << 18); memcpy(&s[4 * i], o, 16); r1 = r2; r2 = ld(i); } idx = 0; }
    uint32_t u32() { if (idx >= 624) gen(); return s[idx++]; }
    uint64_t u64() { if (idx >= 624) gen(); uint64_t r = s[idx] | ((uint64_t)s[idx + 1] << 32); idx += 2; return r; }
};
static uint32_t seed_of(Rng &r) { switch (r.i(0, 5)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return (uint32_t)r.i(0, 1000); default: return (uint32_t)r.next(); } }
static void sequence(Ctx &c) {
    auto &r = c.rng; uint32_t seed = seed_of(r); auto *a = r.coin() ? nx_uniform_sampler_new_with_seed(seed) : nx_uniform_sampler_new(); nx_uniform_sampler_init_seed(a, seed); auto *b = nx_uniform_sampler_new_with_seed(seed); if (r.coin()) { for (int i = r.i(0, 700); i > 0; --i) nx_uniform_sampler_sample32(b); nx_uniform_sampler_init_seed(b, seed); } auto *other = nx_uniform_sampler_new(); Sfmt ref(seed); int ops = r.i(1, 2500); bool aligned = r.coin(2, 3); c.desc("seed %u, %d calls%s", seed, ops, aligned ? "" : ", 64-bit calls at odd positions"); c.mix(seed); c.mix(ops); c.nt(); bool known = true;
    for (int o = 0; o < ops; ++o) { if (r.coin(1, 50)) nx_uniform_sampler_sample64(other); switch (r.i(0, 9)) {
        case 0: case 1: case 2: { uint32_t x = nx_uniform_sampler_sample32(a), y = nx_uniform_sampler_sample32(b); REQ(c, x == y, "32-bit sample %d of equal seeds: %u and %u", o, x, y); if (known) { uint32_t w = ref.u32(); REQ(c, x == w, "32-bit sample %d is %u, SFMT-19937 gives %u", o, x, w); c.ev("sfmt_words"); } c.ev("samples32"); break; }
        case 3: { if (aligned && (ref.idx & 1)) { REQ(c, nx_uniform_sampler_sample32(a) == ref.u32() && (nx_uniform_sampler_sample32(b), true), "32-bit sample"); } uint64_t x = nx_uniform_sampler_sample64(a), y = nx_uniform_sampler_sample64(b); REQ(c, x == y, "64-bit sample of equal seeds differs"); if (ref.idx & 1) known = false; if (known) { uint64_t w = ref.u64(); REQ(c, x == w, "64-bit sample %d is %llu, SFMT-19937 gives %llu", o, (unsigned long long)x, (unsigned long long)w); } c.ev("samples64"); break; }
        case 4: case 5: case 6: { float x = nx_uniform_sampler_sample_s(a), y = nx_uniform_sampler_sample_s(b); REQ(c, x == y, "single precision sample of equal seeds: %.9g and %.9g", x, y); REQ(c, x >= 0.f && x < 1.f, "single precision sample %.9g outside [0,1)", x); if (known) { double w = ref.u32() / 4294967296.0; REQ(c, std::fabs(x - w) <= 6e-8, "single precision sample %.9g expected %.9g", x, w); } c.ev("samples_s"); break; }
        case 7: case 8: { double x = nx_uniform_sampler_sample_d(a), y = nx_uniform_sampler_sample_d(b); REQ(c, x == y, "double precision sample of equal seeds: %.17g and %.17g", x, y); REQ(c, x >= 0 && x < 1, "double precision sample %.17g outside [0,1)", x); if (known) { uint64_t lo = ref.u32(), hi = ref.u32(); double w = (double)(lo | (hi << 32)) / 18446744073709551616.0; REQ(c, std::fabs(x - w) <= 2.3e-16, "double precision sample %.17g expected %.17g", x, w); } c.ev("samples_d"); break; }
        default: break; } }
    nx_uniform_sampler_free(a); nx_uniform_sampler_free(b); nx_uniform_sampler_free(other);
}
// fills start at a block boundary: drive there directly
static void fills(Ctx &c) { auto &r = c.rng; uint32_t seed = seed_of(r); auto *a = nx_uniform_sampler_new_with_seed(seed); Sfmt ref(seed); int rounds = r.i(1, 5); c.desc("seed %u, %d blocks", seed, rounds); c.mix(seed); c.mix(rounds); c.nt(); for (int k = 0; k < rounds; ++k) { switch (r.i(0, 2)) { case 0: for (int i = 0; i < 624; ++i) REQ(c, nx_uniform_sampler_sample32(a) == ref.u32(), "word %d of block %d", i, k); break; case 1: { int n = r.coin() ? 624 : 624 + 4 * (r.coin(1, 20) ? r.logsize(400, 40000) : r.i(0, 400)); uint32_t *p = (uint32_t *)aligned_alloc(64, (size_t)(n * 4 + 63) / 64 * 64); nx_uniform_sampler_fill32(a, n, p); Sfmt t = ref; for (int i = 0; i < n; ++i) { uint32_t w = ref.u32(); REQ(c, p[i] == w, "filled element %d of %d is %u, the generator gives %u", i, n, p[i], w); } free(p); // afterwards the generator continues with the state of the last 624 words
            if (ref.idx != 624) { Sfmt f(0); Sfmt g = t; std::vector<uint32_t> all; for (int i = 0; i < n; ++i) all.push_back(g.u32()); memcpy(f.s, &all[n - 624], sizeof f.s); f.idx = 624; ref = f; } c.ev("fills"); break; }
        default: { int n = 312 + 2 * (r.coin(1, 20) ? r.logsize(300, 40000) : r.i(0, 300)); uint64_t *p = (uint64_t *)aligned_alloc(64, (size_t)(n * 8 + 63) / 64 * 64); nx_uniform_sampler_fill64(a, n, p); Sfmt g = ref; std::vector<uint32_t> all; for (int i = 0; i < n; ++i) { uint64_t w = g.u64(); all.push_back((uint32_t)w); all.push_back((uint32_t)(w >> 32)); REQ(c, p[i] == w, "filled 64-bit element %d of %d differs from the generator", i, n); } free(p); memcpy(ref.s, &all[all.size() - 624], sizeof ref.s); ref.idx = 624; c.ev("fills"); } } } for (int i = 0; i < 50; ++i) REQ(c, nx_uniform_sampler_sample32(a) == ref.u32(), "word %d after filling", i); nx_uniform_sampler_free(a); }
static double ks(std::vector<double> v, double (*F)(double)) { std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size(); for (size_t i = 0; i < n; ++i) { double f = F(v[i]); d = std::max({d, std::fabs(f - (double)i / n), std::fabs((double)(i + 1) / n - f)}); } return d * std::sqrt((double)n); }
static double Fu(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double Fn(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void uniform_dist(Ctx &c) { auto &r = c.rng; uint32_t seed = seed_of(r); auto *a = nx_uniform_sampler_new_with_seed(seed); int n = 20000; bool d = r.coin(); c.desc("seed %u %s", seed, d ? "double" : "single"); c.mix(seed + d); c.nt(); std::vector<double> v(n); for (auto &x : v) x = d ? nx_uniform_sampler_sample_d(a) : nx_uniform_sampler_sample_s(a); REQ(c, ks(v, Fu) < 3.0, "uniform samples deviate from uniform (KS %g)", ks(v, Fu)); double cor = 0; for (int i = 1; i < n; ++i) cor += (v[i] - .5) * (v[i - 1] - .5); cor = cor / n * 12 * std::sqrt((double)n); REQ(c, std::fabs(cor) < 6.5, "successive samples are correlated (%g)", cor); nx_uniform_sampler_free(a); c.ev("distribution_samples", n); }
// the largest words of the generator are rare: walk until some were seen
static void edges(Ctx &c) { auto &r = c.rng; uint32_t seed = (uint32_t)r.next(); int n = c.thorough ? 100000000 : 12000000; auto *a = nx_uniform_sampler_new_with_seed(seed); float mx = 0, mn = 1; for (int i = 0; i < n; ++i) { float x = nx_uniform_sampler_sample_s(a); mx = std::max(mx, x); mn = std::min(mn, x); } c.desc("seed %u: %d single precision samples", seed, n); c.mix(seed); c.nt(); REQ(c, mx < 1.0f && mn >= 0.f, "single precision samples reach [%.9g,%.9g]", mn, mx); REQ(c, mx > 0.99999f && mn < 0.00001f, "samples cover only [%.9g,%.9g]", mn, mx); nx_uniform_sampler_free(a); c.ev("edge_samples", n); }
static uint32_t edge_seeds[64]; static int n_edge = -1;
// seeds whose early output contains a word that rounds up to one in single precision, found with the reference generator
static void edge_words(Ctx &c) { auto &r = c.rng; uint32_t s0 = (uint32_t)r.next(); for (int t = 0; t < 8000; ++t) { Sfmt g(s0 + t); g.gen(); for (int i = 0; i < 624; ++i) if (g.s[i] >= 0xffffff80u || g.s[i] < 4) { auto *a = nx_uniform_sampler_new_with_seed(s0 + t); float x = 0; for (int k = 0; k <= i; ++k) x = nx_uniform_sampler_sample_s(a); REQ(c, x >= 0.f && x < 1.f, "seed %u sample %d (word %08x) is %.9g", s0 + t, i, g.s[i], x); c.ev("edge_words"); nx_uniform_sampler_free(a); } } c.desc("seeds from %u", s0); c.mix(s0); c.nt(); (void)edge_seeds; (void)n_edge; }
static void gauss(Ctx &c) {
    auto &r = c.rng; uint32_t seed = seed_of(r); int n = r.coin(1, 3) ? r.i(0, 9) : r.i(0, 20000); bool dbl = r.coin(); double mean = r.coin() ? 0 : r.uni(-50, 50), sigma = r.coin() ? 1 : r.uni(0.01, 20); c.desc("seed %u n %d mean %g sigma %g %s", seed, n, mean, sigma, dbl ? "double" : "single"); c.mix(seed); c.mix(n); if (n > 2) c.nt();
    auto mk = [&]() { switch (r.i(0, 2)) { case 0: return nx_gaussian_sampler_new_with_seed(seed); case 1: return nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(seed)); default: { auto *g = nx_gaussian_sampler_new(nullptr); nx_gaussian_sampler_init_seed(g, seed); return g; } } }; auto *a = mk(), *b = mk(), *s = mk(); auto draw = [&](NXGaussianSampler *g, int k, double m, double sg) { std::vector<double> o; if (dbl) { std::vector<double> v(k + 1, 12345.0); nx_gaussian_sampler_sample_d(g, k, v.data(), m, sg); REQ(c, v[k] == 12345.0, "wrote beyond the %d samples", k); o.assign(v.begin(), v.end() - 1); } else { std::vector<float> v(k + 1, 12345.f); nx_gaussian_sampler_sample_s(g, k, v.data(), (float)m, (float)sg); REQ(c, v[k] == 12345.f, "wrote beyond the %d samples", k); o.assign(v.begin(), v.end() - 1); } return o; };
    auto x = draw(a, n, mean, sigma), y = draw(b, n, mean, sigma), z = draw(s, n, 0, 1); for (int i = 0; i < n; ++i) { REQ(c, x[i] == y[i], "sample %d of equal seeds: %.17g and %.17g", i, x[i], y[i]); REQ(c, std::isfinite(x[i]), "sample %d is %g", i, x[i]); REQ(c, near(x[i], mean + sigma * z[i], dbl ? 1e-12 * (std::fabs(mean) + sigma * 8) : 2e-6 * (std::fabs(mean) + sigma * 8)), "sample %d with mean %g deviation %g is %.9g, standard sample %.9g", i, mean, sigma, x[i], z[i]); }
    int k = r.i(1, 5); auto x2 = draw(a, k, mean, sigma), y2 = draw(b, k, mean, sigma); REQ(c, x2 == y2, "continued sequences of equal seeds differ");
    if (n > 3000) { double m = 0, v = 0, o1 = 0; for (double q : z) m += q; m /= n; for (double q : z) v += (q - m) * (q - m); v /= n; for (int i = 1; i < n; ++i) o1 += z[i] * z[i - 1]; o1 /= n; double sn = std::sqrt((double)n); REQ(c, std::fabs(m) * sn < 6.5, "mean %g of %d standard samples", m, n); REQ(c, std::fabs(v - 1) * sn / std::sqrt(2.0) < 6.5, "variance %g of %d standard samples", v, n); REQ(c, std::fabs(o1) * sn < 6.5, "successive Gaussian samples correlate by %g", o1); REQ(c, ks(z, Fn) < 3.0, "samples deviate from the normal distribution (KS %g)", ks(z, Fn)); c.ev("gaussian_distribution_samples", n); }
    c.ev("gaussian_samples", n); nx_gaussian_sampler_free(a); nx_gaussian_sampler_free(b); nx_gaussian_sampler_free(s);
}
static void odd_tails(Ctx &c) { // the last sample of an odd request comes from a separate draw
    auto &r = c.rng; uint32_t seed = (uint32_t)r.next(); auto *a = nx_gaussian_sampler_new_with_seed(seed); int n = 20000, k = r.coin() ? 1 : 3; bool dbl = r.coin(); std::vector<double> z(n); c.desc("seed %u %s request %d", seed, dbl ? "double" : "single", k); c.mix(seed); c.nt(); for (auto &q : z) { double d[3]; float f[3]; if (dbl) nx_gaussian_sampler_sample_d(a, k, d, 0, 1); else nx_gaussian_sampler_sample_s(a, k, f, 0, 1); q = dbl ? d[k - 1] : f[k - 1]; } double m = 0, v = 0, sn = std::sqrt((double)n); for (double q : z) m += q / n; for (double q : z) v += (q - m) * (q - m) / n; REQ(c, std::fabs(m) * sn < 6.5 && std::fabs(v - 1) * sn / std::sqrt(2.0) < 6.5, "mean %g variance %g of %d last samples", m, v, n); REQ(c, ks(z, Fn) < 3.0, "last samples deviate from the normal distribution (KS %g)", ks(z, Fn)); nx_gaussian_sampler_free(a); c.ev("odd_request_samples", n); }
static void tails(Ctx &c) { auto &r = c.rng; uint32_t seed = (uint32_t)r.next(); auto *a = nx_gaussian_sampler_new_with_seed(seed); int n = 400000; bool dbl = r.coin(); double k[4] = {1, 2, 3, 4}; int cnt[4] = {0, 0, 0, 0}; for (int i = 0; i < n; i += 100) { double d[100]; float f[100]; if (dbl) nx_gaussian_sampler_sample_d(a, 100, d, 0, 1); else nx_gaussian_sampler_sample_s(a, 100, f, 0, 1); for (int j = 0; j < 100; ++j) { double q = dbl ? d[j] : f[j]; for (int t = 0; t < 4; ++t) cnt[t] += std::fabs(q) > k[t]; } } c.desc("seed %u %s", seed, dbl ? "double" : "single"); c.mix(seed); c.nt(); for (int t = 0; t < 4; ++t) { double p = std::erfc(k[t] / std::sqrt(2.0)), e = n * p, s = std::sqrt(e * (1 - p)); REQ(c, std::fabs(cnt[t] - e) < 7 * s + 3, "%d of %d samples beyond %g deviations, expected %g", cnt[t], n, k[t], e); } nx_gaussian_sampler_free(a); c.ev("tail_samples", n); }
static void instances(Ctx &c) { auto &r = c.rng; uint32_t seed = (uint32_t)r.next(); c.desc("seed %u", seed); c.mix(seed); c.nt(); auto *u = nx_uniform_sampler_instance(); REQ(c, u && u == nx_uniform_sampler_instance(), "the shared sampler changes"); nx_uniform_sampler_init_seed(u, seed); Sfmt ref(seed); for (int i = r.i(1, 700); i > 0; --i) { uint32_t x = NX_UNIFORM_SAMPLE32; REQ(c, x == ref.u32(), "the shared sampler does not follow its seed"); } float f = NX_UNIFORM_SAMPLE_S; double d = NX_UNIFORM_SAMPLE_D; REQ(c, f >= 0 && f < 1 && d >= 0 && d < 1, "samples %g %g", f, d); auto *g = nx_gaussian_sampler_instance(); REQ(c, g && g == nx_gaussian_sampler_instance(), "the shared Gaussian sampler changes"); nx_gaussian_sampler_init_seed(g, seed); auto *h = nx_gaussian_sampler_new_with_seed(seed); float a[7], b[7]; nx_gaussian_sampler_sample_s(g, 7, a, 1, 2); nx_gaussian_sampler_sample_s(h, 7, b, 1, 2); REQ(c, !memcmp(a, b, sizeof a), "shared and own Gaussian sampler with equal seeds differ"); nx_gaussian_sampler_free(h); nx_gaussian_sampler_instance_free(); nx_uniform_sampler_instance_free(); if (r.coin()) { nx_uniform_sampler_instance_free(); auto *u2 = nx_uniform_sampler_instance(); nx_uniform_sampler_init_seed(u2, seed); REQ(c, nx_uniform_sampler_sample32(u2) == Sfmt(seed).u32(), "recreated shared sampler"); nx_uniform_sampler_instance_free(); } c.ev("instances"); }
int main(int argc, char **argv) { return run_main(argc, argv, {{"sequence", sequence, 3000, 60000}, {"fills", fills, 2000, 40000}, {"uniform_dist", uniform_dist, 200, 4000}, {"edges", edges, 4, 40}, {"edge_words", edge_words, 64, 600}, {"gauss", gauss, 1500, 30000}, {"tails", tails, 16, 400}, {"odd_tails", odd_tails, 48, 800}, {"instances", instances, 500, 5000}}); }
