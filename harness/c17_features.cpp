// SIFT extraction, caching and matching; BRIEF samplers; descriptor maps.
#include "img.hpp"
#include <array>
#include <dirent.h>
#include <sys/stat.h>
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
using namespace vh; using namespace vi; using namespace virg::nexus;
static const int DD = NX_SIFT_DESC_DIM;
struct Feat { std::vector<NXKeypoint> k; std::vector<uchar> d; };
static bool keq(const NXKeypoint &a, const NXKeypoint &b) { auto f = [](float x, float y) { return !memcmp(&x, &y, 4); }; return a.x == b.x && a.y == b.y && f(a.xs, b.xs) && f(a.ys, b.ys) && a.level == b.level && f(a.scale, b.scale) && f(a.sigma, b.sigma) && f(a.score, b.score) && f(a.ori, b.ori) && a.id == b.id; }
static bool same(const Feat &a, const Feat &b) { if (a.k.size() != b.k.size() || a.d != b.d) return false; for (size_t i = 0; i < a.k.size(); ++i) if (!keq(a.k[i], b.k[i])) return false; return true; }
struct Buf { int cap = 0; NXKeypoint *k = nullptr; uchar *d = nullptr; ~Buf() { nx_free(k); nx_free(d); } void init(Rng &r) { cap = r.coin() ? 0 : r.i(1, 40); if (cap) { k = (NXKeypoint *)nx_xmalloc(cap * sizeof *k); d = (uchar *)nx_xmalloc((size_t)cap * DD); memset((void *)k, r.i(0, 255), cap * sizeof *k); memset(d, r.i(0, 255), (size_t)cap * DD); } } };
static Feat take(Ctx &c, Buf &b, int n) { REQ(c, n >= 0 && n <= b.cap, "%d features reported with room for %d", n, b.cap); Feat f; f.k.assign(b.k, b.k + n); f.d.assign(b.d, b.d + (size_t)n * DD); if (b.cap > 0 && b.cap < 1000000) { memset((void *)b.k, 7, b.cap * sizeof *b.k); memset(b.d, 7, (size_t)b.cap * DD); } return f; } // all of the room reported is really there
static Feat compute(Ctx &c, NXSIFTDetector *d, NXImage *i, const char *cache = nullptr) { Buf b; b.init(c.rng); int n = cache ? nx_sift_detector_compute_with_cache(d, i, &b.cap, &b.k, &b.d, cache) : nx_sift_detector_compute(d, i, &b.cap, &b.k, &b.d); return take(c, b, n); }
static NXSIFTDetectorParams params(Rng &r) { auto p = nx_sift_default_parameters(); memset((void *)&p, 0, sizeof p); auto q = nx_sift_default_parameters(); p.double_image = r.coin() ? NX_TRUE : NX_FALSE; p.n_scales_per_octave = r.coin() ? 3 : r.i(1, 5); p.sigma0 = r.coin() ? 1.6f : (float)r.uni(0.4, 2.2); p.kernel_truncation_factor = r.coin() ? 4.0f : (float)r.uni(2.5, 5); p.border_distance = r.coin() ? 5 : r.i(3, 8); p.peak_threshold = r.coin() ? q.peak_threshold : (float)r.uni(0.002, 0.06); p.edge_threshold = r.coin() ? 10.f : (float)r.uni(3, 20); p.magnification_factor = r.coin() ? 3 : r.i(1, 4); return p; }
static Px scene(Rng &r, int w, int h, bool f32) { Px p(w, h, 1, f32); int style = r.i(0, 3); std::vector<double> g((size_t)w * h, 0.0); if (style == 0) { for (auto &v : g) v = r.u(); for (int y = 1; y < h; ++y) for (int x = 1; x < w; ++x) g[y * w + x] = (g[y * w + x] + g[y * w + x - 1] + g[(y - 1) * w + x] + g[(y - 1) * w + x - 1]) / 4; }
    else { double bg = r.uni(0, 1); for (auto &v : g) v = bg; int n = r.i(1, 14); for (int i = 0; i < n; ++i) { double cx = r.uni(0, w), cy = r.uni(0, h), s = r.uni(1, 6), a = r.uni(-1, 1), e = style == 2 ? r.uni(0.4, 1) : 1; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double d = ((x - cx) * (x - cx) + (y - cy) * (y - cy) * e) / (2 * s * s); if (style == 3) g[y * w + x] = d < 1 ? bg + a : g[y * w + x]; else g[y * w + x] += a * std::exp(-d); } } }
    for (int i = 0; i < w * h; ++i) { double v = std::min(1.0, std::max(0.0, g[i])); p.v[i] = f32 ? (float)v : (float)std::lrint(v * 255); } return p; }

// ---- literal extraction on the library's own smoothed images, in double precision; decisions within a margin are left open
struct RefKey { double x, y, s, sigma, val, ori; int octave; double d[128]; bool open; bool hit = false; };
struct Open { int octave; double x, y; };
static double G(const NXImage *i, int x, int y) { return i->data.f32[(size_t)y * i->row_stride + x]; }
static bool solve3(const double A[3][3], const double b[3], double x[3]) { double m[3][4]; double sc = 0; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { m[i][j] = A[i][j]; sc = std::max(sc, std::fabs(A[i][j])); } m[i][3] = b[i]; } if (sc == 0) return false; for (int k = 0; k < 3; ++k) { int p = k; for (int i = k + 1; i < 3; ++i) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i; if (std::fabs(m[p][k]) < 1e-6 * sc) return false; std::swap(m[p], m[k]); for (int i = 0; i < 3; ++i) if (i != k) { double f = m[i][k] / m[k][k]; for (int j = k; j < 4; ++j) m[i][j] -= f * m[k][j]; } } for (int i = 0; i < 3; ++i) x[i] = m[i][3] / m[i][i]; return true; }
static void ref_extract(const NXSIFTDetectorParams &P, const NXImage *src, std::vector<RefKey> &out, std::vector<Open> &open, std::vector<std::pair<int, int>> &dims) {
    const int S = P.n_scales_per_octave; std::vector<NXImage *> L(S + 3), D(S + 2); for (auto &q : L) q = nx_image_alloc(); for (auto &q : D) q = nx_image_alloc(); NXImage *gx = nx_image_alloc(), *gy = nx_image_alloc(), *up = nx_image_alloc();
    float sc = 0.5f; int oct = 0; const NXImage *in = src; if (P.double_image) { nx_image_upsample(up, src); in = up; sc *= 2; oct = -1; }
    nx_image_resize(L[0], in->width, in->height, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); nx_image_convert_dtype(L[0], in); if (P.sigma0 > sc) { float g = std::sqrt(P.sigma0 * P.sigma0 - sc * sc); nx_image_smooth(L[0], L[0], g, g, P.kernel_truncation_factor, nullptr); sc = P.sigma0; }
    int M = 2 * P.border_distance + 2, B = P.border_distance; const double E = 2e-6; double thr = P.peak_threshold / S;
    for (; L[0]->width > M && L[0]->height > M; ++oct) { float s = sc, mul = (float)std::pow(2.0, 1.0 / S); dims.push_back({L[0]->width, L[0]->height}); int W = L[0]->width, H = L[0]->height; for (int i = 1; i < S + 3; ++i) { nx_image_copy(L[i], L[i - 1]); float t = mul * s, g = std::sqrt(t * t - s * s); nx_image_smooth(L[i], L[i], g, g, P.kernel_truncation_factor, nullptr); s *= mul; } for (int i = 0; i < S + 2; ++i) nx_image_subtract(D[i], L[i], L[i + 1]);
        for (int i = 1; i <= S; ++i) { nx_image_deriv_x(gx, L[i - 1]); nx_image_deriv_y(gy, L[i - 1]);
            for (int y0 = B; y0 < H - B; ++y0) for (int x0 = B; x0 < W - B; ++x0) { double v = G(D[i], x0, y0), worst = 1e9; for (int k = -1; k <= 1; ++k) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (k || dx || dy) { double n = G(D[i + k], x0 + dx, y0 + dy); worst = std::min(worst, v > 0 ? v - n : n - v); } double m = std::min(worst, std::fabs(v) - 0.8 * thr); if (m < -E) continue; double a = G(D[i], x0, y0 - 1) - 2 * v + G(D[i], x0, y0 + 1), b = G(D[i], x0 - 1, y0) - 2 * v + G(D[i], x0 + 1, y0), q = (G(D[i], x0 + 1, y0 + 1) - G(D[i], x0 - 1, y0 + 1) - G(D[i], x0 + 1, y0 - 1) + G(D[i], x0 - 1, y0 - 1)) / 4; double e = P.edge_threshold, ed = (a * b - q * q) * (e + 1) * (e + 1) - e * (a + b) * (a + b), es = 1e-5 * (std::fabs(a) + std::fabs(b) + E) * (std::fabs(a) + std::fabs(b) + E) * (e + 1) * (e + 1) + 1e-12; if (ed < -es) continue; bool amb = m < E || std::fabs(ed) < es || !(v != 0);
                int x = x0, y = y0; double o[3] = {0, 0, 0}, dv = 0; bool drop = false; for (int t = 0; t < 5; ++t) { auto d = [&](int k, int dx, int dy) { return G(D[i + k], x + dx, y + dy); }; double g[3] = {(d(0, 1, 0) - d(0, -1, 0)) / 2, (d(0, 0, 1) - d(0, 0, -1)) / 2, (d(1, 0, 0) - d(-1, 0, 0)) / 2}; double z = d(0, 0, 0), xy = (d(0, 1, 1) - d(0, -1, 1) - d(0, 1, -1) + d(0, -1, -1)) / 4, xs = (d(1, 1, 0) - d(1, -1, 0) - d(-1, 1, 0) + d(-1, -1, 0)) / 4, ys = (d(1, 0, 1) - d(1, 0, -1) - d(-1, 0, 1) + d(-1, 0, -1)) / 4; double A[3][3] = {{d(0, -1, 0) - 2 * z + d(0, 1, 0), xy, xs}, {xy, d(0, 0, -1) - 2 * z + d(0, 0, 1), ys}, {xs, ys, d(-1, 0, 0) - 2 * z + d(1, 0, 0)}}, nb[3] = {-g[0], -g[1], -g[2]}; double mx = 0; for (auto &rr : A) for (double u : rr) mx = std::max(mx, std::fabs(u)); if (mx < 1e-4) amb = true; if (!solve3(A, nb, o)) { amb = true; drop = true; break; } dv = z + 0.5 * (g[0] * o[0] + g[1] * o[1] + g[2] * o[2]); if (std::fabs(std::fabs(o[0]) - 0.6) < 1e-3 || std::fabs(std::fabs(o[1]) - 0.6) < 1e-3) amb = true; int dx = o[0] > 0.6 && x < W - 3 ? 1 : o[0] < -0.6 && x > 3 ? -1 : 0, dy = o[1] > 0.6 && y < H - 3 ? 1 : o[1] < -0.6 && y > 3 ? -1 : 0; if (!dx && !dy) break; x += dx; y += dy; }
                for (double u : o) if (std::fabs(std::fabs(u) - 1.5) < 2e-3) amb = true; if (std::fabs(std::fabs(dv) - thr) < E) amb = true; if (amb) open.push_back({oct, (double)x, (double)y}); if (drop || std::fabs(o[0]) > 1.5 || std::fabs(o[1]) > 1.5 || std::fabs(o[2]) > 1.5 || std::fabs(dv) < thr) continue;
                double X = x + o[0], Y = y + o[1], sig = sc * std::pow(2.0, (i + o[2]) / S); const int N = 36; std::vector<double> h(N, 0.0); double os = sig * 1.5, ambw = 0; int rad = (int)(os * 3); if (std::fabs(os * 3 - std::floor(os * 3 + 0.5)) < 1e-3) amb = true; int xi = (int)(X + 0.5), yi = (int)(Y + 0.5); if (std::fabs(X + 0.5 - std::floor(X + 1.0)) < 1e-4 || std::fabs(Y + 0.5 - std::floor(Y + 1.0)) < 1e-4) amb = true;
                for (int vv = yi - rad; vv <= yi + rad; ++vv) for (int u = xi - rad; u <= xi + rad; ++u) { if (vv <= 0 || vv >= H - 2 || u <= 0 || u >= W - 2) continue; double r2 = (u - X) * (u - X) + (vv - Y) * (vv - Y); bool edge = std::fabs(r2 - (rad * rad + 0.5)) < 1e-2; if (r2 > rad * rad + 0.5 && !edge) continue; double px = G(gx, u, vv), py = -G(gy, u, vv), wgt = std::exp(-0.5 * r2 / (os * os)) * std::sqrt(px * px + py * py), bf = N * (std::atan2(py, px) + M_PI + 1e-5) / (2 * M_PI); if (edge || std::fabs(bf - std::floor(bf + 0.5)) < 1e-5) ambw += wgt; if (r2 > rad * rad + 0.5) continue; h[std::min(N - 1, (int)bf)] += wgt; }
                for (int t = 0; t < 6; ++t) { auto o2 = h; for (int k = 0; k < N; ++k) h[k] = (o2[(k + N - 1) % N] + o2[k] + o2[(k + 1) % N]) / 3; } double pk = *std::max_element(h.begin(), h.end()); if (ambw > 1e-4 * pk) amb = true; double hm = 1e-4 * pk; bool found = false;
                for (int k = 0; k < N; ++k) { double l = h[(k + N - 1) % N], rr = h[(k + 1) % N], mm = std::min({h[k] - l, h[k] - rr, h[k] - 0.8 * pk}); if (mm < -hm) continue; bool op = amb || mm < hm; if (op) open.push_back({oct, X, Y}); if (mm <= 0) continue; double off = -0.5 * (rr - l) / (l + rr - 2 * h[k]); RefKey K; K.x = X; K.y = Y; K.s = i + o[2]; K.sigma = sig; K.val = dv; K.octave = oct; K.open = op || (2 * h[k] - l - rr) < 20 * hm; if (K.open) open.push_back({oct, X, Y}); K.ori = M_PI * (2 * (k + 0.5 + off) / N - 1); found = true;
                    for (double &z : K.d) z = 0; double ps = sig * P.magnification_factor, R = 2.5, co = std::cos(K.ori), si = std::sin(K.ori); int sr = (int)(ps * R * std::sqrt(2.0) + 0.5) + 1; for (int dy = -sr; dy <= sr; ++dy) for (int dx = -sr; dx <= sr; ++dx) { int u = xi + dx, w = yi + dy; if (u < 0 || u >= W || w < 0 || w >= H) continue; double px = (-si * dy + co * dx - (X - xi)) / ps, py = (co * dy + si * dx - (Y - yi)) / ps; if (std::fabs(px) >= R || std::fabs(py) >= R) continue; double a2 = G(gx, u, w), b2 = -G(gy, u, w), wt = std::sqrt(a2 * a2 + b2 * b2) * std::exp(-0.5 * (px * px + py * py) / 4), th = std::fmod(std::atan2(b2, a2) - K.ori + 4 * M_PI, 2 * M_PI) * 8 / (2 * M_PI); double fx = px + 1.5, fy = py + 1.5; int ix = (int)std::floor(fx), iy = (int)std::floor(fy), it = (int)th; double ex = fx - ix, ey = fy - iy, et = th - it; for (int aa = 0; aa < 2; ++aa) for (int bb = 0; bb < 2; ++bb) for (int cc = 0; cc < 2; ++cc) { int cx = ix + aa, cy = iy + bb; if (cx < 0 || cx > 3 || cy < 0 || cy > 3) continue; K.d[(cy * 4 + cx) * 8 + (it + cc) % 8] += wt * (aa ? ex : 1 - ex) * (bb ? ey : 1 - ey) * (cc ? et : 1 - et); } }
                    for (int pass = 0; pass < 2; ++pass) { double nn = 0; for (double z : K.d) nn += z * z; nn = std::sqrt(nn); if (nn > 0) for (double &z : K.d) { z /= nn; if (!pass && z > 0.2) z = 0.2; } } for (double &z : K.d) z = std::min(255.0, 512 * z); out.push_back(K); }
                (void)found; } }
        nx_image_downsample(L[0], L[S]); }
    for (auto q : L) nx_image_free(q); for (auto q : D) nx_image_free(q); nx_image_free(gx); nx_image_free(gy); nx_image_free(up);
}
static void sane(Ctx &c, const Feat &f, const NXSIFTDetectorParams &P, const std::vector<std::pair<int, int>> &dims, int w, int h) { for (size_t i = 0; i < f.k.size(); ++i) { auto &k = f.k[i]; REQ(c, k.id == i, "feature %zu has id %llu", i, (unsigned long long)k.id); int o = k.level + (P.double_image ? 1 : 0); REQ(c, o >= 0 && o < (int)dims.size(), "feature %zu in octave %d of %zu", i, k.level, dims.size()); REQ(c, k.scale == (float)std::pow(2.0, k.level), "scale %g in octave %d", k.scale, k.level); REQ(c, std::isfinite(k.xs) && std::isfinite(k.ys) && std::isfinite(k.sigma) && std::isfinite(k.score) && std::isfinite(k.ori), "feature %zu is not finite", i); REQ(c, k.xs >= 0 && k.ys >= 0 && k.xs <= dims[o].first - 1 && k.ys <= dims[o].second - 1, "feature %zu at (%g,%g) outside its %dx%d octave", i, k.xs, k.ys, dims[o].first, dims[o].second); REQ(c, k.x == (int)(k.xs + 0.5f) && k.y == (int)(k.ys + 0.5f), "feature %zu pixel (%d,%d) for position (%g,%g)", i, k.x, k.y, k.xs, k.ys); REQ(c, k.xs * k.scale < w && k.ys * k.scale < h, "feature %zu at (%g,%g) outside the %dx%d image", i, k.xs * k.scale, k.ys * k.scale, w, h); REQ(c, std::fabs(k.ori) <= 1.12 * M_PI, "orientation %g", k.ori); REQ(c, k.sigma > 0 && std::fabs(k.score) >= P.peak_threshold / P.n_scales_per_octave * 0.9999f, "sigma %g score %g", k.sigma, k.score); double n = 0; for (int j = 0; j < DD; ++j) n += (double)f.d[i * DD + j] * f.d[i * DD + j]; n = std::sqrt(n); REQ(c, n <= 512.01 && n > 512 - 12, "descriptor %zu has norm %g", i, n); } c.ev("sift_features", f.k.size()); }
static std::vector<std::pair<int, int>> octaves(const NXSIFTDetectorParams &P, int w, int h) { std::vector<std::pair<int, int>> v; if (P.double_image) w *= 2, h *= 2; int M = 2 * P.border_distance + 2; while (w > M && h > M) { v.push_back({w, h}); w /= 2; h /= 2; } return v; }
static void sift(Ctx &c) {
    auto &r = c.rng; auto P = params(r); bool f32 = r.coin(1, 3); int mx = P.double_image ? 36 : 64; Px p = scene(r, r.coin(1, 12) ? r.i(1, 12) : r.i(14, mx), r.coin(1, 12) ? r.i(1, 12) : r.i(14, mx), f32); Img m = make(r, p); std::string before = raw(m.i); c.desc("%dx%d %s double %d scales %d sigma0 %.9g trunc %g border %d peak %g edge %g mag %d", p.w, p.h, f32 ? "float" : "uchar", P.double_image, P.n_scales_per_octave, P.sigma0, P.kernel_truncation_factor, P.border_distance, P.peak_threshold, P.edge_threshold, P.magnification_factor); mixpx(c, p);
    auto *d = nx_sift_detector_new(P); Feat f = compute(c, d, m.i); REQ(c, raw(m.i) == before, "extraction changed the image"); if (!f.k.empty()) c.nt(); std::vector<RefKey> ref; std::vector<Open> op; std::vector<std::pair<int, int>> dims; ref_extract(P, m.i, ref, op, dims); REQ(c, dims == octaves(P, p.w, p.h), "octave sizes"); sane(c, f, P, dims, p.w, p.h);
    for (size_t i = 0; i < f.k.size(); ++i) { auto &k = f.k[i]; bool ok = false; double best = 1e9; for (auto &q : ref) { double dd = std::max(std::fabs(q.x - k.xs), std::fabs(q.y - k.ys)), da = std::fabs(std::remainder(q.ori - k.ori, 2 * M_PI)); if (q.octave == k.level) best = std::min(best, dd); if (q.hit || q.octave != k.level || dd > 5e-3 || da > 5e-3 || !near(q.sigma, k.sigma, 0, 2e-3) || !near(q.val, k.score, 2e-5)) continue; q.hit = true; ok = true; if (!q.open) for (int j = 0; j < DD; ++j) REQ(c, std::fabs(f.d[i * DD + j] - q.d[j]) <= 2.6, "descriptor %zu element %d is %d expected %g", i, j, f.d[i * DD + j], q.d[j]); c.ev("sift_descriptors_compared"); break; }
        if (!ok) for (auto &q : op) if (q.octave == k.level && std::fabs(q.x - k.xs) < 8 && std::fabs(q.y - k.ys) < 8) { ok = true; c.ev("sift_open_decisions"); break; } REQ(c, ok, "feature %zu (octave %d, (%g,%g), sigma %g, score %g, orientation %g) is not an extremum by definition (nearest in octave %g)", i, k.level, k.xs, k.ys, k.sigma, k.score, k.ori, best); }
    for (auto &q : ref) { bool o = q.open; for (auto &z : op) if (z.octave == q.octave && std::fabs(z.x - q.x) < 0.02 && std::fabs(z.y - q.y) < 0.02) o = true; REQ(c, q.hit || o, "extremum in octave %d at (%g,%g) sigma %g value %g orientation %g is not reported", q.octave, q.x, q.y, q.sigma, q.val, q.ori); }
    // other storage, earlier use of the detector, other buffers
    Img m2 = make(r, p); Feat g = compute(c, d, m2.i); REQ(c, same(f, g), "second extraction with the same detector and another row stride differs (%zu and %zu features)", f.k.size(), g.k.size()); Px o = scene(r, r.i(1, 50), r.i(1, 50), r.coin()); Img mo = make(r, o); compute(c, d, mo.i); g = compute(c, d, m2.i); REQ(c, same(f, g), "extraction after another image differs (%zu and %zu features)", f.k.size(), g.k.size()); auto *d2 = nx_sift_detector_new(P); g = compute(c, d2, m2.i); REQ(c, same(f, g), "extraction with a new detector differs"); nx_sift_detector_free(d); nx_sift_detector_free(d2); destroy(m); destroy(m2); destroy(mo); c.ev("sift_repeats", 3);
}
static void rmdir_all(const std::string &d) { if (DIR *q = opendir(d.c_str())) { while (auto *e = readdir(q)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(q); rmdir(d.c_str()); } }
static int files(const std::string &d) { int n = 0; if (DIR *q = opendir(d.c_str())) { while (auto *e = readdir(q)) if (e->d_name[0] != '.') ++n; closedir(q); } return n; }
// a small family of images and parameters that differ in one respect each
static void cache(Ctx &c) {
    auto &r = c.rng; std::string dir = scratch() + "/cache"; rmdir_all(dir); auto P0 = params(r); P0.double_image = NX_FALSE; int a = r.i(16, 32), b = r.i(16, 32); Px base = scene(r, a, b, r.coin()); struct V { Px p; NXSIFTDetectorParams P; }; std::vector<V> vs{{base, P0}}; c.desc("%dx%d", a, b); mixpx(c, base);
    { Px t(b, a, 1, base.f32); t.v = base.v; if (a != b) vs.push_back({t, P0}); } // same bytes, other geometry
    { Px t = base; int q = r.i(0, (int)t.v.size() - 1); t.v[q] = base.f32 ? (t.v[q] > 0.5f ? t.v[q] - 0.25f : t.v[q] + 0.25f) : (float)(((int)t.v[q] + 90) % 256); vs.push_back({t, P0}); }
    if (base.f32) { Px t(a * 4, b, 1, false); for (int i = 0; i < a * b; ++i) for (int j = 0; j < 4; ++j) t.v[i * 4 + j] = ((unsigned char *)&base.v[i])[j]; vs.push_back({t, P0}); } // same bytes, other type
    for (int i = 0; i < 8; ++i) { V v{base, P0}; switch (i) { case 0: v.P.double_image = NX_TRUE; break; case 1: v.P.n_scales_per_octave += 1; break; case 2: v.P.sigma0 += 0.2f; break; case 3: v.P.kernel_truncation_factor += 0.7f; break; case 4: v.P.border_distance += 1; break; case 5: v.P.peak_threshold *= 0.6f; break; case 6: v.P.edge_threshold *= 0.7f; break; default: v.P.magnification_factor += 1; } vs.push_back(v); }
    std::vector<Feat> plain(vs.size()); for (size_t i = 0; i < vs.size(); ++i) { Img m = make(r, vs[i].p); auto *d = nx_sift_detector_new(vs[i].P); plain[i] = compute(c, d, m.i); if (!plain[i].k.empty()) c.nt(); nx_sift_detector_free(d); destroy(m); }
    int ops = r.i(10, 30), hits = 0; std::set<size_t> seen; for (int o = 0; o < ops; ++o) { size_t i = r.next() % vs.size(); Img m = make(r, vs[i].p); auto *d = nx_sift_detector_new(vs[i].P); Feat f = compute(c, d, m.i, dir.c_str()); hits += seen.count(i); REQ(c, same(f, plain[i]), "result with the cache (%s, variant %zu) differs from the computed one: %zu and %zu features", seen.count(i) ? "stored" : "new", i, f.k.size(), plain[i].k.size()); seen.insert(i); nx_sift_detector_free(d); destroy(m); REQ(c, files(dir) == (int)seen.size(), "%d cache files for %zu different extractions", files(dir), seen.size()); } c.ev("sift_cache_hits", hits); c.ev("sift_cache_misses", seen.size()); rmdir_all(dir);
}
static Feat random_feat(Rng &r, int n, int spread) { Feat f; f.k.resize(n); f.d.resize((size_t)n * DD); uchar base[DD]; for (auto &x : base) x = (uchar)r.i(0, 255); bool extreme = r.coin(1, 10); for (int i = 0; i < n; ++i) { auto &k = f.k[i]; memset((void *)&k, 0, sizeof k); k.x = r.i(0, 500); k.y = r.i(0, 500); k.xs = k.x + (float)r.uni(-.5, .5); k.ys = k.y + (float)r.uni(-.5, .5); k.level = r.i(-1, 4); k.scale = (float)std::pow(2.0, k.level); k.sigma = (float)r.uni(1, 4); k.score = (float)r.uni(-1, 1); k.ori = (float)r.uni(-3, 3); k.id = r.coin(1, 4) ? r.next() : (uint64_t)i; for (int j = 0; j < DD; ++j) f.d[(size_t)i * DD + j] = extreme ? (r.coin() ? 255 : 0) : spread < 0 ? (uchar)r.i(0, 255) : r.coin(1, 20) ? (uchar)std::min(255, std::max(0, base[j] + r.i(-spread, spread))) : base[j]; if (i && r.coin(1, 8)) memcpy(&f.d[(size_t)i * DD], &f.d[(size_t)r.i(0, i - 1) * DD], DD); } return f; }
static bool peq(const NXPointMatch2D &a, const NXPointMatch2D &b) { return a.x[0] == b.x[0] && a.x[1] == b.x[1] && a.xp[0] == b.xp[0] && a.xp[1] == b.xp[1] && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp && a.is_inlier == b.is_inlier; }
static void match_check(Ctx &c, const Feat &A, const Feat &B, float thr, const NXPointMatch2D *m, int n, const char *what) {
    int at = 0; for (size_t i = 0; i < A.k.size(); ++i) { long d1 = LONG_MAX, d2 = LONG_MAX; int arg = -1; for (size_t j = 0; j < B.k.size(); ++j) { long d = 0; for (int q = 0; q < DD; ++q) { long e = (long)A.d[i * DD + q] - B.d[j * DD + q]; d += e * e; } if (d < d1) { d2 = d1; d1 = d; arg = (int)j; } else if (d < d2) d2 = d; } if (arg < 0) continue; bool ratio = thr > 0 && thr < 1; bool keep = true, open = false; if (ratio) { double lim = d2 == LONG_MAX ? 1e300 : (double)thr * thr * d2; keep = d1 < lim; if (d2 != LONG_MAX) open = std::fabs(d1 - lim) < 1e-5 * (lim + 1e-9) && d1 != 0; if (d1 == 0 && lim == 0) { keep = false; open = false; } }
        bool have = at < n && m[at].id == A.k[i].id && m[at].x[0] == A.k[i].xs * A.k[i].scale && m[at].x[1] == A.k[i].ys * A.k[i].scale; if (open) { if (!have) { c.ev("match_open"); continue; } } else if (!keep) { REQ(c, !have || (at < n && i + 1 < A.k.size()), "%s: feature %zu with distances %ld and %ld matched at ratio %g", what, i, d1, d2, thr); if (have) { bool later = false; for (size_t z = i + 1; z < A.k.size(); ++z) if (A.k[z].id == A.k[i].id) later = true; REQ(c, later, "%s: feature %zu with distances %ld and %ld matched at ratio %g", what, i, d1, d2, thr); } continue; } REQ(c, have, "%s: feature %zu with nearest distance %ld (second %ld) is not matched at ratio %g", what, i, d1, d2, thr);
        auto &b = B.k[arg]; REQ(c, m[at].match_cost == (float)d1, "%s: match %d cost %g, nearest squared distance is %ld", what, at, m[at].match_cost, d1); REQ(c, m[at].idp == b.id && m[at].xp[0] == b.xs * b.scale && m[at].xp[1] == b.ys * b.scale, "%s: match %d goes to (%g,%g) id %llu, first nearest is feature %d", what, at, m[at].xp[0], m[at].xp[1], (unsigned long long)m[at].idp, arg); REQ(c, near(m[at].sigma_x, 0.3 * A.k[i].scale, 0, 1e-6) && near(m[at].sigma_xp, 0.3 * b.scale, 0, 1e-6) && !m[at].is_inlier, "%s: match %d deviations %g %g", what, at, m[at].sigma_x, m[at].sigma_xp); ++at; }
    REQ(c, at == n, "%s: %d matches reported, %d by definition", what, n, at); c.ev("matches", n);
}
static std::vector<NXPointMatch2D> room(Rng &r, int n) { std::vector<NXPointMatch2D> m((size_t)std::max(1, n)); memset((void *)m.data(), r.i(0, 255), m.size() * sizeof m[0]); return m; }
static float ratio_of(Rng &r) { switch (r.i(0, 5)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (float)r.uni(1, 3); default: return (float)r.uni(0.05, 0.999); } }
static void matching(Ctx &c) { auto &r = c.rng; int n = r.size(60, 700), np = r.size(60, 700), sp = r.coin() ? -1 : r.i(1, 60); if (r.coin(1, 10)) np = r.i(0, 2); if (r.coin(1, 80)) { np = r.logsize(500, 5000); n = std::min(n, 25); } else if (r.coin(1, 80)) { n = r.logsize(500, 5000); np = std::min(np, 25); } Feat A = random_feat(r, n, sp), B = random_feat(r, np, sp); if (np && n) for (int i = 0; i < n; ++i) if (r.coin(1, 3)) { memcpy(&A.d[(size_t)i * DD], &B.d[(size_t)r.i(0, np - 1) * DD], DD); for (int j = r.i(0, 40); j > 0; --j) A.d[(size_t)i * DD + r.i(0, DD - 1)] = (uchar)r.i(0, 255); } for (auto &k : A.k) k.id = &k - A.k.data(); float t = ratio_of(r); c.desc("%d against %d ratio %g", n, np, t); c.mixb(A.d.data(), A.d.size()); c.mixb(B.d.data(), B.d.size()); if (n && np) c.nt(); auto m = room(r, n); A.d.reserve(1); B.d.reserve(1); int q = nx_sift_match_brute_force(n, A.k.data(), A.d.data(), np, B.k.data(), B.d.data(), m.data(), t); match_check(c, A, B, t, m.data(), q, "matching"); }
static void match_cache(Ctx &c) {
    auto &r = c.rng; std::string dir = scratch() + "/mcache"; rmdir_all(dir); int n = r.i(2, 20); Feat A = random_feat(r, n, -1), B = random_feat(r, r.i(1, 20), -1); for (size_t i = 0; i < A.k.size() && i < B.k.size(); ++i) { memcpy(&A.d[i * DD], &B.d[i * DD], DD); A.d[i * DD + 5] ^= (uchar)r.i(0, 255); } struct V { Feat a, b; float t; }; float t0 = (float)r.uni(0.3, 0.8); std::vector<V> vs{{A, B, t0}}; c.desc("%d against %zu", n, B.k.size()); c.mixb(A.d.data(), A.d.size()); c.nt();
    vs.push_back({A, B, 0.95f}); vs.push_back({A, B, 0}); vs.push_back({B, A, t0}); { Feat a = A; a.k[r.i(0, n - 1)].xs += 1; vs.push_back({a, B, t0}); } { Feat a = A; a.d[r.i(0, n * DD - 1)] ^= 64; vs.push_back({a, B, t0}); } { Feat b = B; b.k[r.i(0, (int)b.k.size() - 1)].ys += 2; vs.push_back({A, b, t0}); } { Feat b = B; b.d[r.i(0, (int)b.d.size() - 1)] ^= 64; vs.push_back({A, b, t0}); } { Feat a = A; a.k.pop_back(); a.d.resize(a.k.size() * DD); vs.push_back({a, B, t0}); }
    if (B.k.size() > 1) { Feat b = B; b.k.pop_back(); b.d.resize(b.k.size() * DD); vs.push_back({A, b, t0}); }
    std::set<size_t> seen; int ops = r.i(8, 30), hits = 0; for (int o = 0; o < ops; ++o) { size_t i = r.next() % vs.size(); auto &v = vs[i]; auto m = room(r, (int)v.a.k.size()), p = room(r, (int)v.a.k.size()); int q = nx_sift_match_brute_force_with_cache((int)v.a.k.size(), v.a.k.data(), v.a.d.data(), (int)v.b.k.size(), v.b.k.data(), v.b.d.data(), m.data(), v.t, dir.c_str()); int w = nx_sift_match_brute_force((int)v.a.k.size(), v.a.k.data(), v.a.d.data(), (int)v.b.k.size(), v.b.k.data(), v.b.d.data(), p.data(), v.t); REQ(c, q == w, "%d matches with the cache, %d computed (variant %zu, %s)", q, w, i, seen.count(i) ? "stored" : "new"); for (int z = 0; z < q; ++z) REQ(c, peq(m[z], p[z]), "match %d with the cache differs from the computed one (variant %zu)", z, i); hits += seen.count(i); seen.insert(i); REQ(c, files(dir) == (int)seen.size(), "%d cache files for %zu different requests", files(dir), seen.size()); } c.ev("match_cache_hits", hits); rmdir_all(dir);
}
static void saveload(Ctx &c) { auto &r = c.rng; int n = r.size(80, 1500); Feat A = random_feat(r, n, -1); std::string f = scratch() + "/feat.sift"; c.desc("%d features", n); c.mixb(A.d.data(), A.d.size()); if (n) c.nt(); A.k.reserve(1); A.d.reserve(1); nx_sift_xsave(f.c_str(), n, A.k.data(), A.d.data()); for (int i = 0; i < 2; ++i) { Buf b; b.init(r); int cap0 = b.cap; int q = nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); REQ(c, q == n && b.cap == std::max(cap0, n), "%d of %d features loaded, room %d (before %d)", q, n, b.cap, cap0); Feat g = take(c, b, q); REQ(c, same(A, g), "loaded features differ"); } c.ev("features_reloaded", n); unlink(f.c_str()); }

// ---- BRIEF
static bool open_pos(double v) { return std::fabs(v - std::round(v)) < 1e-3 && v != std::floor(v); }
static void sampler(Ctx &c, const NXBriefExtractor *be) { int lim[4] = {INT_MAX, INT_MIN, INT_MAX, INT_MIN}; for (int i = 0; i < be->n_octets * 8; ++i) { const int *o = be->offsets + 4 * i; for (int j = 0; j < 4; ++j) REQ(c, o[j] >= -be->radius && o[j] <= be->radius, "offset %d of radius %d", o[j], be->radius); int dx = o[0] - o[2], dy = o[1] - o[3]; REQ(c, dx * dx + dy * dy >= 9, "test pair %d only (%d,%d) apart", i, dx, dy); lim[0] = std::min({lim[0], o[0], o[2]}); lim[1] = std::max({lim[1], o[0], o[2]}); lim[2] = std::min({lim[2], o[1], o[3]}); lim[3] = std::max({lim[3], o[1], o[3]}); } for (int j = 0; j < 4; ++j) REQ(c, lim[j] == be->offset_limits[j], "offset limit %d is %d, extreme offset %d", j, be->offset_limits[j], lim[j]); c.ev("brief_pairs", be->n_octets * 8); }
static bool beq(const NXBriefExtractor *a, const NXBriefExtractor *b) { return a->radius == b->radius && a->n_octets == b->n_octets && a->pyr_level_offset == b->pyr_level_offset && !memcmp(a->offsets, b->offsets, sizeof(int) * 32 * a->n_octets) && !memcmp(a->offset_limits, b->offset_limits, sizeof a->offset_limits); }
static NXImagePyr *pyramid(Rng &r, const NXImage *i) { NXImagePyrBuilder *b; switch (r.i(0, 2)) { case 0: b = nx_image_pyr_builder_new_fast(r.i(3, 4), 0.5f); break; case 1: b = nx_image_pyr_builder_new_fine(r.i(1, 2), r.i(2, 3), 0.8f); break; default: b = nx_image_pyr_builder_new_scaled(r.i(3, 5), (float)r.uni(0.6, 0.9), 0.6f); } auto *p = nx_image_pyr_builder_build0(b, i); nx_image_pyr_builder_free(b); return p; }
// descriptor by definition; -1: leaves the level, 2: undecided bits are masked out
static int brief_ref(const NXBriefExtractor *be, const NXImagePyr *py, int x, int y, int level, bool rot, float theta, std::vector<uchar> &d, std::vector<uchar> &mask) { const NXImage *im = py->levels[level + be->pyr_level_offset].img; double sf = (double)py->levels[level].scale / py->levels[level + be->pyr_level_offset].scale, ct = std::cos(theta), st = std::sin(theta); d.assign(be->n_octets, 0); mask.assign(be->n_octets, 0); bool out = false, amb = false; for (int i = 0; i < be->n_octets * 8; ++i) { const int *o = be->offsets + 4 * i; int v[2]; bool op = false; for (int e = 0; e < 2; ++e) { double ox = o[2 * e], oy = o[2 * e + 1], sx = (rot ? x + ct * ox + st * oy : x + ox) * sf, sy = (rot ? y - st * ox + ct * oy : y + oy) * sf; auto near_int = [](double q) { return std::fabs(q - std::round(q)) < 1e-3; }; bool exact = !rot && std::fmod(sf * 1024, 1.0) == 0; if (!exact && (near_int(sx) || near_int(sy))) op = true; int ix = (int)sx, iy = (int)sy; if (ix < 0 || iy < 0 || ix >= im->width || iy >= im->height) { if (op) amb = true; else out = true; v[e] = 0; } else { v[e] = im->data.uc[(size_t)iy * im->row_stride + ix]; if (op && (sx < 1.5 || sy < 1.5 || sx > im->width - 1.5 || sy > im->height - 1.5)) amb = true; } } if (v[0] > v[1]) d[i / 8] |= (uchar)(128 >> (i % 8)); if (!op) mask[i / 8] |= (uchar)(128 >> (i % 8)); } return amb ? 2 : out ? -1 : 0; }
static void brief(Ctx &c) {
    auto &r = c.rng; int no = r.i(1, 40), rad = r.i(4, 26); uint32_t seed = (uint32_t)r.next(); auto *be = r.coin() ? nx_brief_extractor_new_with_seed(no, rad, seed) : nx_brief_extractor_new(r.i(1, 50), r.i(4, 30)); if (be->n_octets != no || be->radius != rad) { sampler(c, be); nx_brief_extractor_resize(be, no, rad); sampler(c, be); } nx_brief_extractor_randomize_with_seed(be, seed); REQ(c, be->n_octets == no && be->radius == rad, "sampler reports %d octets radius %d, requested %d %d", be->n_octets, be->radius, no, rad); sampler(c, be); auto *b2 = nx_brief_extractor_new_with_seed(no, rad, seed); REQ(c, beq(be, b2), "two samplers with seed %u differ", seed); be->pyr_level_offset = r.i(0, 2);
    std::string f = scratch() + "/brief.bin"; FILE *fo = fopen(f.c_str(), "wb"); bool x = r.coin(); if (x) nx_brief_extractor_xwrite(be, fo); else REQ(c, nx_brief_extractor_write(be, fo) == NX_OK, "write failed"); fclose(fo); auto *b3 = r.coin() ? nx_brief_extractor_alloc() : nx_brief_extractor_new(r.i(1, 50), r.i(4, 30)); FILE *fi = fopen(f.c_str(), "rb"); if (x) nx_brief_extractor_xread(b3, fi); else REQ(c, nx_brief_extractor_read(b3, fi) == NX_OK, "read failed"); fclose(fi); unlink(f.c_str()); REQ(c, beq(be, b3), "loaded sampler differs (octets %d radius %d level offset %d)", b3->n_octets, b3->radius, b3->pyr_level_offset); c.ev("samplers_reloaded");
    Px p = random_px(r, r.i(30, 110), r.i(30, 110), 1, false); Img m = make(r, p); auto *py = pyramid(r, m.i); c.desc("%dx%d octets %d radius %d seed %u offset %d levels %d", p.w, p.h, no, rad, seed, be->pyr_level_offset, py->n_levels); mixpx(c, p); c.mix(seed); std::vector<uchar> d, mask, got(no), rd(no);
    for (int t = 0; t < 25; ++t) { int lv = r.i(0, py->n_levels - 1); auto *im = py->levels[lv].img; int X = r.i(-3, im->width + 3), Y = r.i(-3, im->height + 3); bool ok = nx_brief_extractor_check_point_pyr(be, py, X, Y, lv); REQ(c, ok == (bool)nx_brief_extractor_check_point_pyr(b3, py, X, Y, lv), "loaded sampler judges point (%d,%d) differently", X, Y); if (lv + be->pyr_level_offset >= py->n_levels) { REQ(c, !ok, "point on level %d without a sampling level accepted", lv); continue; }
        int want = brief_ref(be, py, X, Y, lv, false, 0, d, mask); const NXImage *sm = py->levels[lv + be->pyr_level_offset].img; double sf = (double)py->levels[lv].scale / py->levels[lv + be->pyr_level_offset].scale; auto e = [&](int q, int l) { return (q + be->offset_limits[l]) * sf; }; double l0 = e(X, 0), l1 = e(X, 1), l2 = e(Y, 2), l3 = e(Y, 3); bool op = open_pos(l0) || open_pos(l1) || open_pos(l2) || open_pos(l3) || std::fabs(l1 - sm->width) < 1e-3 || std::fabs(l3 - sm->height) < 1e-3; if (!op) REQ(c, ok == (l0 > -1 && l1 < sm->width && l2 > -1 && l3 < sm->height), "point (%d,%d) on level %d: sampling extent [%g,%g]x[%g,%g] of %dx%d %s", X, Y, lv, l0, l1, l2, l3, sm->width, sm->height, ok ? "accepted" : "refused");
        if (ok) { memset(got.data(), r.i(0, 255), no); nx_brief_extractor_compute_pyr(be, py, X, Y, lv, got.data()); nx_brief_extractor_compute_pyr(b3, py, X, Y, lv, rd.data()); REQ(c, got == rd, "the loaded sampler gives another descriptor"); if (want == 0) for (int i = 0; i < no; ++i) REQ(c, (got[i] & mask[i]) == (d[i] & mask[i]), "descriptor octet %d at (%d,%d) level %d is %02x expected %02x", i, X, Y, lv, got[i], d[i]); c.ev("brief_descriptors"); c.nt(); }
        float th = (float)r.uni(-4, 4); if (r.coin(1, 5)) th = 0; want = brief_ref(be, py, X, Y, lv, true, th, d, mask); memset(got.data(), r.i(0, 255), no); bool rt = nx_brief_extractor_compute_pyr_at_theta(be, py, X, Y, lv, th, got.data()); if (want != 2) REQ(c, rt == (want == 0), "rotated descriptor at (%d,%d) level %d angle %g: %s", X, Y, lv, th, rt ? "computed although it leaves the image" : "refused although it fits"); if (rt && want == 0) { for (int i = 0; i < no; ++i) REQ(c, (got[i] & mask[i]) == (d[i] & mask[i]), "rotated descriptor octet %d at (%d,%d) level %d angle %g is %02x expected %02x", i, X, Y, lv, th, got[i], d[i]); c.ev("brief_rotated"); } }
    nx_image_pyr_free(py); nx_brief_extractor_free(be); nx_brief_extractor_free(b2); nx_brief_extractor_free(b3); destroy(m);
}
static void vgbrief(Ctx &c) { // C++ extractor filling a map
    auto &r = c.rng; int no = r.coin() ? 32 : r.i(1, 40), rad = r.pick(std::vector<int>{16, 24, 5, 9, 20}); VGBriefExtractor e = r.coin() ? VGBriefExtractor(no, rad) : VGBriefExtractor(r.i(1, 20), 8).resize(no, rad); uint32_t seed = rad == 16 ? NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16 : NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24; if (r.coin()) { seed = (uint32_t)r.next(); e.randomize_with_seed(seed); } auto *be = nx_brief_extractor_new_with_seed(no, rad, seed); Px p = random_px(r, r.i(40, 120), r.i(40, 120), 1, false); Img m = make(r, p); VGImage v(m.i, false); VGImagePyr py = VGImagePyr::build_fast_from(v, 3, 0.5f); int n = r.size(30); c.desc("octets %d radius %d %d keypoints %dx%d", no, rad, n, p.w, p.h); mixpx(c, p); std::vector<NXKeypoint> ks(n); VGDescriptorMap map(no); std::vector<std::pair<uint64_t, std::vector<uchar>>> model; std::vector<uchar> d(no), d2(no); if (r.coin()) { for (auto &q : d) q = (uchar)r.next(); map.add(77, d.data()); model.push_back({77, d}); }
    for (auto &k : ks) { memset((void *)&k, 0, sizeof k); k.level = r.i(0, 2); k.x = r.i(0, p.w >> k.level); k.y = r.i(0, p.h >> k.level); k.id = r.coin(1, 5) ? r.next() : r.next() % 8; bool ok = nx_brief_extractor_check_point_pyr(be, py.nx_pyr(), k.x, k.y, k.level); REQ(c, ok == e.check_keypoint_pyr(py, k), "C++ and C extractor judge point (%d,%d) level %d differently", k.x, k.y, k.level); if (ok) { nx_brief_extractor_compute_pyr(be, py.nx_pyr(), k.x, k.y, k.level, d.data()); e.compute_pyr(py, k, d2.data()); REQ(c, d == d2, "C++ and C descriptors differ"); model.push_back({k.id, d}); c.nt(); } }
    e.compute_pyr(py, n, ks.data(), map); REQ(c, map.size() == (int)model.size(), "map holds %d descriptors, expected %zu", map.size(), model.size()); for (size_t i = 0; i < model.size(); ++i) REQ(c, map.get_id((int)i) == model[i].first && !memcmp(map.get_descriptor((int)i), model[i].second.data(), no), "map entry %zu differs", i); c.ev("map_entries", model.size()); nx_brief_extractor_free(be); destroy(m);
}
static void dmap(Ctx &c) {
    auto &r = c.rng; int no = r.i(1, 40); VGDescriptorMap map(no); std::vector<std::pair<uint64_t, std::vector<uchar>>> model; int ops = r.coin(1, 100) ? r.logsize(100, 3000) : r.i(2, 60); c.desc("octets %d ops %d", no, ops); bool close = r.coin();
    if (r.coin(1, 60)) { int n = r.logsize(100, 4000); ops = r.i(2, 8); c.ev("large_maps"); for (int i = 0; i < n; ++i) { std::vector<uchar> d(no); for (auto &q : d) q = (uchar)r.next(); map.add((uint64_t)i * 3 + 1, d.data()); model.push_back({(uint64_t)i * 3 + 1, d}); } for (int k = 0; k < 6; ++k) { auto &e = model[r.coin() ? n - 1 - r.i(0, std::min(n - 1, 5)) : r.i(0, n - 1)]; const uchar *q = map.search_by_id(e.first); REQ(c, q && !memcmp(q, e.second.data(), no), "search by id %llu among %d", (unsigned long long)e.first, n); auto s = map.search_nn(e.second.data()); REQ(c, s.match_cost == 0.f, "nearest neighbour of a stored descriptor among %d has cost %g", n, s.match_cost); } }
    for (int o = 0; o < ops; ++o) { std::vector<uchar> d(no); for (auto &q : d) q = close ? (uchar)(1 << r.i(0, 7)) : (uchar)r.next(); if (!model.empty() && r.coin(1, 4)) d = r.pick(model).second; switch (r.i(0, 11)) { case 0: if (r.coin(1, 5)) { map.clear(); model.clear(); } break; case 1: map.reserve(r.i(0, 100)); break; case 2: if (r.coin(1, 8)) { no = r.i(1, 40); map.set_n_octets(no); model.clear(); } break; case 3: case 4: case 5: case 6: { uint64_t id = r.coin(1, 4) ? r.next() : r.next() % 20; REQ(c, map.add(id, d.data()) == (int)model.size() + 1, "size after adding"); model.push_back({id, d}); c.mixb(d.data(), d.size()); break; }
        case 7: case 8: { if (model.empty()) break; int best = INT_MAX; uint64_t id = 0; for (auto &e : model) { int q = 0; for (int i = 0; i < no; ++i) q += __builtin_popcount(e.second[i] ^ d[i]); if (q < best) { best = q; id = e.first; } REQ(c, VGBriefExtractor::distance_of(no, d.data(), e.second.data()) == q, "descriptor distance %d expected %d", VGBriefExtractor::distance_of(no, d.data(), e.second.data()), q); } auto s = map.search_nn(d.data()); REQ(c, s.id == id && s.match_cost == (float)best, "nearest neighbour id %llu cost %g, exhaustive search %llu %d", (unsigned long long)s.id, s.match_cost, (unsigned long long)id, best); c.ev("nn_searches"); c.nt(); break; }
        default: { uint64_t id = model.empty() || r.coin() ? r.next() % 20 : r.pick(model).first; const uchar *q = map.search_by_id(id); const std::vector<uchar> *w = nullptr; for (auto &e : model) if (e.first == id) { w = &e.second; break; } REQ(c, (q != nullptr) == (w != nullptr) && (!q || !memcmp(q, w->data(), no)), "search by id %llu", (unsigned long long)id); c.ev("id_searches"); } }
        REQ(c, map.size() == (int)model.size() && map.n_octets() == no, "map of %d entries and %d octets, expected %zu %d", map.size(), map.n_octets(), model.size(), no); for (size_t i = 0; i < model.size(); ++i) REQ(c, map.get_id((int)i) == model[i].first && !memcmp(map.get_descriptor((int)i), model[i].second.data(), no) && !memcmp(static_cast<const VGDescriptorMap &>(map).get_descriptor((int)i), model[i].second.data(), no), "map entry %zu changed", i); }
}
static void sift_options(Ctx &c) { auto &r = c.rng; NXSIFTDetectorParams d = nx_sift_default_parameters(), e = d; e.double_image = NX_FALSE; std::vector<std::string> a = {"prog"}; int n = 0; auto put = [&](const char *o, const std::string &v) { a.push_back(o); if (!v.empty()) a.push_back(v); ++n; }; int ord[8] = {0, 1, 2, 3, 4, 5, 6, 7}; for (int i = 7; i > 0; --i) std::swap(ord[i], ord[r.i(0, i)]); for (int k : ord) { if (r.coin()) continue; int iv = r.i(1, 60); double dv = r.uni(0.01, 20); std::string ds = fmt("%.17g", dv), is = std::to_string(iv); switch (k) { case 0: e.double_image = NX_TRUE; put("--sift-double-image", ""); break; case 1: e.n_scales_per_octave = iv; put("--sift-n-scales-per-octave", is); break; case 2: e.sigma0 = (float)dv; put("--sift-sigma0", ds); break; case 3: e.kernel_truncation_factor = (float)dv; put("--sift-kernel-truncation-factor", ds); break; case 4: e.border_distance = iv; put("--sift-border-distance", is); break; case 5: e.peak_threshold = (float)dv; put("--sift-peak-threshold", ds); break; case 6: e.edge_threshold = (float)dv; put("--sift-edge-threshold", ds); break; default: e.magnification_factor = iv; put("--sift-magnification-factor", is); } }
    if (n > 1) c.nt(); for (auto &x : a) { c.mixb(x.data(), x.size()); c.desc("%s ", x.c_str()); } NXOptions *o = nx_options_alloc(); nx_sift_parameters_add_to_options(o); std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr); nx_options_set_from_args(o, (int)a.size(), v.data()); NXSIFTDetectorParams g = nx_sift_parameters_from_options(o); nx_options_free(o);
    REQ(c, !g.double_image == !e.double_image && g.n_scales_per_octave == e.n_scales_per_octave && g.sigma0 == e.sigma0 && g.kernel_truncation_factor == e.kernel_truncation_factor && g.border_distance == e.border_distance && g.peak_threshold == e.peak_threshold && g.edge_threshold == e.edge_threshold && g.magnification_factor == e.magnification_factor, "parameters from options: double %d/%d scales %d/%d sigma %g/%g truncation %g/%g border %d/%d peak %g/%g edge %g/%g magnification %d/%d", g.double_image, e.double_image, g.n_scales_per_octave, e.n_scales_per_octave, g.sigma0, e.sigma0, g.kernel_truncation_factor, e.kernel_truncation_factor, g.border_distance, e.border_distance, g.peak_threshold, e.peak_threshold, g.edge_threshold, e.edge_threshold, g.magnification_factor, e.magnification_factor); c.ev("option_sets"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"sift", sift, 700, 14000}, {"cache", cache, 60, 1500}, {"matching", matching, 3000, 60000}, {"match_cache", match_cache, 400, 8000}, {"saveload", saveload, 1000, 20000}, {"brief", brief, 1500, 30000}, {"vgbrief", vgbrief, 800, 16000}, {"dmap", dmap, 4000, 80000}, {"sift_options", sift_options, 2000, 20000}}); }
