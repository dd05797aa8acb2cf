// Corner detectors against literal implementations of their definitions.
#include "img.hpp"
#include "ref_filter.hpp"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_checkerboard_detector.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/vg_harris_detector.hpp"
using namespace vh; using namespace vi; using namespace virg::nexus; using rf::VD;
static const int CX[16] = {0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1}, CY[16] = {3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3};
static bool corner(const Px &p, int x, int y, int t) { int c = (int)p.at(x, y); for (int sign = 0; sign < 2; ++sign) { int run = 0; for (int i = 0; i < 16 + 8; ++i) { int v = (int)p.at(x + CX[i % 16], y + CY[i % 16]); bool in = sign ? v < c - t : v > c + t; run = in ? run + 1 : 0; if (run >= 9) return true; } } return false; }
static int score(const Px &p, int x, int y, int t) { while (t < 255 && corner(p, x, y, t + 1)) ++t; return t; }
struct K { int x, y, s; };
static std::vector<K> all(const Px &p, int t, size_t cap) { std::vector<K> v; for (int y = 3; y < p.h - 3; ++y) for (int x = 3; x < p.w - 3; ++x) if (corner(p, x, y, t)) { if (v.size() == cap) return v; v.push_back({x, y, score(p, x, y, t)}); } return v; }
static std::vector<K> maxima(const std::vector<K> &v, size_t cap) { std::map<std::pair<int, int>, int> m; for (auto &k : v) m[{k.x, k.y}] = k.s; std::vector<K> o; for (auto &k : v) { bool ok = true; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (dx || dy) { auto f = m.find({k.x + dx, k.y + dy}); if (f != m.end() && f->second >= k.s) ok = false; } if (ok) { if (o.size() == cap) break; o.push_back(k); } } return o; }
static Px picture(Rng &r, int w, int h) { Px p(w, h, 1, false); int style = r.i(0, 6); if (style == 0) { // sparse blocks: many corners with ties
        int a = r.i(0, 255), b = r.i(0, 255), s = r.i(2, 9); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.at(x, y) = (float)(((x / s) + (y / s)) % 2 ? a : b); }
    else if (style == 1) { for (auto &v : p.v) v = 40; int n = r.i(1, 12); for (int i = 0; i < n; ++i) { int x0 = r.i(0, w - 1), y0 = r.i(0, h - 1), x1 = std::min(w, x0 + r.i(1, 9)), y1 = std::min(h, y0 + r.i(1, 9)), g = r.i(0, 255); for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) p.at(x, y) = (float)g; } }
    else if (style == 2) { int lo = r.i(0, 200), hi = lo + r.i(1, 55); for (auto &v : p.v) v = (float)r.i(lo, hi); } else if (style == 3) { for (auto &v : p.v) v = r.coin(1, 10) ? 255.f : 0.f; } else p = random_px(r, w, h, 1, false); return p; }
static int thr(Rng &r) { return r.coin(1, 6) ? r.i(0, 3) : r.coin(1, 6) ? r.i(200, 254) : r.i(4, 80); }
static void cmp(Ctx &c, const std::vector<K> &e, const NXKeypoint *k, int n, int level, float scale, float sigma, bool sc, int id0, const char *what) { REQ(c, n == (int)e.size(), "%s reports %d keypoints, definition selects %zu", what, n, e.size()); for (int i = 0; i < n; ++i) { REQ(c, k[i].x == e[i].x && k[i].y == e[i].y, "%s: keypoint %d at (%d,%d), expected (%d,%d)", what, i, k[i].x, k[i].y, e[i].x, e[i].y); REQ(c, k[i].xs == (float)e[i].x && k[i].ys == (float)e[i].y, "%s: keypoint %d subpixel position (%g,%g)", what, i, k[i].xs, k[i].ys); if (sc) REQ(c, k[i].score == (float)e[i].s, "%s: keypoint (%d,%d) has score %g, expected %d", what, e[i].x, e[i].y, k[i].score, e[i].s); REQ(c, k[i].level == level && k[i].scale == scale && k[i].sigma == sigma, "%s: keypoint %d level %d scale %g sigma %g expected %d %g %g", what, i, k[i].level, k[i].scale, k[i].sigma, level, scale, sigma); REQ(c, (long long)k[i].id == id0 + i, "%s: keypoint %d has id %lld", what, i, (long long)k[i].id); } c.ev("fast_keypoints", n); }
static void scramble(Rng &r, std::vector<NXKeypoint> &k) { for (auto &q : k) for (size_t i = 0; i < sizeof q; ++i) ((unsigned char *)&q)[i] = (unsigned char)r.next(); }
static float ori_ref(const Px &p, int x, int y, int rad, bool &in) { in = x >= rad && x < p.w - rad && y >= rad && y < p.h - rad; if (!in) return 0; long m10 = 0, m01 = 0; for (int dy = -rad; dy < rad; ++dy) for (int dx = -rad; dx < rad; ++dx) if (dx * dx + dy * dy < rad * rad) { m10 += dx * (long)p.at(x + dx, y + dy); m01 += dy * (long)p.at(x + dx, y + dy); } return (float)std::atan2((double)m01, (double)m10); }
static void fast(Ctx &c) {
    auto &r = c.rng; auto side = [&] { return r.coin(1, 40) ? r.logsize(48, 400) : r.coin(1, 8) ? r.i(1, 8) : r.i(7, 48); }; int pw = side(), ph = side(); Px p = picture(r, pw, ph); int t = thr(r); Img m = make(r, p); std::string before = raw(m.i); size_t cap = r.coin(1, 4) ? (size_t)r.i(1, 12) : 3000; c.desc("%dx%d threshold %d cap %zu", p.w, p.h, t, cap); mixpx(c, p); c.mix(t); auto e = all(p, t, cap); if (!e.empty()) c.nt(); std::vector<NXKeypoint> k(cap), s(cap); scramble(r, k); scramble(r, s);
    int n = nx_fast_detect_keypoints((int)cap, k.data(), m.i, t); std::vector<K> e0 = e; for (auto &q : e0) q.s = 0; cmp(c, e0, k.data(), n, 0, 1, 0, true, 0, "detection"); nx_fast_score_keypoints(n, k.data(), m.i, t); cmp(c, e, k.data(), n, 0, 1, 0, true, 0, "scoring"); size_t scap = r.coin(1, 3) ? (size_t)r.i(1, 6) : cap; auto ex = maxima(e, scap); int ns = nx_fast_suppress_keypoints((int)scap, s.data(), n, k.data()); cmp(c, ex, s.data(), ns, 0, 1, 0, true, 0, "suppression");
    NXFastDetector *d = nx_fast_detector_alloc(); for (int rep = 0; rep < 2; ++rep) { d->threshold = t; int mx = rep ? r.i(1, 30) : 300; std::vector<NXKeypoint> o((size_t)mx); scramble(r, o); bool ori = r.coin(); int rad = r.i(1, 8); nx_fast_detector_set_ori_param(d, ori ? NX_TRUE : NX_FALSE, rad); auto w = maxima(all(p, t, (size_t)mx * 10), (size_t)mx); int q = nx_fast_detector_detect(d, mx, o.data(), m.i); cmp(c, w, o.data(), q, 0, 1, 0, true, 0, "detector"); for (int i = 0; i < q; ++i) { bool in; float a = ori_ref(p, o[i].x, o[i].y, rad, in); REQ(c, o[i].ori == (ori && in ? a : 0.f), "orientation of (%d,%d) radius %d is %g expected %g", o[i].x, o[i].y, rad, o[i].ori, ori && in ? a : 0.f); } if (ori) c.ev("orientations", q); }
    int t0 = r.i(5, 250), nk = r.i(0, 1200), mk = r.i(1, 1000); d->threshold = t0; nx_fast_detector_adapt_threshold(d, nk, mk); int lh = (1014 * mk) >> 10, ll = (921 * mk) >> 10, lv = (716 * mk) >> 10, te = nk >= lh ? std::min(250, t0 + 3) : nk <= lv ? std::max(5, t0 - 3) : nk <= ll ? std::max(5, t0 - 1) : t0; REQ(c, d->threshold == te, "threshold %d after %d of %d keypoints becomes %d expected %d", t0, nk, mk, d->threshold, te); nx_fast_detector_free(d);
    REQ(c, raw(m.i) == before, "detection changed the image"); destroy(m);
}
static NXImagePyrBuilder *builder(Rng &r) { switch (r.i(0, 2)) { case 0: return nx_image_pyr_builder_new_fast(r.i(1, 3), 0.5f); case 1: return nx_image_pyr_builder_new_fine(r.i(1, 2), r.i(1, 3), 0.8f); default: return nx_image_pyr_builder_new_scaled(r.i(1, 4), (float)r.uni(0.6, 0.9), 0.6f); } }
static void pyr(Ctx &c) {
    auto &r = c.rng; int pw = r.coin(1, 30) ? r.i(60, 220) : r.i(20, 60), ph = r.coin(1, 30) ? r.i(60, 220) : r.i(20, 60); Px p = picture(r, pw, ph); int t = thr(r); Img m = make(r, p); auto *b = builder(r); NXImagePyr *py = nx_image_pyr_builder_build0(b, m.i); int L = r.i(-1, py->n_levels + 1), lv = L <= 0 || L > py->n_levels ? py->n_levels : L; size_t cap = r.coin(1, 3) ? (size_t)r.i(1, 20) : 2500, work = r.coin(1, 3) ? (size_t)r.i(1, 60) : 4000; c.desc("%dx%d levels %d of %d threshold %d cap %zu work %zu", p.w, p.h, lv, py->n_levels, t, cap, work); mixpx(c, p); c.mix(t * 10 + lv); bool det = r.coin(); std::vector<NXKeypoint> o(cap), wk(work); scramble(r, o); scramble(r, wk); int n; NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = t; bool ori = det && r.coin(); int rad = r.i(1, 6); nx_fast_detector_set_ori_param(d, ori ? NX_TRUE : NX_FALSE, rad); if (det) work = cap * 10;
    if (det) n = nx_fast_detector_detect_pyr(d, (int)cap, o.data(), py, L); else n = nx_fast_detect_keypoints_pyr((int)cap, o.data(), (int)work, wk.data(), py, t, L);
    size_t left = cap; int at = 0; for (int l = lv - 1; l >= 0 && left > 0; --l) { Px q = pixels(py->levels[l].img); auto e = maxima(all(q, t, work), left); REQ(c, at + (int)e.size() <= n, "pyramid detection reports %d keypoints, at least %zu expected", n, at + e.size()); cmp(c, e, o.data() + at, (int)e.size(), l, py->levels[l].scale, py->levels[l].sigma, true, at, "pyramid detection"); for (size_t i = 0; i < e.size(); ++i) { bool in; float a = ori_ref(q, e[i].x, e[i].y, rad, in); REQ(c, o[at + i].ori == (ori && in ? a : 0.f), "pyramid orientation %g expected %g", o[at + i].ori, a); } at += (int)e.size(); left -= e.size(); if (!e.empty()) c.nt(); } REQ(c, n == at, "pyramid detection reports %d keypoints, definition selects %d", n, at);
    nx_fast_detector_free(d); nx_image_pyr_free(py); nx_image_pyr_builder_free(b); destroy(m);
}
// Harris
static std::vector<NXKeypoint> harris_ref(const NXImage *s, float t, size_t cap) { std::vector<NXKeypoint> v; for (int y = 2; y < s->height - 2; ++y) for (int x = 2; x < s->width - 2; ++x) { float q = get(s, x, y); bool ok = q > t; for (int dy = -1; dy <= 1 && ok; ++dy) for (int dx = -1; dx <= 1; ++dx) if ((dx || dy) && !(q > get(s, x + dx, y + dy))) ok = false; if (ok) { if (v.size() == cap) return v; NXKeypoint k; memset((void *)&k, 0, sizeof k); k.x = x; k.y = y; k.score = q; k.id = v.size(); v.push_back(k); } } return v; }
static void hcmp(Ctx &c, const std::vector<NXKeypoint> &e, const NXKeypoint *k, int n, int level, float scale, float sigma, int id0, const char *what) { REQ(c, n == (int)e.size(), "%s reports %d keypoints, definition selects %zu", what, n, e.size()); for (int i = 0; i < n; ++i) { REQ(c, k[i].x == e[i].x && k[i].y == e[i].y && k[i].xs == (float)e[i].x && k[i].ys == (float)e[i].y, "%s: keypoint %d at (%d,%d) expected (%d,%d)", what, i, k[i].x, k[i].y, e[i].x, e[i].y); REQ(c, k[i].score == e[i].score && k[i].ori == 0, "%s: keypoint %d score %g expected %g, orientation %g", what, i, k[i].score, e[i].score, k[i].ori); REQ(c, k[i].level == level && k[i].scale == scale && k[i].sigma == sigma && (long long)k[i].id == id0 + i, "%s: keypoint %d level %d scale %g sigma %g id %lld", what, i, k[i].level, k[i].scale, k[i].sigma, (long long)k[i].id); } c.ev("harris_keypoints", n); }
static double score_ref(Ctx &c, const Px &p, double sw, double k, std::vector<VD> &S) { auto D = [&](bool dx) { std::vector<VD> o(p.h, VD(p.w)); int n = dx ? p.w : p.h; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { int q = dx ? x : y; auto at = [&](int j) { return (double)(dx ? p.at(j, y) : p.at(x, j)); }; o[y][x] = (n < 2 ? 0 : q == 0 ? 2 * (at(1) - at(0)) : q == n - 1 ? 2 * (at(n - 1) - at(n - 2)) : at(q + 1) - at(q - 1)) / 255; } return o; }; auto a = D(true), b = D(false); auto prod = [&](const std::vector<VD> &u, const std::vector<VD> &v) { std::vector<VD> o(p.h, VD(p.w)); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) o[y][x] = u[y][x] * v[y][x]; if (sw > 0) { VD g = rf::gauss(sw, 3.0); o = rf::sep(o, g, g); } return o; }; auto xx = prod(a, a), yy = prod(b, b), xy = prod(a, b); S.assign(p.h, VD(p.w)); double M = 0; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double tr = xx[y][x] + yy[y][x]; M = std::max(M, tr * tr); S[y][x] = xx[y][x] * yy[y][x] - xy[y][x] * xy[y][x] - k * tr * tr; } return M; }
static void harris(Ctx &c) {
    auto &r = c.rng; auto side = [&] { return r.coin(1, 40) ? r.logsize(40, 300) : r.coin(1, 8) ? r.i(1, 7) : r.i(5, 40); }; int pw = side(), ph = side(); if (r.coin(1, 150)) { pw = r.logsize(300, 1500); ph = r.i(5, 60); if (r.coin()) std::swap(pw, ph); } Px p = picture(r, pw, ph); float sw = r.coin(1, 6) ? 0.f : (float)(r.coin(1, 5) ? r.uni(0.15, 0.5) : r.uni(0.5, 3)), k = (float)r.uni(0.02, 0.1); Img m = make(r, p); std::string before = raw(m.i); c.desc("%dx%d sigma %g k %g", p.w, p.h, sw, k); mixpx(c, p); NXImage *d[3]; for (auto &q : d) q = r.coin(1, 3) ? nullptr : dirty_dest(r); NXImage *s = dirty_dest(r); nx_harris_deriv_images(d, m.i, sw); nx_harris_score_image(s, d, k); REQ(c, raw(m.i) == before, "Harris changed the image"); geom(c, s, p.w, p.h, 1, true, "score image"); std::vector<VD> S; double M = score_ref(c, p, sw, k, S); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) REQ(c, near(get(s, x, y), S[y][x], 2e-5 * M + 1e-12), "score at (%d,%d) of %dx%d is %g expected %g", x, y, p.w, p.h, get(s, x, y), S[y][x]);
    float t = r.coin(1, 4) ? 0.f : (float)(M * r.uni(0, 0.3)); size_t cap = r.coin(1, 3) ? (size_t)r.i(1, 8) : r.coin(1, 6) ? 20000 : 2000; if (r.coin(1, 3)) { for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) put(s, x, y, 0, (float)r.i(0, 6)); t = (float)r.i(0, 5); } // plateaus
    auto e = harris_ref(s, t, cap); if (!e.empty()) c.nt(); std::vector<NXKeypoint> o(cap); scramble(r, o); int n = nx_harris_detect_keypoints((int)cap, o.data(), s, t); hcmp(c, e, o.data(), n, 0, 1, 1, 0, "Harris"); REQ(c, nx_harris_detect_keypoints(0, o.data(), s, t) == 0, "keypoints although none were requested"); for (auto q : d) nx_image_free(q); nx_image_free(s); destroy(m);
}
static float adapt(float t, int n, int m) { if (n > 1.7f * m) return t * 4.0f; if (n > 1.4f * m) return t * 1.9f; if (n > 1.1f * m) return t * 1.2f; if (n > m) return t * 1.02f; if (n < 0.5f * m) return t * 0.25f; if (n < 0.9f * m) return t * 0.6f; if (n < 0.95f * m) return t * 0.9f; if (n < 0.99f * m) return t * 0.97f; return t; }
static void vgharris(Ctx &c) {
    auto &r = c.rng; VGHarrisDetector det; float t = 0.000005f; float sw = 1.2f, k = 0.06f; bool steady = r.coin(1, 4); int reps = steady ? r.i(6, 20) : r.i(1, 4), mx0 = 0; Px p0; c.desc("reps %d%s", reps, steady ? " of one image" : "");
    for (int q = 0; q < reps; ++q) { Px p = steady && q ? p0 : picture(r, r.i(8, 50), r.i(8, 50)); p0 = p; mixpx(c, p); Img m = make(r, p); VGImage v(m.i, false); int mx = r.coin() ? r.i(1, 20) : r.i(1, 200); bool ad = r.coin() || steady; std::vector<NXKeypoint> o((size_t)r.i(0, 5)); auto sc = [&](const NXImage *i) { NXImage *d[3] = {nullptr, nullptr, nullptr}, *s = nx_image_alloc(); nx_harris_deriv_images(d, i, sw); nx_harris_score_image(s, d, k); for (auto z : d) nx_image_free(z); return s; };
        if (steady && !q) { NXImage *s = sc(m.i); mx0 = std::max(1, (int)(harris_ref(s, t, 100000).size() / r.uni(0.9, 1.2))); nx_image_free(s); } if (steady) mx = mx0; // the threshold settles on one image
        if (steady || r.coin()) { NXImage *s = sc(m.i); auto e = harris_ref(s, t, 2 * (size_t)mx); nx_image_free(s); int n = det.detect(v, o, mx, ad), f = (int)e.size(); if ((int)e.size() > mx) e.resize(mx); REQ(c, (int)o.size() == n, "list of %zu for %d keypoints", o.size(), n); hcmp(c, e, o.data(), n, 0, 1, 1, 0, "VGHarrisDetector"); if (n) c.nt(); if (ad) t = adapt(t, f, mx); }
        else { int kind = r.i(0, 2); VGImagePyr py = kind == 0 ? VGImagePyr::build_fast_from(v, r.i(1, 3), 0.5f) : kind == 1 ? VGImagePyr::build_fine_from(v, 1, r.i(1, 3), 0.8f) : VGImagePyr::build_scaled_from(v, r.i(1, 3), 0.8f, 0.6f); int L = r.i(1, py.n_levels()); int n = det.detect_pyr(py, o, L, mx, ad); size_t left = 2 * (size_t)mx; std::vector<std::vector<NXKeypoint>> es; std::vector<int> lv; int tot = 0; for (int l = L - 1; l >= 0 && left > 0; --l) { NXImage *s = sc(py.nx_pyr()->levels[l].img); auto e = harris_ref(s, t, left); nx_image_free(s); left -= e.size(); tot += (int)e.size(); es.push_back(e); lv.push_back(l); } int want = std::min(tot, mx); REQ(c, n == want && (int)o.size() == n, "pyramid Harris reports %d (list %zu), expected %d", n, o.size(), want); int at = 0; for (size_t i = 0; i < es.size() && at < n; ++i) { auto e = es[i]; if ((int)e.size() > n - at) e.resize(n - at); hcmp(c, e, o.data() + at, (int)e.size(), lv[i], py.level_scale(lv[i]), py.level_sigma(lv[i]), at, "VGHarrisDetector pyramid"); at += (int)e.size(); } if (n) c.nt(); if (ad) t = adapt(t, tot, mx); }
        destroy(m); }
}
static const int LR_ANTI = 2;
static void checkers(Ctx &c) {
    auto &r = c.rng; int rad = r.i(1, 4); bool wave = r.coin(); Px p = wave ? Px(r.i(24, 48), r.i(24, 48), 1, false) : picture(r, r.i(4, 40), r.i(4, 40)); double fq = r.uni(0.03, 0.25), ph = r.uni(0, 6); bool anti = r.coin(); if (wave) for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) p.at(x, y) = (float)std::lrint(127 + 100 * std::sin(fq * (anti ? x + y : x - y) + ph)); c.desc("%dx%d radius %d %s", p.w, p.h, rad, wave ? anti ? "x+y wave" : "x-y wave" : "picture"); mixpx(c, p); c.nt(); Img m = make(r, p); std::string before = raw(m.i); NXImage *lr[4]; for (auto &q : lr) q = r.coin(1, 3) ? nullptr : dirty_dest(r); nx_checkers_local_radon_images(lr, m.i, rad); REQ(c, raw(m.i) == before, "the image was changed"); for (auto q : lr) geom(c, q, p.w, p.h, 1, false, "direction image"); VD kb(rad + 1, 1.0 / (2 * rad + 1)); auto ex = rf::sep(rf::grid(p), kb, VD()), ey = rf::sep(rf::grid(p), VD(), kb);
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { REQ(c, near(get(lr[0], x, y), ex[y][x], 1.01) && near(get(lr[1], x, y), ey[y][x], 1.01), "axis-aligned means at (%d,%d) are %g %g expected %g %g", x, y, get(lr[0], x, y), get(lr[1], x, y), ex[y][x], ey[y][x]); }
    if (wave) { int B = rad + 6; double N = 2 * rad + 1; for (int y = B; y < p.h - B; ++y) for (int x = B; x < p.w - B; ++x) { double along = p.at(x, y), across = 0; for (int i = -rad; i <= rad; ++i) across += 127 + 100 * std::sin(fq * ((anti ? x + y : x - y) + std::sqrt(2.0) * i) + ph); across /= N; double a = anti ? along : across, b = anti ? across : along; REQ(c, near(get(lr[LR_ANTI], x, y), a, 6) && near(get(lr[5 - LR_ANTI], x, y), b, 6), "diagonal means at (%d,%d) are %g %g expected %g %g", x, y, get(lr[LR_ANTI], x, y), get(lr[5 - LR_ANTI], x, y), a, b); c.ev("diagonal_means"); } }
    NXImage *s = dirty_dest(r); nx_checkers_score_image(s, lr); geom(c, s, p.w, p.h, 1, true, "score image"); std::vector<VD> d(p.h, VD(p.w)); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double a = 255, b = 0; for (auto q : lr) { a = std::min(a, (double)get(q, x, y)); b = std::max(b, (double)get(q, x, y)); } d[y][x] = (b - a) * (b - a) / 65025.0; } VD g = rf::gauss(1.3f, 3.0f); d = rf::sep(d, g, g); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) REQ(c, near(get(s, x, y), d[y][x], 2e-6), "checkerboard score at (%d,%d) is %g expected %g", x, y, get(s, x, y), d[y][x]); c.ev("checker_scores", p.w * p.h); for (auto q : lr) nx_image_free(q); nx_image_free(s); destroy(m);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"fast", fast, 5000, 100000}, {"pyr", pyr, 1200, 25000}, {"harris", harris, 4000, 80000}, {"vgharris", vgharris, 1200, 25000}, {"checkers", checkers, 1500, 30000}}); }
