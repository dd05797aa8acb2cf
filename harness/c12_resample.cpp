#include "img.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_affine_warp_processor.h"
using namespace vh; using namespace vi; using namespace virg::nexus;
typedef std::vector<double> VD;
struct G { int w, h; VD v; G(int a = 0, int b = 0) : w(a), h(b), v((size_t)a * b) {} double &at(int x, int y) { return v[(size_t)y * w + x]; } double at(int x, int y) const { return v[(size_t)y * w + x]; } };
static G grid(const NXImage *i) { G g(i->width, i->height); for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) g.at(x, y) = get(i, x, y); return g; }
static G grid(const Px &p) { G g(p.w, p.h); for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) g.at(x, y) = p.at(x, y); return g; }
static int clampi(int i, int n) { return std::min(n - 1, std::max(0, i)); }
static int refl(int i, int n) { if (n == 1) return 0; while (i < 0 || i >= n) i = i < 0 ? -i : 2 * (n - 1) - i; return i; }
static VD gk(double sigma, double tf) { int n = (int)(2.0 * (float)tf * (float)sigma + 1.0f); if (n % 2 == 0) ++n; n = std::max(n, 3); VD k(n / 2 + 1); double s = 0; for (size_t i = 0; i < k.size(); ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += (i ? 2 : 1) * k[i]; } for (auto &v : k) v /= s; return k; }
static G smooth(const G &g, double sigma, bool trunc) { VD k = gk(sigma, 4.0); G t(g.w, g.h), o(g.w, g.h); for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) { double s = k[0] * g.at(x, y); for (int j = 1; j < (int)k.size(); ++j) s += k[j] * (g.at(clampi(x - j, g.w), y) + g.at(clampi(x + j, g.w), y)); t.at(x, y) = trunc ? std::floor(s + 1e-4) : s; } for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) { double s = k[0] * t.at(x, y); for (int j = 1; j < (int)k.size(); ++j) s += k[j] * (t.at(x, clampi(y - j, g.h)) + t.at(x, clampi(y + j, g.h))); o.at(x, y) = trunc ? std::floor(s + 1e-4) : s; } return o; }
static G down(const G &g) { G o(g.w / 2, g.h / 2); for (int y = 0; y < o.h; ++y) for (int x = 0; x < o.w; ++x) o.at(x, y) = g.at(2 * x, 2 * y); return o; }
static G aax(const G &g) { G o(g.w / 2, g.h); auto at = [&](int x, int y) { return g.at(refl(x, g.w), y); }; for (int y = 0; y < o.h; ++y) for (int x = 0; x < o.w; ++x) o.at(x, y) = (at(2 * x - 2, y) + at(2 * x + 2, y) + 6 * (at(2 * x - 1, y) + at(2 * x + 1, y)) + 11 * at(2 * x, y)) / 25; return o; }
static G tr(const G &g) { G o(g.h, g.w); for (int y = 0; y < o.h; ++y) for (int x = 0; x < o.w; ++x) o.at(x, y) = g.at(y, x); return o; }
static G aay(const G &g) { return tr(aax(tr(g))); }
static double bil(const G &g, double x, double y) { int xi = (int)std::floor(x), yi = (int)std::floor(y); double u = x - xi, v = y - yi; int x0 = clampi(xi, g.w), x1 = clampi(xi + 1, g.w), y0 = clampi(yi, g.h), y1 = clampi(yi + 1, g.h); return (1 - v) * ((1 - u) * g.at(x0, y0) + u * g.at(x1, y0)) + v * ((1 - u) * g.at(x0, y1) + u * g.at(x1, y1)); }
static bool dim_ok(int got, double exact) { return got == (int)std::floor(exact) || (std::fabs(exact - std::round(exact)) < 1e-3 && std::abs(got - (int)std::round(exact)) <= 1); }
static void cmp(Ctx &c, const NXImage *d, const G &e, double lo, double hi, const char *what) { REQ(c, d->width == e.w && d->height == e.h, "%s: size %dx%d expected %dx%d", what, d->width, d->height, e.w, e.h); for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) { double g = get(d, x, y); REQ(c, g >= e.at(x, y) - lo && g <= e.at(x, y) + hi, "%s: value at (%d,%d) of %dx%d is %g expected %.6g", what, x, y, e.w, e.h, g, e.at(x, y)); } }
static void begin(Ctx &c, const Px &p, const char *op) { c.desc("%s %dx%d %s", op, p.w, p.h, p.f32 ? "float" : "uchar"); mixpx(c, p); if (p.w * p.h > 1) c.nt(); c.ev(op); }
static void scale(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = random_px(r, dim(r), dim(r), 1, f, -2, 2); float s = (float)(r.coin() ? r.uni(0.1, 1) : r.uni(1, 3)); if (r.coin(1, 4)) { static const float sp[] = {0.5f, 1.f, 2.f, 0.25f, 0.75f, 1.5f, 3.f}; s = sp[r.i(0, 6)]; } while (p.w * s < 1.01 || p.h * s < 1.01) s *= 2; begin(c, p, "scale"); c.desc(" by %g", s); c.mixb(&s, 4); Img m = make(r, p); std::string b = raw(m.i); NXImage *d = dirty_dest(r); if (r.coin(1, 4)) { VGImage vd(d, false), vs(m.i, false); vd.scaled_of(vs, s); } else nx_image_scale(d, m.i, s); REQ(c, raw(m.i) == b, "scaling changed its source"); REQ(c, dim_ok(d->width, (double)p.w * s) && dim_ok(d->height, (double)p.h * s), "scaled size %dx%d of %dx%d by %g", d->width, d->height, p.w, p.h, s); geom(c, d, d->width, d->height, 1, f, "scaled"); G g = grid(p), e(d->width, d->height); for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) e.at(x, y) = bil(g, x / (double)s, y / (double)s); double ps = 4e-7 * (p.w + p.h); cmp(c, d, e, f ? 2e-4 + 4 * ps : 1.02 + 255 * ps, f ? 2e-4 + 4 * ps : 0.6 + 255 * ps, "scaled image"); nx_image_free(d); destroy(m);
}
static void updown(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = random_px(r, dim(r), dim(r), 1, f, -2, 2); int op = r.i(0, 3); if (op != 1) { if (op != 3) p.w < 2 ? (p = random_px(r, p.w + 1, p.h, 1, f)) : p; if (op != 2) p.h < 2 ? (p = random_px(r, p.w, p.h + 1, 1, f)) : p; } static const char *nm[] = {"downsample", "upsample", "downsample_aa_x", "downsample_aa_y"}; begin(c, p, nm[op]); Img m = make(r, p); std::string b = raw(m.i); NXImage *d = dirty_dest(r); G g = grid(p), e; double tol = f ? 1e-5 : 1.02, hi = f ? 1e-5 : 0.6;
    switch (op) { case 0: if (r.coin(1, 4)) { VGImage vd(d, false), vs(m.i, false); vd.downsampled_from(vs); } else nx_image_downsample(d, m.i); e = down(g); tol = hi = 0; break; case 1: nx_image_upsample(d, m.i); e = G(2 * p.w, 2 * p.h); for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) e.at(x, y) = bil(g, std::min(x / 2.0, p.w - 1.0), std::min(y / 2.0, p.h - 1.0)); break; case 2: nx_image_downsample_aa_x(d, m.i); e = aax(g); break; default: nx_image_downsample_aa_y(d, m.i); e = aay(g); }
    REQ(c, raw(m.i) == b, "%s changed its source", nm[op]); geom(c, d, e.w, e.h, 1, f, nm[op]); cmp(c, d, e, tol, hi, nm[op]); nx_image_free(d); destroy(m);
}
// ---- pyramids
static void check_pyr(Ctx &c, const NXImagePyr *pyr, int kind, int n_oct, int steps, int n_levels, float sf, float sigma0, const Px &p) {
    double s0 = std::max(0.5f, sigma0); REQ(c, pyr->n_levels == n_levels, "%d levels expected %d", pyr->n_levels, n_levels);
    for (int i = 0; i < n_levels; ++i) { auto &l = pyr->levels[i]; double sc = kind == 2 ? std::pow((double)sf, i) : std::pow(2.0, i / steps), sg = s0 * std::pow(2.0, i / (double)steps); REQ(c, near(l.scale, sc, 0, 1e-5), "level %d scale %g expected %g", i, l.scale, sc); REQ(c, near(l.sigma, sg, 0, 1e-5), "level %d sigma %g expected %g", i, l.sigma, sg); REQ(c, dim_ok(l.img->width, p.w / sc) && dim_ok(l.img->height, p.h / sc), "level %d size %dx%d of base %dx%d scale %g", i, l.img->width, l.img->height, p.w, p.h, sc); geom(c, l.img, l.img->width, l.img->height, 1, false, "pyramid level"); c.ev("level"); }
    G g = grid(p); double sgm = std::sqrt(std::max(0.0, s0 * s0 - 0.25)); if (sgm > 1e-6) cmp(c, pyr->levels[0].img, smooth(g, sgm, false), 2.02, 1.02, "level 0"); else cmp(c, pyr->levels[0].img, g, 0, 0, "level 0");
    G work = grid(pyr->levels[0].img); double cur = s0;
    for (int i = 1; i < n_levels; ++i) { G prev = grid(pyr->levels[i - 1].img); NXImage *l = pyr->levels[i].img;
        if (kind == 0) cmp(c, l, aay(aax(prev)), 2.05, 1.02, "fast level");
        else if (kind == 1) { double a = s0 * std::pow(2.0, (i - 1) / (double)steps - (i - 1) / steps), b = s0 * std::pow(2.0, i / (double)steps - (i - 1) / steps); double q = std::sqrt(b * b - a * a); G e = smooth(prev, q, false); if (i % steps == 0) e = down(e); cmp(c, l, e, 2.05, 1.02, "fine level"); }
        else { double want = s0 * std::pow(2.0, i); work = smooth(work, std::sqrt(want * want - cur * cur), true); cur = want; double s = std::pow((double)sf, i); G e(l->width, l->height); for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) e.at(x, y) = bil(work, x * s, y * s); cmp(c, l, e, 1.05 + 2 * i, 0.6 + i, "scaled level"); } }
}
static void pyramid(Ctx &c) {
    auto &r = c.rng; int kind = r.i(0, 2), n_oct = r.i(1, 3), steps = kind == 1 ? r.i(1, 3) : 1; float sf = (float)r.uni(1.1, 2.2), s0 = (float)(r.coin(1, 6) ? r.uni(0, 0.5) : r.uni(0.5, 2)); if (r.coin(1, 15)) { steps = kind == 1 ? r.i(4, 7) : 1; sf = (float)r.uni(1.05, 1.3); } int nl = kind == 1 ? n_oct * steps : kind == 2 ? (sf < 1.3f && r.coin(1, 3) ? r.i(5, 12) : r.i(1, 4)) : r.coin(1, 20) ? r.i(5, 6) : r.i(1, 4); double big = kind == 2 ? std::pow(sf, nl - 1) : std::pow(2.0, (kind == 1 ? n_oct : nl) - 1); int mn = (int)std::ceil(big) + 1; auto rd = [&] { return r.coin(1, 3) ? mn : r.i(mn, 40 + mn); };
    Px p = random_px(r, rd(), rd(), 1, false), q = random_px(r, rd(), rd(), 1, false); begin(c, p, kind == 0 ? "pyr_fast" : kind == 1 ? "pyr_fine" : "pyr_scaled"); c.desc(" levels %d octaves %d steps %d factor %g sigma %g", nl, n_oct, steps, sf, s0); c.mix(nl * 100 + n_oct * 10 + steps); Img a = make(r, p), b = make(r, q); std::string ra = raw(a.i), rb = raw(b.i);
    auto mk = [&] { if (r.coin()) return kind == 0 ? nx_image_pyr_builder_new_fast(nl, s0) : kind == 1 ? nx_image_pyr_builder_new_fine(n_oct, steps, s0) : nx_image_pyr_builder_new_scaled(nl, sf, s0); NXImagePyrBuilder *w = nx_image_pyr_builder_alloc(); for (int k = r.i(0, 2); k > 0; --k) { int t = r.i(0, 2); if (t == 0) nx_image_pyr_builder_set_fast(w, r.i(1, 3), (float)r.uni(0.3, 2)); else if (t == 1) nx_image_pyr_builder_set_fine(w, r.i(1, 2), r.i(1, 3), (float)r.uni(0.3, 2)); else nx_image_pyr_builder_set_scaled(w, r.i(1, 3), (float)r.uni(1.1, 1.9), (float)r.uni(0.3, 2)); if (r.coin()) { Px z = random_px(r, r.i(16, 40), r.i(16, 40), 1, false); Img zi = make(r, z); nx_image_pyr_free(nx_image_pyr_builder_build0(w, zi.i)); destroy(zi); } } if (kind == 0) nx_image_pyr_builder_set_fast(w, nl, s0); else if (kind == 1) nx_image_pyr_builder_set_fine(w, n_oct, steps, s0); else nx_image_pyr_builder_set_scaled(w, nl, sf, s0); c.ev("builders_switched"); return w; }; int soct = kind == 1 ? steps : 1;
    NXImagePyrBuilder *bl = mk(); NXImagePyr *py = nx_image_pyr_builder_build0(bl, a.i); REQ(c, raw(a.i) == ra, "building a pyramid changed the image"); check_pyr(c, py, kind, n_oct, soct, nl, sf, s0, p);
    if (r.coin()) { // another scheme in between leaves no trace
        NXImagePyrBuilder *o = nx_image_pyr_builder_new_fast(r.i(1, 3), 1.f); Px z = random_px(r, 16, 16, 1, false); Img zi = make(r, z); nx_image_pyr_builder_build(o, py, zi.i); nx_image_pyr_builder_free(o); destroy(zi); }
    nx_image_pyr_builder_build(bl, py, b.i); REQ(c, raw(b.i) == rb, "rebuilding a pyramid changed the image"); check_pyr(c, py, kind, n_oct, soct, nl, sf, s0, q); NXImagePyrBuilder *fb = mk(); NXImagePyr *fp = nx_image_pyr_builder_build0(fb, b.i); for (int i = 0; i < nl; ++i) REQ(c, pixels(fp->levels[i].img).v == pixels(py->levels[i].img).v && fp->levels[i].scale == py->levels[i].scale && fp->levels[i].sigma == py->levels[i].sigma, "rebuilt level %d differs from a fresh pyramid", i);
    if (r.coin(1, 3)) { VGImage va(a.i, false), vb(b.i, false); VGImagePyr v = kind == 0 ? VGImagePyr::build_fast_from(va, nl, s0) : kind == 1 ? VGImagePyr::build_fine_from(va, n_oct, steps, s0) : VGImagePyr::build_scaled_from(va, nl, sf, s0); REQ(c, v.n_levels() == nl && (int)v.type() == kind, "wrapper level count %d type %d", v.n_levels(), (int)v.type()); REQ(c, v.sigma0() == std::max(s0, 0.5f) && (kind != 1 || (v.n_octaves() == n_oct && v.n_octave_steps() == steps)) && (kind != 2 || v.scale_factor() == sf), "wrapper scheme: sigma %g octaves %d steps %d factor %g", v.sigma0(), v.n_octaves(), v.n_octave_steps(), v.scale_factor()); v.rebuild_from(vb); for (int i = 0; i < nl; ++i) REQ(c, pixels(v[i].nx_img()).v == pixels(fp->levels[i].img).v && v.level_scale(i) == fp->levels[i].scale && v.level_sigma(i) == fp->levels[i].sigma, "wrapper level %d differs", i); if (r.coin() && v[0].width() == a.i->width && v[0].height() == a.i->height) { nx_image_copy(v[0].nx_img(), a.i); v.rebuild(); NXImagePyr *ap = nx_image_pyr_builder_build0(fb, a.i); for (int i = 0; i < nl; ++i) REQ(c, pixels(v[i].nx_img()).v == pixels(ap->levels[i].img).v, "level %d rebuilt after the base image changed differs", i); nx_image_pyr_free(ap); c.ev("wrapper_rebuilt_in_place"); } c.ev("wrapper_pyr"); }
    if (r.coin(1, 3)) { // the two halves of building, called separately on a used or fresh pyramid
        NXImagePyr *hp = r.coin() ? py : nx_image_pyr_alloc(); nx_image_pyr_builder_init_levels(fb, hp, q.w, q.h); REQ(c, hp->n_levels == nl, "prepared %d levels, expected %d", hp->n_levels, nl); for (int i = 0; i < nl; ++i) { NXImage *l = hp->levels[i].img, *e = fp->levels[i].img; REQ(c, l && l->width == e->width && l->height == e->height && l->type == NX_IMAGE_GRAYSCALE && l->dtype == NX_IMAGE_UCHAR && hp->levels[i].scale == fp->levels[i].scale && hp->levels[i].sigma == fp->levels[i].sigma, "prepared level %d", i); }
        nx_image_copy(hp->levels[0].img, b.i); nx_image_pyr_builder_update(fb, hp); for (int i = 0; i < nl; ++i) REQ(c, pixels(fp->levels[i].img).v == pixels(hp->levels[i].img).v && fp->levels[i].scale == hp->levels[i].scale && fp->levels[i].sigma == hp->levels[i].sigma, "updated level %d differs from a built pyramid", i); c.ev("prepared_pyramids"); if (hp != py) nx_image_pyr_free(hp); }
    nx_image_pyr_free(py); nx_image_pyr_free(fp); nx_image_pyr_builder_free(bl); nx_image_pyr_builder_free(fb); destroy(a); destroy(b);
}
// ---- warps.  interval of admissible values over a small position uncertainty
struct Want { bool bg = false, px = false; double lo = 1e300, hi = -1e300; };
template <class F> static Want want(F f, double x, double y, double eps) { Want w; double xs[4] = {x, x - eps, x + eps, std::floor(x + eps)}, ys[4] = {y, y - eps, y + eps, std::floor(y + eps)}; /* the extremes of a bilinear surface lie at the ends and at cell borders */ int nx = eps > 0 ? 3 + (xs[3] >= x - eps) : 1, ny = eps > 0 ? 3 + (ys[3] >= y - eps) : 1; for (int k = 0; k < nx * ny; ++k) { double v; int cl = f(xs[k % nx], ys[k / nx], v); if (cl != 1) w.px = true, w.lo = std::min(w.lo, v), w.hi = std::max(w.hi, v); if (cl) w.bg = true; } return w; }
static void warp(Ctx &c) {
    auto &r = c.rng; Px p = random_px(r, dim(r, 40), dim(r, 40), 1, false); int mode = r.i(0, 4); bool exact = r.coin(); int dw = dim(r, 50), dh = dim(r, 50), ds = dw + r.i(0, 6); float t[9]; if (exact) { auto q = [&](int m) { return r.i(-m * 64, m * 64) / 64.0f; }; t[0] = q(2); t[1] = q(2); t[3] = q(2); t[4] = q(2); t[6] = q(30); t[7] = q(30); if (r.coin(1, 4)) { t[0] = t[4] = 1; t[1] = t[3] = 0; if (r.coin()) t[6] = (float)r.i(-3, 3), t[7] = (float)r.i(-3, 3); } } else { double a = r.uni(-4, 4), s = r.uni(0.3, 2); t[0] = (float)(s * cos(a)); t[1] = (float)(s * sin(a)); t[3] = (float)(-s * sin(a) * r.uni(0.5, 2)); t[4] = (float)(s * cos(a)); double cx = p.w / 2.0 + r.uni(-10, 10), cy = p.h / 2.0 + r.uni(-10, 10); t[6] = (float)(cx - t[0] * dw / 2 - t[3] * dh / 2); t[7] = (float)(cy - t[1] * dw / 2 - t[4] * dh / 2); } t[2] = t[5] = 0; t[8] = 1;
    static const char *mn[] = {"warp_black", "warp_white", "warp_noise", "warp_repeat", "warp_mirror"}; begin(c, p, mn[mode]); c.desc(" to %dx%d by [%g %g %g %g %g %g]", dw, dh, t[0], t[3], t[6], t[1], t[4], t[7]); c.mixb(t, sizeof t); Img m = make(r, p); std::string b = raw(m.i); std::vector<uchar> d((size_t)ds * dh, 99); nx_image_warp_affine_bilinear(dw, dh, d.data(), ds, p.w, p.h, m.i->data.uc, m.i->row_stride, t, (NXImageWarpBackgroundMode)mode); REQ(c, raw(m.i) == b, "warping changed its source"); G g = grid(p); double L = p.w - 1, H = p.h - 1;
    auto f = [&](double x, double y, double &v) { if (mode < 3) { if (x < 0 || y < 0 || x > L || y > H) return 1; v = bil(g, x, y); return (x == L || y == H) ? 2 : 0; } if (mode == 3) { v = bil(g, std::min(L, std::max(0.0, x)), std::min(H, std::max(0.0, y))); return 0; } int xi = (int)std::floor(x), yi = (int)std::floor(y); double u = x - xi, w = y - yi; auto at = [&](int a, int q) { return g.at(refl(a, g.w), refl(q, g.h)); }; v = (1 - w) * ((1 - u) * at(xi, yi) + u * at(xi + 1, yi)) + w * ((1 - u) * at(xi, yi + 1) + u * at(xi + 1, yi + 1)); return 0; };
    double reach = std::fabs(t[0]) * dw + std::fabs(t[3]) * dh + std::fabs(t[1]) * dw + std::fabs(t[4]) * dh + std::fabs(t[6]) + std::fabs(t[7]), eps = 1e-3 + 6e-8 * dw * reach; uint64_t in = 0, out = 0; for (int y = 0; y < dh; ++y) { for (int x = 0; x < dw; ++x) { double xp = (double)t[0] * x + (double)t[3] * y + t[6], yp = (double)t[1] * x + (double)t[4] * y + t[7]; Want w = want(f, xp, yp, exact ? 0 : eps); int gv = d[(size_t)y * ds + x]; bool ok = (w.px && gv >= w.lo - 1.02 && gv <= w.hi + 0.6) || (w.bg && (mode == 2 || gv == (mode == 1 ? 255 : 0))); REQ(c, ok, "pixel (%d,%d) from (%.4f,%.4f) of %dx%d is %d expected %s%.4g..%.4g", x, y, xp, yp, p.w, p.h, gv, w.bg ? "background or " : "", w.lo, w.hi); (w.bg ? out : in)++; } for (int k = dw; k < ds; ++k) REQ(c, d[(size_t)y * ds + k] == 99, "warping wrote into the padding"); } c.ev("warp_inside_px", in); c.ev("warp_background_px", out); destroy(m);
}
static void rot45(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(), cw = r.coin(); Px p = random_px(r, dim(r, 40), dim(r, 40), 1, f, -50, 300); int dw = dim(r, 60), dh = dim(r, 60); begin(c, p, "rotate45"); c.desc(" to %dx%d cw %d", dw, dh, cw); c.mix(dw * 100 + dh * 2 + cw); Img m = make(r, p); Px q(dw, dh, 1, f); Img d = make(r, q); std::string b = raw(m.i); nx_image_rotate45(d.i, m.i, cw ? NX_TRUE : NX_FALSE); REQ(c, raw(m.i) == b, "rotation changed its source"); geom(c, d.i, dw, dh, 1, f, "rotated"); G g = grid(p); double s = std::sqrt(0.5), C = cw ? 1 : -1, L = p.w - 1, H = p.h - 1;
    auto fn = [&](double x, double y, double &v) { if (x < 0 || y < 0 || x > L || y > H) return 1; v = bil(g, x, y); return (x == L || y == H) ? 2 : 0; };
    for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) { double ux = x - dw / 2.0, uy = y - dh / 2.0, xp = p.w / 2.0 + s * (ux + C * uy), yp = p.h / 2.0 + s * (uy - C * ux); Want w = want(fn, xp, yp, 1e-3 + 6e-8 * dw * (dw + dh + p.w + p.h)); double gv = get(d.i, x, y), tl = f ? 1e-3 : 1.02, th = f ? 1e-3 : 0.6; REQ(c, (w.px && gv >= w.lo - tl && gv <= w.hi + th) || (w.bg && gv == 0), "pixel (%d,%d) from (%.3f,%.3f) is %g expected %s%.5g..%.5g", x, y, xp, yp, gv, w.bg ? "0 or " : "", w.lo, w.hi); } destroy(m); destroy(d);
}
static void affine(Ctx &c) {
    auto &r = c.rng; int w = r.i(24, 80), h = r.i(24, 80); bool flat = r.coin(1, 3); double gx = r.uni(-1.2, 1.2), gy = r.uni(-1.2, 1.2), b0 = 128 - gx * w / 2 - gy * h / 2; Px p(w, h, 1, false); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.at(x, y) = (float)std::floor(std::min(250.0, std::max(5.0, b0 + gx * x + gy * y))); if (flat) p = random_px(r, w, h, 1, false);
    NXAffineWarpParam q; q.scale = r.coin(1, 3) ? 1 : r.uni(0.4, 2); q.planar_angle = r.coin(1, 3) ? 0 : r.uni(-4, 4); q.tilt = r.coin(1, 3) ? 1 : r.uni(1, 3); q.tilt_angle = r.coin(1, 3) ? 0 : r.uni(-4, 4); if (r.coin(1, 5)) q.tilt = r.uni(0.5, 1); float pb = r.coin() ? 0 : (float)r.uni(0.3, 1.5); int bg = r.i(0, 2); uchar bc = (uchar)r.i(0, 255); begin(c, p, "affine_warp"); c.desc(" scale %g angle %g tilt %g tilt angle %g blur %g background %d", q.scale, q.planar_angle, q.tilt, q.tilt_angle, pb, bg); c.mixb(&q, sizeof q);
    Img m = make(r, p); std::string rw = raw(m.i); NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); bool bfirst = r.coin(); if (bfirst) nx_affine_warp_processor_set_post_blur_sigma(wp, pb); if (r.coin(1, 4)) nx_affine_warp_processor_set_bg_fixed(wp, (uchar)r.i(0, 255)); if (r.coin(1, 4)) nx_affine_warp_processor_set_bg_repeat(wp); if (bg == 0) nx_affine_warp_processor_set_bg_fixed(wp, bc); else if (bg == 1) nx_affine_warp_processor_set_bg_repeat(wp); else nx_affine_warp_processor_set_bg_noise(wp); if (!bfirst) nx_affine_warp_processor_set_post_blur_sigma(wp, pb);
    if (r.coin()) { Px z = random_px(r, r.i(2, 50), r.i(2, 50), 1, false); Img zi = make(r, z); NXAffineWarpParam qq = {r.uni(0.5, 1.5), r.uni(-3, 3), r.uni(1, 2), r.uni(-3, 3)}; nx_affine_warp_processor_warp(wp, zi.i, qq); destroy(zi); }
    nx_affine_warp_processor_warp(wp, m.i, q); REQ(c, raw(m.i) == rw, "warping changed its source"); const NXImage *o = nx_affine_warp_processor_warp_result(wp); const double *F = nx_affine_warp_processor_forward_transform(wp), *I = nx_affine_warp_processor_inverse_transform(wp);
    // forward = scale * R(planar) * diag(1/tilt, 1) * R(tilt angle), centre to centre
    double ct = cos(q.tilt_angle), st = sin(q.tilt_angle), cp = cos(q.planar_angle), sp = sin(q.planar_angle); double A[4] = {ct / q.tilt, -st / q.tilt, st, ct}; double M[4] = {q.scale * (cp * A[0] - sp * A[2]), q.scale * (cp * A[1] - sp * A[3]), q.scale * (sp * A[0] + cp * A[2]), q.scale * (sp * A[1] + cp * A[3])};
    double e[6] = {M[0], M[2], M[1], M[3], o->width / 2.0 - M[0] * w / 2 - M[1] * h / 2, o->height / 2.0 - M[2] * w / 2 - M[3] * h / 2}; for (int k = 0; k < 6; ++k) REQ(c, near(F[k], e[k], 1e-9 * (w + h) * 4), "forward transform element %d is %.9g expected %.9g", k, F[k], e[k]);
    double cx[2] = {1e300, -1e300}, cy[2] = {1e300, -1e300}; for (int k = 0; k < 4; ++k) { double x = k & 1 ? w : 0, y = k & 2 ? h : 0, X = F[0] * x + F[2] * y + F[4], Y = F[1] * x + F[3] * y + F[5]; cx[0] = std::min(cx[0], X); cx[1] = std::max(cx[1], X); cy[0] = std::min(cy[0], Y); cy[1] = std::max(cy[1], Y); double bx = I[0] * X + I[2] * Y + I[4], by = I[1] * X + I[3] * Y + I[5]; REQ(c, near(bx, x, 1e-7) && near(by, y, 1e-7), "inverse transform maps corner (%g,%g) back to (%g,%g)", x, y, bx, by); }
    REQ(c, dim_ok(o->width, cx[1] - cx[0] + 2) && dim_ok(o->height, cy[1] - cy[0] + 2), "result size %dx%d for extent %gx%g", o->width, o->height, cx[1] - cx[0], cy[1] - cy[0]); geom(c, o, o->width, o->height, 1, false, "warped");
    double s1 = q.tilt > 1 ? 0.8 * std::sqrt(q.tilt * q.tilt - 1) : 0, s2 = q.scale > 1 ? 0.8 * std::sqrt(q.scale * q.scale - 1) : 0; double tm = std::max(1.0, q.tilt); double mar = 3 + (s1 > 0 ? 3 * s1 + 2 : 0) + (s2 > 0 ? (3 * s2 + 2) * tm : 0) + (pb > 0 ? (3 * pb + 2) * tm / q.scale : 0) + 2 * tm / std::min(1.0, q.scale); uint64_t in = 0, out = 0; G g = grid(p);
    bool exact_copy = q.tilt <= 1.0 && q.tilt >= 1.0 && pb == 0 && q.scale <= 1;
    for (int y = 0; y < o->height; ++y) for (int x = 0; x < o->width; ++x) { double xp = I[0] * x + I[2] * y + I[4], yp = I[1] * x + I[3] * y + I[5], gv = get(o, x, y); 
        if (xp < -1.01 || yp < -1.01 || xp > w + 0.01 || yp > h + 0.01) { ++out; if (bg == 0) REQ(c, gv == bc, "background pixel (%d,%d) is %g not %d", x, y, gv, bc); else if (bg == 1) { double v0 = 1e300, v1 = -1e300; for (int a = -1; a <= 2; ++a) for (int z = -1; z <= 2; ++z) { double t = g.at(clampi((int)std::floor(xp) + a, w), clampi((int)std::floor(yp) + z, h)); v0 = std::min(v0, t); v1 = std::max(v1, t); } REQ(c, gv >= v0 - 1.01 && gv <= v1 + 0.6, "repeated background pixel (%d,%d) from (%.2f,%.2f) is %g expected %g..%g", x, y, xp, yp, gv, v0, v1); } continue; }
        if (xp < mar || yp < mar || xp > w - 1 - mar || yp > h - 1 - mar) continue; ++in; if (!flat) { double v = b0 + gx * xp + gy * yp; if (b0 + gx * 0 + gy * 0 < 6 || b0 + gx * w < 6 || b0 + gy * h < 6 || b0 + gx * w + gy * h < 6 || b0 > 249 || b0 + gx * w > 249 || b0 + gy * h > 249 || b0 + gx * w + gy * h > 249) continue; REQ(c, gv >= v - 11 && gv <= v + 3, "warped pixel (%d,%d) from (%.2f,%.2f) is %g expected %.2f", x, y, xp, yp, gv, v); c.ev("affine_gradient_px"); } }
    if (exact_copy && q.tilt_angle == 0 && q.planar_angle == 0 && q.scale == 1) for (int y = 3; y < h - 3; ++y) for (int x = 3; x < w - 3; ++x) { double X = F[0] * x + F[2] * y + F[4], Y = F[1] * x + F[3] * y + F[5]; if (X == std::floor(X) && Y == std::floor(Y)) { REQ(c, std::fabs(get(o, (int)X, (int)Y) - p.at(x, y)) <= 3, "identity warp moved (%d,%d): %g expected %g", x, y, get(o, (int)X, (int)Y), p.at(x, y)); c.ev("affine_identity_px"); } }
    c.ev("affine_inside_px", in); c.ev("affine_outside_px", out); nx_affine_warp_processor_free(wp); destroy(m);
}
// A plane wave keeps its phase, and its amplitude drops by what the documented anti-aliasing (along the tilt, then for scales above one) and the post blur remove.
static void affine_wave(Ctx &c) {
    auto &r = c.rng; int w = r.i(110, 190), h = r.i(110, 190); NXAffineWarpParam q; q.scale = r.coin(1, 4) ? 1 : r.uni(0.6, 2); q.planar_angle = r.coin(1, 4) ? 0 : r.uni(-4, 4); q.tilt = r.coin(1, 4) ? 1 : r.uni(1, 2.5); q.tilt_angle = r.coin(1, 4) ? 0 : r.uni(-4, 4); float pb = r.coin() ? 0 : (float)r.uni(0.4, 1.5); double per = r.uni(8, 20), dir = r.uni(0, 2 * M_PI), ph = r.uni(0, 2 * M_PI), k[2] = {2 * M_PI / per * cos(dir), 2 * M_PI / per * sin(dir)};
    double ct = cos(q.tilt_angle), st = sin(q.tilt_angle), cp = cos(q.planar_angle), sp = sin(q.planar_angle); double A[4] = {ct / q.tilt, -st / q.tilt, st, ct}, k1[2] = {ct * k[0] - st * k[1], st * k[0] + ct * k[1]}, k2[2] = {k1[0] * q.tilt, k1[1]}, k3[2] = {(cp * k2[0] - sp * k2[1]) / q.scale, (sp * k2[0] + cp * k2[1]) / q.scale}; (void)A; // the wave vector in the frame of each stage
    double s1 = q.tilt > 1 ? 0.8 * std::sqrt(q.tilt * q.tilt - 1) : 0, s2 = q.scale > 1 ? 0.8 * std::sqrt(q.scale * q.scale - 1) : 0; if (std::fabs(k2[0]) > 1.2 || std::hypot(k3[0], k3[1]) > 1.2) { c.skip(); return; } double att = exp(-0.5 * (s1 * s1 * k1[0] * k1[0] + s2 * s2 * (k2[0] * k2[0] + k2[1] * k2[1]) + pb * pb * (k3[0] * k3[0] + k3[1] * k3[1]))), lo = cos(k[0] / 2) * cos(k[1] / 2) * cos(k1[0] / 2) * cos(k1[1] / 2) * cos(k2[0] / 2) * cos(k2[1] / 2);
    c.desc("wave %dx%d period %.3g direction %.3g scale %g angle %g tilt %g tilt angle %g blur %g", w, h, per, dir, q.scale, q.planar_angle, q.tilt, q.tilt_angle, pb); c.mixb(&q, sizeof q); c.mixb(k, sizeof k); Px p(w, h, 1, false); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.at(x, y) = (float)std::round(128 + 110 * cos(k[0] * x + k[1] * y + ph)); Img m = make(r, p); NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); nx_affine_warp_processor_set_post_blur_sigma(wp, pb); { int bg = r.i(0, 2); if (bg == 0) nx_affine_warp_processor_set_bg_fixed(wp, (uchar)r.i(0, 255)); else if (bg == 1) nx_affine_warp_processor_set_bg_repeat(wp); else nx_affine_warp_processor_set_bg_noise(wp); } nx_affine_warp_processor_warp(wp, m.i, q); const NXImage *o = nx_affine_warp_processor_warp_result(wp); const double *I = nx_affine_warp_processor_inverse_transform(wp); double tm = std::max(1.0, q.tilt), mar = 4 + 4 * s1 + 4 * s2 * tm + 4 * pb * tm / q.scale + 2 * tm / std::min(1.0, q.scale);
    double N[3][4] = {{0}}; int n = 0; for (int y = 0; y < o->height; ++y) for (int x = 0; x < o->width; ++x) { double xp = I[0] * x + I[2] * y + I[4], yp = I[1] * x + I[3] * y + I[5]; if (xp < mar || yp < mar || xp > w - 1 - mar || yp > h - 1 - mar) continue; double a = k[0] * xp + k[1] * yp + ph, b[3] = {1, cos(a), sin(a)}; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) N[i][j] += b[i] * b[j]; N[i][3] += b[i] * get(o, x, y); } ++n; }
    if (n > 1500) { for (int i = 0; i < 3; ++i) { for (int j = i + 1; j < 3; ++j) { double f = N[j][i] / N[i][i]; for (int z = i; z < 4; ++z) N[j][z] -= f * N[i][z]; } } double s[3]; for (int i = 2; i >= 0; --i) { s[i] = N[i][3]; for (int j = i + 1; j < 3; ++j) s[i] -= N[i][j] * s[j]; s[i] /= N[i][i]; } double amp = std::hypot(s[1], s[2]); c.nt(); c.ev("affine_wave");
        REQ(c, s[0] >= 121 && s[0] <= 129.5, "mean %g of a wave around 128", s[0]); REQ(c, amp >= 110 * att * lo * 0.95 - 2 && amp <= 110 * att * 1.04 + 2, "amplitude of a wave is %g expected %g..%g", amp, 110 * att * lo, 110 * att); if (amp > 8) REQ(c, std::fabs(std::atan2(s[2], s[1])) <= 0.02 + 0.5 / amp, "a wave is shifted by %g rad", std::atan2(s[2], s[1])); if (att < 0.7) c.ev("affine_wave_attenuated"); }
    nx_affine_warp_processor_free(wp); destroy(m);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"scale", scale, 3000, 50000}, {"updown", updown, 5000, 80000}, {"pyramid", pyramid, 1500, 25000}, {"warp", warp, 4000, 60000}, {"rot45", rot45, 1500, 20000}, {"affine", affine, 1500, 20000}, {"affine_wave", affine_wave, 400, 8000}}); }
