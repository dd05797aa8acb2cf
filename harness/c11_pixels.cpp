#include "img.hpp"
#include "ref_color_maps.hpp"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_colorspace.h"
using namespace vh; using namespace vi; using namespace virg::nexus;
typedef std::vector<double> VD;
static void same_src(Ctx &c, const Img &s, const std::string &before, const char *what) { REQ(c, raw(s.i) == before, "%s changed its source", what); }
static std::string padding(const NXImage *i) { std::string r, a = raw(i); size_t b = i->dtype == NX_IMAGE_UCHAR ? 1 : 4; size_t used = (size_t)i->width * i->n_channels * b, st = (size_t)i->row_stride * b; for (int y = 0; y < i->height; ++y) r += a.substr(y * st + used, st - used); return r; }
static void begin(Ctx &c, const Px &p, const char *op) { c.desc("%s %dx%dx%d %s", op, p.w, p.h, p.nc, p.f32 ? "float" : "uchar"); mixpx(c, p); if (p.w * p.h > 1) c.nt(); c.ev(op); }
static double fmaxabs(const Px &p) { double m = 0; for (float v : p.v) m = std::max(m, (double)std::fabs(v)); return m; }
static Px src(Ctx &c, int nc, bool f, double lo = 0, double hi = 1, int mx = 48) { auto &r = c.rng; return random_px(r, dim(r, mx), dim(r, mx), nc, f, lo, hi); }
// ---- conversions
static void types(Ctx &c) {
    auto &r = c.rng; int nc = r.coin() ? 1 : 4; bool f = r.coin(); Px p = src(c, nc, f); begin(c, p, nc == 1 ? "gray_to_rgba" : "rgba_to_gray"); Img s = make(r, p); auto t = nc == 1 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; bool wrapper = r.coin(1, 4);
    auto chk = [&](const Px &g, const char *how) { for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) if (nc == 1) { for (int k = 0; k < 3; ++k) REQ(c, g.at(x, y, k) == p.at(x, y), "%s: channel %d at (%d,%d) is %g not the gray value %g", how, k, x, y, g.at(x, y, k), p.at(x, y)); REQ(c, g.at(x, y, 3) == (f ? 1.f : 255.f), "%s: alpha %g", how, g.at(x, y, 3)); } else { double e = 0.3 * p.at(x, y, 0) + 0.59 * p.at(x, y, 1) + 0.11 * p.at(x, y, 2); if (f) REQ(c, near(g.at(x, y), std::max(0.0, std::min(1.0, e)), 2e-6), "%s: gray %g expected %g at (%d,%d)", how, g.at(x, y), e, x, y); else REQ(c, std::fabs(g.at(x, y) - e) <= 1.001, "%s: gray %g expected %g at (%d,%d)", how, g.at(x, y), e, x, y); } };
    // raw row interface, exact-size padded destination
    { int dn = nc == 1 ? 4 : 1, ds = p.w * dn + r.i(0, 5); Px d(ds, p.h, 1, f); if (f) { std::vector<float> o((size_t)ds * p.h, -77.f); if (nc == 1) nx_convert_gray_to_rgba_f32(p.w, p.h, o.data(), ds, s.i->data.f32, s.i->row_stride); else nx_convert_rgba_to_gray_f32(p.w, p.h, o.data(), ds, s.i->data.f32, s.i->row_stride); Px g(p.w, p.h, dn, f); for (int y = 0; y < p.h; ++y) for (int k = 0; k < ds; ++k) if (k < p.w * dn) g.v[(size_t)y * p.w * dn + k] = o[(size_t)y * ds + k]; else REQ(c, o[(size_t)y * ds + k] == -77.f, "row conversion wrote into the padding"); chk(g, "rows"); } else { std::vector<uchar> o((size_t)ds * p.h, 77); if (nc == 1) nx_convert_gray_to_rgba_uc(p.w, p.h, o.data(), ds, s.i->data.uc, s.i->row_stride); else nx_convert_rgba_to_gray_uc(p.w, p.h, o.data(), ds, s.i->data.uc, s.i->row_stride); Px g(p.w, p.h, dn, f); for (int y = 0; y < p.h; ++y) for (int k = 0; k < ds; ++k) if (k < p.w * dn) g.v[(size_t)y * p.w * dn + k] = o[(size_t)y * ds + k]; else REQ(c, o[(size_t)y * ds + k] == 77, "row conversion wrote into the padding"); chk(g, "rows"); } }
    if (wrapper) { VGImage v(s.i, false); v.convert_type_to(nc == 1 ? VGImage::RGBA : VGImage::GRAYSCALE); } else nx_image_convert_type(s.i, t);
    geom(c, s.i, p.w, p.h, nc == 1 ? 4 : 1, f, "converted"); chk(pixels(s.i), "image"); Px g = pixels(s.i); nx_image_convert_type(s.i, t); REQ(c, pixels(s.i).v == g.v, "converting to the same type changed pixels"); destroy(s);
}
static void dtypes(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = src(c, 1, f, r.coin() ? -2 : 0, r.coin() ? 3 : 1); if (f && r.coin(1, 3)) { static const float sp[] = {0.f, 1.f, 1e30f, -1e30f, INFINITY, -INFINITY, 256.f, -0.0f, 0.999999f, 1.0001f, 1e-30f, 8.5e6f}; for (auto &v : p.v) if (r.coin(1, 4)) v = sp[r.i(0, 11)]; } begin(c, p, f ? "float_to_uchar" : "uchar_to_float"); Img s = make(r, p); std::string b = raw(s.i); NXImage *d = dirty_dest(r); bool same = r.coin(1, 5); nx_image_resize(d, r.i(1, 9), r.i(1, 9), -1, r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, (f != same) ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32); nx_image_convert_dtype(d, s.i); same_src(c, s, b, "conversion"); geom(c, d, p.w, p.h, 1, same ? f : !f, "converted");
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double v = p.at(x, y), g = get(d, x, y); if (same) REQ(c, g == v, "copy at (%d,%d)", x, y); else if (!f) REQ(c, near(g, v / 255.0, 1e-6), "%g becomes %g", v, g); else REQ(c, std::fabs(g - std::min(255.0, std::max(0.0, v * 255.0))) <= 1.001, "%g becomes %g", v, g); } nx_image_free(d); destroy(s);
}
static void colormap(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = src(c, 1, f, r.coin() ? 0 : -0.5, r.coin() ? 1 : 1.5); if (!f && r.coin()) { p = Px(32, 8, 1, false); for (int k = 0; k < 256; ++k) p.v[k] = k; } int map = r.i(0, 4); begin(c, p, "colormap"); c.mix(map); Img s = make(r, p); std::string b = raw(s.i); NXImage *d = dirty_dest(r);
    static float (*tab[])[3] = {nullptr, ref_map_viridis, ref_map_plasma, ref_map_magma, ref_map_cubehelix}; static const int n[] = {0, ref_map_viridis_size, ref_map_plasma_size, ref_map_magma_size, ref_map_cubehelix_size};
    if (r.coin(1, 4)) { VGImage vd(d, false), vs(s.i, false), t; t.apply_colormap(vd, vs, (VGColorMap::Type)map); } else nx_image_apply_colormap(d, s.i, (NXColorMap)map); same_src(c, s, b, "colormap"); geom(c, d, p.w, p.h, 4, false, "colored");
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { double v = f ? p.at(x, y) : p.at(x, y) / 255.0; v = std::min(1.0, std::max(0.0, v)); for (int k = 0; k < 3; ++k) { double e; if (!map) e = v; else { double q = (n[map] - 1) * v; int i = std::min((int)q, n[map] - 2); double a = q - i; e = (1 - a) * tab[map][i][k] + a * tab[map][i + 1][k]; } REQ(c, std::fabs(get(d, x, y, k) - e * 255) <= 1.01, "map %d channel %d of value %g is %g expected %g", map, k, v, get(d, x, y, k), e * 255); } REQ(c, get(d, x, y, 3) == 255, "alpha"); } nx_image_free(d); destroy(s);
}
// ---- arithmetic
static void axpy(Ctx &c) {
    auto &r = c.rng; int nc = r.coin(1, 3) ? 4 : 1; bool f = r.coin(); Px p = src(c, nc, f, -5, 5); float a = (float)r.uni(-3, 3), y0 = (float)(f ? r.uni(-3, 3) : r.uni(-300, 300)); if (r.coin(1, 8)) a = r.coin() ? 0 : 1; if (r.coin(1, 10)) a *= 1e8f; if (r.coin(1, 10)) y0 *= 1e9f; begin(c, p, "axpy"); c.mixb(&a, 4); c.mixb(&y0, 4); Img s = make(r, p); std::string pad = padding(s.i); if (r.coin(1, 4)) { VGImage v(s.i, false); v.axpy(a, y0); } else nx_image_axpy(s.i, a, y0); geom(c, s.i, p.w, p.h, nc, f, "axpy"); REQ(c, padding(s.i) == pad, "axpy changed bytes outside the pixels"); Px g = pixels(s.i);
    for (size_t k = 0; k < g.v.size(); ++k) { double e = (double)a * p.v[k] + y0, sc = std::fabs((double)a * p.v[k]) + std::fabs((double)y0); if (f) REQ(c, near(g.v[k], e, 1e-6 * sc + 1e-30), "%g*%g+%g gives %g", a, p.v[k], y0, g.v[k]); else { e = std::min(255.0, std::max(0.0, e)); REQ(c, std::fabs(g.v[k] - e) <= 1.001 + 1e-6 * std::min(sc, 1e5), "%g*%g+%g gives %g", a, p.v[k], y0, g.v[k]); } } destroy(s);
}
static void normalize(Ctx &c) {
    auto &r = c.rng; int nc = r.coin(1, 3) ? 4 : 1; double m = std::pow(10, r.uni(-4, 5)); double lo = r.coin() ? -m : r.coin() ? m * 0.1 : -2 * m, hi = lo + m * r.uni(0.2, 3); Px p = src(c, nc, true, lo, hi); int st = r.i(0, 4); if (st == 0) { std::sort(p.v.begin(), p.v.end()); if (r.coin()) std::reverse(p.v.begin(), p.v.end()); } else if (st == 1) for (auto &v : p.v) v = p.v[0]; bool sym = r.coin(); begin(c, p, "normalize"); c.mix(sym); Img s = make(r, p); std::string pad = padding(s.i); if (r.coin(1, 4)) { VGImage v(s.i, false); v.normalize_to_zero_one(sym); } else nx_image_normalize_to_zero_one(s.i, sym ? NX_TRUE : NX_FALSE); REQ(c, padding(s.i) == pad, "normalize changed bytes outside the pixels"); geom(c, s.i, p.w, p.h, nc, true, "normalized"); Px g = pixels(s.i); double mn = *std::min_element(p.v.begin(), p.v.end()), mx = *std::max_element(p.v.begin(), p.v.end()); double t = std::max(std::fabs(mn), std::fabs(mx));
    for (size_t k = 0; k < g.v.size(); ++k) { double e, tol; if (mn == mx) { REQ(c, g.v[k] == 0 || (sym && near(g.v[k], t > 0 ? p.v[k] / (2 * t) + 0.5 : 0.5, 1e-5)), "constant image gives %g", g.v[k]); continue; } if (sym) { e = p.v[k] / (2 * t) + 0.5; tol = 1e-5; } else { e = (p.v[k] - mn) / (mx - mn); tol = 1e-5 + 4e-7 * t / (mx - mn); } REQ(c, near(g.v[k], e, tol) && g.v[k] >= 0 && g.v[k] <= 1, "value %g of range [%g,%g] becomes %g expected %g", p.v[k], mn, mx, g.v[k], e); } destroy(s);
}
static void subtract(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = src(c, 1, f, -5, 5), q = src(c, 1, f, -5, 5); if (r.coin()) q = random_px(r, p.w, p.h, 1, f, -5, 5); begin(c, p, "subtract"); mixpx(c, q); Img a = make(r, p), b = make(r, q); std::string ra = raw(a.i), rb = raw(b.i); NXImage *d = dirty_dest(r); nx_image_subtract(d, a.i, b.i); same_src(c, a, ra, "subtract"); same_src(c, b, rb, "subtract"); int w = std::min(p.w, q.w), h = std::min(p.h, q.h); geom(c, d, w, h, 1, true, "difference"); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) REQ(c, get(d, x, y) == p.at(x, y) - q.at(x, y), "difference at (%d,%d) is %g", x, y, get(d, x, y)); nx_image_free(d); destroy(a); destroy(b);
}
static void deriv(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(), dx = r.coin(); Px p = src(c, 1, f, -5, 5); begin(c, p, dx ? "deriv_x" : "deriv_y"); Img s = make(r, p); std::string b = raw(s.i); NXImage *d = dirty_dest(r); if (r.coin(1, 4)) { VGImage vd(d, false), vs(s.i, false); dx ? vd.deriv_x_of(vs) : vd.deriv_y_of(vs); } else dx ? nx_image_deriv_x(d, s.i) : nx_image_deriv_y(d, s.i); same_src(c, s, b, "derivative"); geom(c, d, p.w, p.h, 1, true, "derivative"); double S = f ? 1 : 255; int n = dx ? p.w : p.h;
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { int k = dx ? x : y; auto at = [&](int j) { return (double)(dx ? p.at(j, y) : p.at(x, j)); }; double e = n < 2 ? 0 : k == 0 ? 2 * (at(1) - at(0)) : k == n - 1 ? 2 * (at(n - 1) - at(n - 2)) : at(k + 1) - at(k - 1); REQ(c, near(get(d, x, y), e / S, 2e-6 * (f ? 10 : 1)), "derivative at (%d,%d) of %dx%d is %g expected %g", x, y, p.w, p.h, get(d, x, y), e / S); } nx_image_free(d); destroy(s);
}
// ---- filters
static VD gauss(double sigma, double tf) { int n = (int)(2.0 * (float)tf * (float)sigma + 1.0f); if (n % 2 == 0) ++n; n = std::max(n, 3); VD k(n / 2 + 1); double s = 0; for (size_t i = 0; i < k.size(); ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += (i ? 2 : 1) * k[i]; } for (auto &v : k) v /= s; return k; }
static VD conv(const VD &a, const VD &k) { int n = (int)a.size(); VD o(n); auto at = [&](int i) { return a[std::min(n - 1, std::max(0, i))]; }; for (int i = 0; i < n; ++i) { double s = k[0] * a[i]; for (int j = 1; j < (int)k.size(); ++j) s += k[j] * (at(i - j) + at(i + j)); o[i] = s; } return o; }
static std::vector<VD> sep(const Px &p, const VD &kx, const VD &ky) { std::vector<VD> o(p.h, VD(p.w)); for (int y = 0; y < p.h; ++y) { VD l(p.w); for (int x = 0; x < p.w; ++x) l[x] = p.at(x, y); o[y] = kx.empty() ? l : conv(l, kx); } if (!ky.empty()) for (int x = 0; x < p.w; ++x) { VD l(p.h); for (int y = 0; y < p.h; ++y) l[y] = o[y][x]; l = conv(l, ky); for (int y = 0; y < p.h; ++y) o[y][x] = l[y]; } return o; }
static void cmp(Ctx &c, const NXImage *d, const std::vector<VD> &e, bool f, int passes, double scale, const char *what) { for (int y = 0; y < d->height; ++y) for (int x = 0; x < d->width; ++x) { double g = get(d, x, y), v = e[y][x]; if (f) REQ(c, near(g, v, scale), "%s at (%d,%d) of %dx%d is %.9g expected %.9g", what, x, y, d->width, d->height, g, v); else REQ(c, g >= v - passes - 0.01 && g <= v + 0.51 * passes, "%s at (%d,%d) of %dx%d is %g expected %.5g", what, x, y, d->width, d->height, g, v); } }
static void smooth(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = src(c, 1, f, -2, 2, 30); float sx = (float)(r.coin() ? r.uni(0.3, 2) : r.uni(0.2, 6)), sy = r.coin() ? sx : (float)r.uni(0.3, 4), tf = (float)r.uni(1, 5); begin(c, p, "smooth"); c.desc(" sigma %g %g factor %g", sx, sy, tf); c.mixb(&sx, 4); c.mixb(&sy, 4); Img s = make(r, p); std::string b = raw(s.i); NXImage *d = dirty_dest(r); int a1, a2; bool own = r.coin(); float *buf = own ? nx_image_filter_buffer_alloc(p.w, p.h, sx, sy, tf, &a1, &a2) : nullptr; if (r.coin(1, 5)) { VGImage vd(d, false), vs(s.i, false); vd.smooth(vs, sx, sy, tf); } else nx_image_smooth(d, s.i, sx, sy, tf, buf); if (own) REQ(c, a1 % 2 == 1 && a2 % 2 == 1 && a1 >= 3 && a2 >= 3 && a1 == (int)gauss(sx, tf).size() * 2 - 1 && a2 == (int)gauss(sy, tf).size() * 2 - 1, "kernel sizes %d %d", a1, a2); same_src(c, s, b, "smoothing"); geom(c, d, p.w, p.h, 1, f, "smoothed"); auto e = sep(p, gauss(sx, tf), gauss(sy, tf)); cmp(c, d, e, f, 2, 2e-6 * std::max(1e-3, fmaxabs(p)) * 6, "smoothed value");
    std::string pad = padding(s.i); nx_image_smooth(s.i, s.i, sx, sy, tf, r.coin() ? buf : nullptr); REQ(c, pixels(s.i).v == pixels(d).v, "smoothing in place gives another result"); REQ(c, padding(s.i) == pad, "smoothing in place changed bytes outside the pixels"); nx_free(buf); nx_image_free(d); destroy(s);
}
static void box(Ctx &c) {
    auto &r = c.rng; bool f = r.coin(); Px p = src(c, 1, f, -2, 2, 30); int rx = r.i(1, r.coin() ? 3 : 12), ry = r.i(1, r.coin() ? 3 : 12), m = r.i(0, 2); begin(c, p, m == 0 ? "box_x" : m == 1 ? "box_y" : "box"); c.desc(" radius %d %d", rx, ry); c.mix(rx * 64 + ry); VD kx(rx + 1, 1.0 / (2 * rx + 1)), ky(ry + 1, 1.0 / (2 * ry + 1)); Img s = make(r, p); std::string b = raw(s.i); NXImage *d = dirty_dest(r); float *buf = r.coin() ? nx_filter_buffer_alloc(std::max(p.w, p.h), std::max(rx, ry)) : nullptr;
    auto run = [&](NXImage *o, const NXImage *i) { if (m == 0) nx_image_filter_box_x(o, i, rx, buf); else if (m == 1) nx_image_filter_box_y(o, i, ry, buf); else nx_image_filter_box(o, i, rx, ry, buf); };
    if (r.coin(1, 5)) { VGImage vd(d, false), vs(s.i, false); if (m == 0) vd.filter_box_x(vs, rx); else if (m == 1) vd.filter_box_y(vs, ry); else vd.filter_box(vs, rx, ry); } else run(d, s.i); same_src(c, s, b, "box filter"); geom(c, d, p.w, p.h, 1, f, "filtered"); auto e = sep(p, m == 1 ? VD() : kx, m == 0 ? VD() : ky); cmp(c, d, e, f, m == 2 ? 2 : 1, 1e-6 * std::max(1e-3, fmaxabs(p)) * (p.w + p.h + 30), "box sum");
    std::string pad = padding(s.i); run(s.i, s.i); REQ(c, pixels(s.i).v == pixels(d).v, "filtering in place gives another result"); REQ(c, padding(s.i) == pad, "filtering in place changed bytes outside the pixels"); nx_free(buf); nx_image_free(d); destroy(s);
}
static void line(Ctx &c) {
    auto &r = c.rng; int n = dim(r, 60, r.coin(1, 4) ? 5000 : 700), nb = r.i(1, r.coin() ? 5 : r.coin(1, 30) ? 200 : 30), st = r.coin() ? 1 : r.i(2, 7); auto mode = (NXBorderMode)r.i(0, 2); bool uc = r.coin(); VD a(n); std::vector<float> df((size_t)(n - 1) * st + 1); std::vector<uchar> du(df.size()); for (size_t i = 0; i < df.size(); ++i) { df[i] = (float)r.uni(-10, 10); du[i] = (uchar)r.next(); } for (int i = 0; i < n; ++i) a[i] = uc ? du[(size_t)i * st] : df[(size_t)i * st]; c.desc("line %d border %d stride %d mode %d uchar %d", n, nb, st, (int)mode, uc); c.mix(n * 1000 + nb * 10 + (int)mode); c.mixb(df.data(), df.size() * 4); if (n > 1) c.nt();
    std::vector<float> buf(n + 2 * nb, -555.f); if (uc) { if (st == 1 && r.coin()) nx_filter_copy_to_buffer1_uc(n, buf.data(), du.data(), nb, mode); else nx_filter_copy_to_buffer_uc(n, buf.data(), du.data(), st, nb, mode); } else { if (st == 1 && r.coin()) nx_filter_copy_to_buffer1(n, buf.data(), df.data(), nb, mode); else nx_filter_copy_to_buffer(n, buf.data(), df.data(), st, nb, mode); }
    VD e(n + 2 * nb); for (int i = 0; i < n + 2 * nb; ++i) { int j = i - nb; if (j >= 0 && j < n) e[i] = a[j]; else if (mode == NX_BORDER_ZERO) e[i] = 0; else if (mode == NX_BORDER_REPEAT) e[i] = a[j < 0 ? 0 : n - 1]; else { if (n == 1) j = 0; while (j < 0 || j >= n) j = j < 0 ? -j : 2 * (n - 1) - j; e[i] = a[j]; } REQ(c, buf[i] == (float)e[i], "bordered line position %d is %g expected %g", i - nb, buf[i], e[i]); } c.ev("border_line");
    std::vector<float> b2 = buf; if (r.coin()) { std::vector<float> k(nb + 1); for (auto &v : k) v = (float)r.uni(-1, 1); double ks = 0; for (auto v : k) ks += std::fabs(v); nx_convolve_sym(n, b2.data(), nb + 1, k.data()); for (int i = 0; i < n; ++i) { double s = k[0] * e[i + nb]; for (int j = 1; j <= nb; ++j) s += k[j] * (e[i + nb - j] + e[i + nb + j]); REQ(c, near(b2[i], s, 1e-6 * ks * 300 + 1e-6), "convolution at %d is %g expected %g", i, b2[i], s); } c.ev("convolve_sym"); } else { nx_convolve_box(n, b2.data(), nb); for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j <= 2 * nb; ++j) s += e[i + j]; REQ(c, near(b2[i], s / (2 * nb + 1), 2e-6 * 300 * (n + 2 * nb) / 20), "box convolution at %d is %g expected %g", i, b2[i], s / (2 * nb + 1)); } c.ev("convolve_box"); }
    float sg = (float)r.uni(0.2, 8), tf = (float)r.uni(0.5, 5); int ks = nx_kernel_size_gaussian(sg, tf); VD g = gauss(sg, tf); REQ(c, ks == 2 * (int)g.size() - 1, "kernel size %d for sigma %g factor %g expected %d", ks, sg, tf, 2 * (int)g.size() - 1); std::vector<float> kk(ks / 2 + 1); nx_kernel_sym_gaussian((int)kk.size(), kk.data(), sg); for (size_t i = 0; i < kk.size(); ++i) REQ(c, near(kk[i], g[i], 1e-6), "kernel element %zu is %g expected %g", i, kk[i], g[i]); c.ev("kernel");
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"types", types, 2500, 40000}, {"dtypes", dtypes, 3000, 50000}, {"colormap", colormap, 1200, 20000}, {"axpy", axpy, 3000, 50000}, {"normalize", normalize, 3000, 50000}, {"subtract", subtract, 2000, 30000}, {"deriv", deriv, 4000, 60000}, {"smooth", smooth, 3000, 50000}, {"box", box, 3000, 50000}, {"line", line, 8000, 150000}}); }
