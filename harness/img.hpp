// Image workload helpers: random geometry, padded and borrowed storage with garbage padding, pixel models.
#pragma once
#include "vh.hpp"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_alloc.h"
namespace vi {
using vh::Rng; using vh::Ctx;
struct Px { int w = 0, h = 0, nc = 1; bool f32 = false; std::vector<float> v; // nc-interleaved, exact values
    float &at(int x, int y, int c = 0) { return v[((size_t)y * w + x) * nc + c]; }
    float at(int x, int y, int c = 0) const { return v[((size_t)y * w + x) * nc + c]; }
    Px() {} Px(int w_, int h_, int nc_, bool f) : w(w_), h(h_), nc(nc_), f32(f), v((size_t)w_ * h_ * nc_) {}
};
inline float get(const NXImage *i, int x, int y, int c = 0) { size_t o = (size_t)y * i->row_stride + (size_t)x * i->n_channels + c; return i->dtype == NX_IMAGE_UCHAR ? (float)i->data.uc[o] : i->data.f32[o]; }
inline void put(NXImage *i, int x, int y, int c, float v) { size_t o = (size_t)y * i->row_stride + (size_t)x * i->n_channels + c; if (i->dtype == NX_IMAGE_UCHAR) i->data.uc[o] = (uchar)v; else i->data.f32[o] = v; }
inline Px pixels(const NXImage *i) { Px p(i->width, i->height, i->n_channels, i->dtype == NX_IMAGE_FLOAT32); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < p.nc; ++c) p.at(x, y, c) = get(i, x, y, c); return p; }
// content styles
inline Px random_px(Rng &r, int w, int h, int nc, bool f32, double lo = 0, double hi = 1) {
    Px p(w, h, nc, f32); int style = r.i(0, 6); double gx = r.uni(-3, 3), gy = r.uni(-3, 3), b = r.uni(0, 255); double fx = r.uni(0.02, 1.2), fy = r.uni(0.02, 1.2);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < nc; ++c) { double v; switch (style) {
        case 0: v = b; break; case 1: v = b + gx * x + gy * y + 7 * c; break; case 2: v = r.coin() ? 0 : 255; break; case 3: v = 127.5 + 120 * std::sin(fx * x + c) * std::cos(fy * y); break; case 4: v = r.coin(1, 12) ? 255 : 0; break; default: v = r.i(0, 255); }
        if (f32) { v = lo + (hi - lo) * (v / 255.0); if (style == 6) v = r.uni(lo, hi); p.at(x, y, c) = (float)v; } else p.at(x, y, c) = (float)(int)std::min(255.0, std::max(0.0, v)); }
    return p;
}
inline void fill(NXImage *i, const Px &p) { for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < p.nc; ++c) put(i, x, y, c, p.at(x, y, c)); }
// garbage between the rows; every operation must ignore it
inline void fill_padding(Rng &r, NXImage *i) { int used = i->width * i->n_channels; for (int y = 0; y < i->height; ++y) for (int k = used; k < i->row_stride; ++k) { size_t o = (size_t)y * i->row_stride + k; if (i->dtype == NX_IMAGE_UCHAR) i->data.uc[o] = (uchar)r.next(); else i->data.f32[o] = r.coin(1, 8) ? NAN : (float)r.uni(-1e6, 1e6); } }
// An image holding p. kind 0: default stride, 1: padded stride, 2: borrowed exact-size buffer whose last row has no padding allocated
struct Img { NXImage *i = nullptr; void *buf = nullptr; std::vector<unsigned char> shadow; };
inline Img make(Rng &r, const Px &p, int kind = -1) {
    Img m; if (kind < 0) kind = r.i(0, 2); m.i = nx_image_alloc(); auto type = p.nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; auto dt = p.f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR; int row = p.w * p.nc;
    if (kind == 0) nx_image_resize(m.i, p.w, p.h, NX_IMAGE_STRIDE_DEFAULT, type, dt);
    else if (kind == 1) nx_image_resize(m.i, p.w, p.h, row + (r.coin(1, 12) ? r.i(10, 30 + 8 * row) : r.i(1, 9)), type, dt);
    else { int st = row + (r.coin(1, 12) ? r.i(10, 30 + 8 * row) : r.i(0, 9)); size_t sz = (size_t)st * p.h * (p.f32 ? 4 : 1); m.buf = malloc(sz ? sz : 1); nx_image_wrap(m.i, m.buf, p.w, p.h, st, type, dt, NX_FALSE); }
    fill_padding(r, m.i); fill(m.i, p); return m;
}
inline void destroy(Img &m) { nx_image_free(m.i); free(m.buf); m.i = nullptr; m.buf = nullptr; }
inline std::string raw(const NXImage *i) { size_t n = (size_t)i->row_stride * i->height * (i->dtype == NX_IMAGE_UCHAR ? 1 : 4); return std::string((const char *)i->data.v, n); }
// a destination in a random earlier state
inline NXImage *dirty_dest(Rng &r) { NXImage *d = nx_image_alloc(); int k = r.i(0, 3); if (k) { nx_image_resize(d, r.i(1, 60), r.i(1, 60), r.coin() ? -1 : r.i(1, 300), r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, r.coin() ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32); memset(d->data.v, r.i(0, 255), d->mem->size); } return d; }
inline int dim(Rng &r, int max = 48, int big = 700) { if (big > max && r.coin(1, 50)) return r.logsize(max, big); switch (r.i(0, 5)) { case 0: return r.i(1, 3); case 1: return r.i(1, 8); case 2: return max; default: return r.i(1, max); } }
inline void mixpx(Ctx &c, const Px &p) { c.mix(p.w * 7919 + p.h * 31 + p.nc * 2 + p.f32); c.mixb(p.v.data(), p.v.size() * 4); }
inline void geom(Ctx &c, const NXImage *i, int w, int h, int nc, bool f32, const char *what) {
    REQ(c, i->width == w && i->height == h, "%s: size %dx%d expected %dx%d", what, i->width, i->height, w, h);
    REQ(c, (i->type == NX_IMAGE_RGBA) == (nc == 4) && i->n_channels == nc, "%s: type %d channels %d expected %d channels", what, (int)i->type, i->n_channels, nc);
    REQ(c, (i->dtype == NX_IMAGE_FLOAT32) == f32, "%s: data type %d", what, (int)i->dtype);
    REQ(c, i->row_stride >= w * nc, "%s: row stride %d shorter than the row %d", what, i->row_stride, w * nc);
    if (w && h) { REQ(c, i->data.v != nullptr, "%s: no storage", what); REQ(c, (void *)i->mem->ptr == i->data.v, "%s: data pointer does not point to the storage", what); REQ(c, i->mem->capacity >= i->mem->size && i->mem->size >= ((size_t)i->row_stride * (h - 1) + (size_t)w * nc) * (f32 ? 4 : 1), "%s: storage of %zu bytes too small for %dx%d", what, i->mem->size, w, h); }
}
} // namespace vi
