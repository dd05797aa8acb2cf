#include "img.hpp"
#include "virg/nexus/vg_image.hpp"
using namespace vh; using namespace vi; using namespace virg::nexus;
struct Buf { unsigned char *p; size_t n; bool given; std::string snap; };
struct M { NXImage *i = nullptr; Px p; bool known = true; int buf = -1; };
static void history(Ctx &c) {
    auto &r = c.rng; std::vector<M> im(3); std::vector<Buf> bufs; int steps = r.i(3, c.thorough ? 60 : 30); for (auto &m : im) m.i = nx_image_alloc();
    auto refill = [&](M &m) { m.p = random_px(r, m.i->width, m.i->height, m.i->n_channels, m.i->dtype == NX_IMAGE_FLOAT32, -3, 3); fill(m.i, m.p); fill_padding(r, m.i); };
    auto left = [&](M &m) { if (m.buf >= 0 && (unsigned char *)m.i->mem->ptr != bufs[m.buf].p) m.buf = -1; };
    auto snapall = [&]() { for (auto &b : bufs) b.snap.assign((char *)b.p, b.n); };
    for (int s = 0; s < steps; ++s) {
        int a = r.i(0, 2), b = (a + r.i(1, 2)) % 3; M &m = im[a], &o = im[b]; bool nc4 = r.coin(), f = r.coin(); auto ty = nc4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; auto dt = f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR; int nc = nc4 ? 4 : 1, w = dim(r, 20, 400), h = dim(r, 20, 400), op = r.i(0, 13); snapall();
        auto untouched = [&](int skip, const char *what) { for (int k = 0; k < (int)bufs.size(); ++k) if (k != skip) REQ(c, bufs[k].snap == std::string((char *)bufs[k].p, bufs[k].n), "%s changed borrowed memory of another image", what); };
        c.desc("%d:%d ", op, a); c.mix(op * 10 + a);
        switch (op) {
        case 0: { if (m.i) { nx_image_free(m.i); } untouched(-1, "free"); switch (r.i(0, 7)) { case 0: m.i = nx_image_new(w, h, ty, dt); break; case 1: m.i = nx_image_new_gray(w, h, dt); nc = 1; break; case 2: m.i = nx_image_new_rgba(w, h, dt); nc = 4; break; case 3: m.i = nx_image_new_gray_uc(w, h); nc = 1; f = false; break; case 4: m.i = nx_image_new_rgba_uc(w, h); nc = 4; f = false; break; case 5: m.i = nx_image_new_gray_f32(w, h); nc = 1; f = true; break; case 6: m.i = nx_image_new_rgba_f32(w, h); nc = 4; f = true; break; default: if (!o.p.w) { m.i = nx_image_new(w, h, ty, dt); break; } m.i = nx_image_new_like(o.i); w = o.p.w; h = o.p.h; nc = o.p.nc; f = o.p.f32; } m.buf = -1; geom(c, m.i, w, h, nc, f, "new image"); REQ(c, m.i->row_stride == w * nc, "new image: row stride %d", m.i->row_stride); refill(m); break; }
        case 1: case 2: case 3: { int st = r.coin() ? NX_IMAGE_STRIDE_DEFAULT : r.coin(1, 4) ? r.i(0, w) : w * nc + r.i(0, 12); nx_image_resize(m.i, w, h, st, ty, dt); untouched(-1, "resize"); left(m); geom(c, m.i, w, h, nc, f, "resize"); { int es = std::max(st, w * nc); REQ(c, m.i->row_stride == es, "resize: row stride %d requested %d", m.i->row_stride, es); } refill(m); break; }
        case 4: { if (!o.p.w) break; nx_image_resize_like(m.i, o.i); untouched(-1, "resize_like"); left(m); geom(c, m.i, o.p.w, o.p.h, o.p.nc, o.p.f32, "resize_like"); REQ(c, m.i->row_stride == o.p.w * o.p.nc, "resize_like: row stride %d", m.i->row_stride); refill(m); break; }
        case 5: { if (!o.p.w) break; nx_image_copy(m.i, o.i); left(m); untouched(m.buf, "copy"); geom(c, m.i, o.p.w, o.p.h, o.p.nc, o.p.f32, "copy"); REQ(c, m.i->data.v != o.i->data.v, "copy shares storage"); m.p = o.p; break; }
        case 6: { if (!o.p.w) break; NXImage *n = nx_image_copy0(o.i); nx_image_free(m.i); m.i = n; m.buf = -1; untouched(-1, "copy0"); geom(c, m.i, o.p.w, o.p.h, o.p.nc, o.p.f32, "copy0"); m.p = o.p; break; }
        case 7: { void *d0 = m.i->data.v, *d1 = o.i->data.v; int s0 = m.i->row_stride, s1 = o.i->row_stride; nx_image_swap(m.i, o.i); std::swap(m.p, o.p); std::swap(m.buf, o.buf); REQ(c, m.i->data.v == d1 && o.i->data.v == d0 && m.i->row_stride == s1 && o.i->row_stride == s0, "swap did not exchange storage"); untouched(-1, "swap"); break; }
        case 8: { if (r.coin(1, 3)) { int zw = r.coin() ? 0 : w, zh = zw ? 0 : r.coin() ? 0 : h; nx_image_resize(m.i, zw, zh, NX_IMAGE_STRIDE_DEFAULT, ty, dt); REQ(c, m.i->width == zw && m.i->height == zh, "resize to %dx%d", zw, zh); untouched(-1, "resize to nothing"); } nx_image_release(m.i); REQ(c, m.i->width == 0 && m.i->height == 0 && m.i->data.v == nullptr, "release leaves %dx%d", m.i->width, m.i->height); REQ(c, m.i->type == NX_IMAGE_GRAYSCALE && m.i->n_channels == 1 && m.i->dtype == NX_IMAGE_UCHAR && m.i->row_stride == 0, "release leaves a %d channel image of type %d, stride %d", m.i->n_channels, (int)m.i->type, m.i->row_stride); m.p = Px(0, 0, 1, false); m.buf = -1; untouched(-1, "release"); break; }
        case 9: case 10: { int st = w * nc + r.i(0, 10); size_t sz = (size_t)st * h * (f ? 4 : 1); bool own = r.coin(); unsigned char *p = own ? (unsigned char *)nx_xmalloc(sz) : (unsigned char *)malloc(sz); for (size_t k = 0; k < sz; ++k) p[k] = (unsigned char)r.next(); std::string before((char *)p, sz); if (r.coin(1, 3)) { VGImage v(m.i, false); auto vt = nc4 ? VGImage::RGBA : VGImage::GRAYSCALE; auto vd = f ? VGImage::FLOAT32 : VGImage::UCHAR; if (f) v.wrap<float>((float *)p, w, h, st, vt, vd, own); else v.wrap<uchar>(p, w, h, st, vt, vd, own); } else nx_image_wrap(m.i, p, w, h, st, ty, dt, own ? NX_TRUE : NX_FALSE); untouched(-1, "wrap"); REQ(c, before == std::string((char *)p, sz), "wrapping changed the memory"); REQ(c, m.i->data.v == p && m.i->row_stride == st, "wrapped image does not use the memory"); geom(c, m.i, w, h, nc, f, "wrap"); m.buf = -1; if (!own) { bufs.push_back({p, sz, false, ""}); m.buf = (int)bufs.size() - 1; } refill(m); c.ev(own ? "wrap_owned" : "wrap_borrowed"); break; }
        case 11: { if (!m.p.w) break; nx_image_set_zero(m.i); untouched(m.buf, "set_zero"); for (auto &v : m.p.v) v = 0; break; }
        case 12: { if (!m.p.w) break; nx_image_resize(m.i, m.i->width, m.i->height, m.i->row_stride, m.i->type, m.i->dtype); untouched(-1, "resize to the same geometry"); break; }
        case 13: { if (!o.p.w) break; VGImage vo(o.i, false); VGImage cl; switch (r.i(0, 4)) { case 4: { VGImage z; if (r.coin()) { z.wrap(o.i, false); REQ(c, z.nx_img() == o.i, "wrapper does not refer to the image it was given"); z = z.clone(); } else { NXImage *n = nx_image_copy0(o.i); z.wrap(n, true); REQ(c, z.nx_img() == n, "wrapper does not refer to the image it was given"); } cl = z; REQ(c, cl.nx_img() == z.nx_img(), "copied wrapper refers to another image"); break; } case 0: cl = vo.clone(); break; case 1: cl.create_like(vo); REQ(c, cl.width() == vo.width() && cl.height() == vo.height() && cl.row_stride() == vo.row_stride() && cl.type() == vo.type() && cl.data_type() == vo.data_type(), "an image created like a %dx%d one with stride %d is %dx%d with stride %d", vo.width(), vo.height(), vo.row_stride(), cl.width(), cl.height(), cl.row_stride()); cl.copy_of(vo); break; case 2: { VGImage t; t.copy_of(vo); cl.create_gray(3, 3, VGImage::UCHAR); cl.swap_with(t); REQ(c, t.width() == 3 && t.height() == 3, "swapped wrapper size"); t.release(); REQ(c, t.width() == 0 && t.nx_img()->data.v == nullptr, "released wrapper"); break; } default: { cl.create(r.i(1, 30), r.i(1, 30), r.i(0, 200), VGImage::RGBA, VGImage::FLOAT32); cl.copy_of(vo); cl.copy_of(cl); } } REQ(c, cl.width() == o.p.w && cl.height() == o.p.h && cl.n_channels() == o.p.nc && (cl.type() == VGImage::RGBA) == (o.p.nc == 4) && (cl.data_type() == VGImage::FLOAT32) == o.p.f32, "wrapper copy geometry"); REQ(c, pixels(cl.nx_img()).v == o.p.v, "wrapper copy content"); const VGImage &kl = cl; for (int y = 0; y < o.p.h; ++y) { if (o.p.f32) { float *e = cl.nx_img()->data.f32 + y * cl.nx_img()->row_stride; REQ(c, cl.data<float>(y) == e && kl.data<float>(y) == e && cl.data<float>() == cl.nx_img()->data.f32 && kl.data<float>() == cl.data<float>(), "row pointer"); } else { uchar *e = cl.nx_img()->data.uc + y * cl.nx_img()->row_stride; REQ(c, cl.data<uchar>(y) == e && kl.data<uchar>(y) == e && cl.data<uchar>() == cl.nx_img()->data.uc && kl.data<uchar>() == cl.data<uchar>(), "row pointer"); } } cl.set_zero(); for (double z : pixels(cl.nx_img()).v) REQ(c, z == 0, "wrapper set_zero left %g", z); untouched(-1, "wrapper operations"); break; }
        }
        for (int k = 0; k < 3; ++k) { M &q = im[k]; REQ(c, q.i->width == q.p.w && q.i->height == q.p.h, "image %d: size %dx%d expected %dx%d", k, q.i->width, q.i->height, q.p.w, q.p.h); if (!q.p.w) continue; geom(c, q.i, q.p.w, q.p.h, q.p.nc, q.p.f32, "after operation"); Px g = pixels(q.i); for (size_t z = 0; z < g.v.size(); ++z) REQ(c, g.v[z] == q.p.v[z], "image %d after op %d: pixel %zu is %g expected %g", k, op, z, g.v[z], q.p.v[z]); }
        c.ev("image_op");
    }
    if (steps > 3) c.nt(); for (auto &m : im) nx_image_free(m.i);
    for (auto &b : bufs) { memset(b.p, 0x11, b.n); free(b.p); } // a double free here means borrowed memory was freed
}
static void huge(Ctx &c) {
    static const int d[][3] = {{65536, 65536, 1}, {46341, 46341, 1}, {1 << 20, 4096, 1}, {50000, 50000, 4}, {600000000, 8, 4}, {1 << 30, 2, 1}, {-5, 3, 1}, {3, -5, 1}, {INT_MAX, INT_MAX, 4}, {100000, 100000, 1}};
    int k = (int)(c.case_id % 10); int w = d[k][0], h = d[k][1], nc = d[k][2]; bool f = c.rng.coin(); c.desc("resize to %dx%dx%d float %d", w, h, nc, f); c.mix(k * 2 + f); c.nt();
    Outcome o = fork_run([&] { NXImage *i = nx_image_alloc(); nx_image_resize(i, w, h, NX_IMAGE_STRIDE_DEFAULT, nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR); long double need = (long double)w * nc * h * (f ? 4 : 1); _exit(w >= 0 && h >= 0 && i->row_stride >= 0 && (long double)i->mem->capacity >= need ? 0 : 3); });
    REQ(c, (o.kind == FATAL) || ((o.kind == RETURNED || o.kind == EXITED) && o.code == 0), "resize to %dx%d, %d channels: storage smaller than the image (%s %d) %s", w, h, nc, kind_name(o.kind), o.code, o.err.substr(0, 300).c_str()); c.ev(o.kind == FATAL ? "huge_rejected" : "huge_allocated");
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"history", history, 8000, 200000}, {"huge", huge, 20, 20}}); }
