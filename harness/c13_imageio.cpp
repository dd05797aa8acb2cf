#include "imgfile.hpp"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_log.h"
using namespace vh; using namespace vi; using namespace virg::nexus;
static NXImage *dest(Rng &r, int w, int h, void **buf) { *buf = nullptr; NXImage *d = nx_image_alloc(); switch (r.i(0, 4)) { case 0: break; case 1: nx_image_resize(d, r.i(1, 60), r.i(1, 60), r.coin() ? -1 : 300, r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break; case 2: nx_image_resize(d, w, h, -1, r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break; case 3: nx_image_resize(d, w, h, 4 * w + r.i(0, 9), r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break; default: { int st = 4 * w + r.i(0, 5); *buf = malloc((size_t)st * h); nx_image_wrap(d, *buf, w, h, st, r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR, NX_FALSE); } } if (d->data.v && d->mem->size) memset(d->data.v, r.i(0, 255), (size_t)d->row_stride * d->height); return d; }
static const char *mname(int m) { static const char *n[] = {"grayscale", "rgba", "as_is"}; return n[m]; }
static const NXImageLoadMode MODE[] = {NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA, NX_IMAGE_LOAD_AS_IS};
// load through a random entry point; fails the case on a refusal
static void load(Ctx &c, NXImage *d, const std::string &path, int mode, int fmt) {
    auto &r = c.rng; NXImageLoadMode m = MODE[mode]; bool ok = true; std::string msg; int e = r.i(0, 5); auto vm = mode == 0 ? VGImage::LOAD_GRAYSCALE : mode == 1 ? VGImage::LOAD_RGBA : VGImage::LOAD_AS_IS;
    bool ret = returns(c, [&] { switch (e) { case 5: { VGImage v(d, false); v.xload(path, vm); break; } case 0: ok = nx_image_load(d, path.c_str(), m) == NX_OK; break; case 1: nx_image_xload(d, path.c_str(), m); break; case 2: { VGImage v(d, false); ok = v.load(path, mode == 0 ? VGImage::LOAD_GRAYSCALE : mode == 1 ? VGImage::LOAD_RGBA : VGImage::LOAD_AS_IS); break; } case 3: ok = (fmt == 0 ? nx_image_load_pnm(d, path.c_str(), m) : fmt == 1 ? nx_image_load_png(d, path.c_str(), m) : nx_image_load_jpeg(d, path.c_str(), m)) == NX_OK; break; default: if (fmt == 0) nx_image_xload_pnm(d, path.c_str(), m); else if (fmt == 1) nx_image_xload_png(d, path.c_str(), m); else nx_image_xload_jpeg(d, path.c_str(), m); } }, &msg);
    REQ(c, ret && ok, "loading a conforming file in mode %s failed (entry %d): %s", mname(mode), e, msg.c_str());
}
static void save(Ctx &c, NXImage *s, const std::string &path, int fmt) {
    auto &r = c.rng; bool ok = true; std::string msg; int e = r.i(0, 5);
    bool ret = returns(c, [&] { switch (e) { case 5: { VGImage v(s, false); v.xsave(path); break; } case 0: ok = nx_image_save(s, path.c_str()) == NX_OK; break; case 1: nx_image_xsave(s, path.c_str()); break; case 2: { VGImage v(s, false); ok = v.save(path); break; } case 3: ok = (fmt == 0 ? nx_image_save_pnm(s, path.c_str()) : fmt == 1 ? nx_image_save_png(s, path.c_str()) : nx_image_save_jpeg(s, path.c_str())) == NX_OK; break; default: if (fmt == 0) nx_image_xsave_pnm(s, path.c_str()); else if (fmt == 1) nx_image_xsave_png(s, path.c_str()); else nx_image_xsave_jpeg(s, path.c_str()); } }, &msg);
    REQ(c, ret && ok, "saving failed (entry %d): %s", e, msg.c_str());
}
// p: pixels the file denotes; checks d loaded in the given mode.  gtol: tolerance of the luma
static void check(Ctx &c, const NXImage *d, const Px &p, int mode, double tol, double glo, double ghi, bool key, double wr, double wg, double wb) {
    int nc = mode == 0 ? 1 : mode == 1 ? 4 : p.nc; geom(c, d, p.w, p.h, nc, false, "loaded");
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) {
        if (nc == p.nc) { for (int k = 0; k < nc; ++k) REQ(c, std::fabs(get(d, x, y, k) - p.at(x, y, k)) <= tol, "loaded (%s) pixel (%d,%d) channel %d is %g expected %g", mname(mode), x, y, k, get(d, x, y, k), p.at(x, y, k)); }
        else if (nc == 4) { for (int k = 0; k < 3; ++k) REQ(c, std::fabs(get(d, x, y, k) - p.at(x, y)) <= tol, "replicated pixel (%d,%d) channel %d is %g expected %g", x, y, k, get(d, x, y, k), p.at(x, y)); REQ(c, get(d, x, y, 3) == 255 || (key && get(d, x, y, 3) == 0), "alpha of replicated pixel (%d,%d) is %g", x, y, get(d, x, y, 3)); }
        else { double e = wr * p.at(x, y, 0) + wg * p.at(x, y, 1) + wb * p.at(x, y, 2); REQ(c, get(d, x, y) >= e - glo && get(d, x, y) <= e + ghi, "gray value of pixel (%d,%d) is %g expected %g (rgb %g %g %g)", x, y, get(d, x, y), e, p.at(x, y, 0), p.at(x, y, 1), p.at(x, y, 2)); }
    } c.ev("pixels_compared", (uint64_t)p.w * p.h);
}
static void roundtrip(Ctx &c) {
    auto &r = c.rng; int fmt = r.i(0, 1); int nc = r.coin() ? 1 : 4; Px p = random_px(r, dim(r, 40), dim(r, 40), nc, false); if (r.coin(1, 40)) p = random_px(r, r.i(200, 700), r.i(1, 5), nc, false); mixpx(c, p); if (p.w * p.h > 1) c.nt(); static const char *ext[2][5] = {{".ppm", ".pgm", ".PPM", ".PGM", ".dat"}, {".png", ".PNG", ".png", ".png", ".a.png"}}; std::string path = scratch() + "/img" + ext[fmt][r.i(0, 4)]; int mode = r.i(0, 2); c.desc("%s %dx%d channels %d, load %s", path.substr(path.rfind('/')).c_str(), p.w, p.h, nc, mname(mode)); c.ev(fmt ? "roundtrip_png" : "roundtrip_pnm");
    Img m = make(r, p); std::string b = raw(m.i); save(c, m.i, path, fmt); REQ(c, raw(m.i) == b, "saving changed the image"); void *buf; NXImage *d = dest(r, p.w, p.h, &buf); load(c, d, path, mode, fmt); if (fmt == 0 && nc == 4) for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) p.at(x, y, 3) = 255; check(c, d, p, mode, 0, 1.02, 1.02, false, .3, .59, .11);
    nx_image_free(d); free(buf); destroy(m); unlink(path.c_str());
}
// 2. JPEG: gray images of any content, color images with slowly varying color, both at the default quality
static void jpeg(Ctx &c) {
    auto &r = c.rng; int nc = r.coin() ? 1 : 4; int w = dim(r, 48), h = dim(r, 48); Px p = random_px(r, w, h, nc, false); double cx[3], cy[3], b[3]; for (int k = 0; k < 3; ++k) cx[k] = r.uni(-1.5, 1.5), cy[k] = r.uni(-1.5, 1.5), b[k] = r.uni(60, 200); if (nc == 4) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { for (int k = 0; k < 3; ++k) p.at(x, y, k) = (float)std::floor(std::min(235.0, std::max(20.0, b[k] + cx[k] * x + cy[k] * y))); p.at(x, y, 3) = (float)r.i(0, 255); }
    mixpx(c, p); if (w * h > 1) c.nt(); static const char *ext[] = {".jpg", ".jpeg", ".JPG", ".JPEG"}; std::string path = scratch() + "/img" + ext[r.i(0, 3)]; int mode = r.i(0, 2); c.desc("jpeg %dx%d channels %d, load %s", w, h, nc, mname(mode)); c.ev("roundtrip_jpeg"); Img m = make(r, p); std::string bb = raw(m.i); save(c, m.i, path, 2); REQ(c, raw(m.i) == bb, "saving changed the image"); void *buf; NXImage *d = dest(r, w, h, &buf); load(c, d, path, mode, 2); if (nc == 4) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.at(x, y, 3) = 255; check(c, d, p, mode, nc == 1 ? 4 : 9, 6, 6, false, .299, .587, .114);
    nx_image_free(d); free(buf); destroy(m); unlink(path.c_str());
}
// 3. files written by other tools
static void foreign(Ctx &c) {
    auto &r = c.rng; int fmt = r.i(0, 2), w = dim(r, 34), h = dim(r, 34); vf::File f = fmt == 0 ? vf::make_pnm(r, w, h) : fmt == 1 ? vf::make_png(r, w, h) : vf::make_jpeg(r, w, h); bool key = f.what.back() == '*'; int mode = r.i(0, 2); c.desc("%s %dx%d, load %s", f.what.c_str(), w, h, mname(mode)); c.mixb(f.bytes.data(), f.bytes.size()); c.mix(mode); if (w * h > 1) c.nt(); c.ev(f.what.substr(0, f.what.find('_', 5)).c_str()); std::string path = scratch() + "/f" + (r.coin() ? ".bin" : fmt == 0 ? ".ppm" : fmt == 1 ? ".png" : ".jpg"); write_file(path, f.bytes.data(), f.bytes.size()); void *buf; NXImage *d = dest(r, w, h, &buf); load(c, d, path, mode, fmt);
    if (fmt == 2) { Px e = mode == 0 ? vf::jpeg_pixels(f.bytes, 1) : f.px; check(c, d, e, mode, 0, 0, 0, false, 0, 0, 0); } else check(c, d, f.px, mode, 0, 1.52, 1.52, key, .3, .59, .11);
    REQ(c, nx_image_file_format_from_header(path.c_str()) == (fmt == 0 ? NX_IMAGE_FILE_FORMAT_PNM_BINARY : fmt == 1 ? NX_IMAGE_FILE_FORMAT_PNG : NX_IMAGE_FILE_FORMAT_JPEG), "wrong file format detected"); nx_image_free(d); free(buf); unlink(path.c_str());
}
// 4. several saves and loads through the same image objects
static void history(Ctx &c) {
    auto &r = c.rng; NXImage *d = nx_image_alloc(); int n = r.i(2, c.thorough ? 14 : 7); c.desc("history of %d", n); c.nt(); std::string path = scratch() + "/h"; Px last; bool have = false;
    for (int k = 0; k < n; ++k) { int fmt = r.i(0, 1), mode = r.i(0, 2); std::string q = path + std::to_string(k % 2) + (fmt ? ".png" : ".ppm"); Px p; if (have && r.coin()) { // re-save what was loaded
                p = last; save(c, d, q, fmt); c.ev("resaved"); } else { p = random_px(r, dim(r, 20), dim(r, 20), r.coin() ? 1 : 4, false); Img m = make(r, p); save(c, m.i, q, fmt); destroy(m); }
        if (fmt == 0 && p.nc == 4) for (size_t z = 3; z < p.v.size(); z += 4) p.v[z] = 255; c.mix(fmt * 3 + mode); mixpx(c, p); load(c, d, q, mode, fmt); check(c, d, p, mode, 0, 1.02, 1.02, false, .3, .59, .11); last = pixels(d); have = true; c.ev("history_step"); }
    nx_image_free(d);
}
// 9. the kind of a file: told by its first bytes, or by its name
static void kinds(Ctx &c) {
    auto &r = c.rng; std::string b; int n = r.i(0, 12); for (int i = 0; i < n; ++i) b.push_back((char)r.next()); static const std::string mg[] = {"P1", "P2", "P3", "P4", "P5", "P6", "P7", "P0", "p5", "\xff\xd8", "\xff\xd9", "\xfe\xd8", "\x89PNG", "\x89PNF", "\x89\x50\x4e", "\x88PNG", "P"}; if (r.coin(5, 6)) { const std::string &m = mg[r.i(0, 16)]; b = m + b; } if (b.size() >= 4 && r.coin(1, 3)) { b[r.i(0, 3)] = (char)r.next(); if (r.coin()) b[r.i(0, 3)] = (char)r.next(); } if (r.coin(1, 3)) b += "   \n";
    std::string path = scratch() + "/kind"; FILE *f = fopen(path.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); c.mixb(b.data(), b.size()); c.nt(); c.desc("first bytes %s", vh::escape(b).c_str());
    NXImageFileFormat e = NX_IMAGE_FILE_FORMAT_UNKNOWN; if (b.size() >= 4) { if (b[0] == 'P' && b[1] >= '4' && b[1] <= '6') e = NX_IMAGE_FILE_FORMAT_PNM_BINARY; else if (b[0] == 'P' && b[1] >= '1' && b[1] <= '3') e = NX_IMAGE_FILE_FORMAT_PNM_ASCII; else if ((uint8_t)b[0] == 0xff && (uint8_t)b[1] == 0xd8) e = NX_IMAGE_FILE_FORMAT_JPEG; else if (b.compare(0, 4, "\x89PNG") == 0) e = NX_IMAGE_FILE_FORMAT_PNG; }
    NXImageFileFormat g = nx_image_file_format_from_header(path.c_str()); REQ(c, g == e, "a file beginning %s is taken for kind %d, not %d", vh::escape(b).c_str(), (int)g, (int)e); unlink(path.c_str());
    static const struct { const char *x; NXImageFileFormat f; } ex[] = {{".pgm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PGM", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".ppm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PPM", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".jpg", NX_IMAGE_FILE_FORMAT_JPEG}, {".jpeg", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPG", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPEG", NX_IMAGE_FILE_FORMAT_JPEG}, {".png", NX_IMAGE_FILE_FORMAT_PNG}, {".PNG", NX_IMAGE_FILE_FORMAT_PNG}, {".gif", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".pn", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".pngx", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {"", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {"png", NX_IMAGE_FILE_FORMAT_UNKNOWN}};
    auto &x = ex[r.i(0, 14)]; std::string nm = r.coin(1, 6) ? "" : r.coin() ? "a.tar" : r.coin() ? "d.png/x" : "image"; bool dotless = !strchr(x.x, '.'); if (dotless && nm.find('.') != std::string::npos) nm = "image"; std::string fn = nm + x.x; NXImageFileFormat gf = nx_image_file_format_from_filename(fn.c_str()); REQ(c, gf == x.f, "name '%s' is taken for kind %d, not %d", fn.c_str(), (int)gf, (int)x.f); c.ev("file_kinds");
}
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"roundtrip", roundtrip, 3000, 60000}, {"kinds", kinds, 3000, 60000}, {"jpeg", jpeg, 1200, 20000}, {"foreign", foreign, 4000, 80000}, {"history", history, 800, 15000}}); }
