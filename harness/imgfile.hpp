// Reference image files: written with libpng/libjpeg directly (or by hand for PNM), with the pixels they denote.
#pragma once
#include "img.hpp"
#include <png.h>
extern "C" {
#include <jpeglib.h>
}
namespace vf {
using vh::Rng; using vh::Ctx;
// what a file denotes: gray or RGBA, 8 bit
struct File { std::string bytes, what; vi::Px px; bool lossy = false; bool alpha_dropped = false; };
inline void png_w(png_structp p, png_bytep d, png_size_t n) { ((std::string *)png_get_io_ptr(p))->append((const char *)d, n); }
inline void png_f(png_structp) {}
// kinds: gray depth 1,2,4,8,16 (optional tRNS), GA 8/16, RGB 8/16 (optional tRNS), RGBA 8/16, palette 1..8 (optional tRNS); interlaced or not
inline File make_png(Rng &r, int w, int h) {
    File f; int kind = r.i(0, 4); static const int ct[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_PALETTE}; static const int nch[] = {1, 2, 3, 4, 1};
    int depth = 8; if (kind == 0) { static const int d[] = {1, 2, 4, 8, 8, 16}; depth = d[r.i(0, 5)]; } else if (kind == 4) { static const int d[] = {1, 2, 4, 8}; depth = d[r.i(0, 3)]; } else depth = r.coin(1, 3) ? 16 : 8;
    bool lace = r.coin(1, 3), trns = (kind == 0 || kind == 2 || kind == 4) && r.coin(1, 3); int nc = nch[kind], maxv = (1 << depth) - 1, npal = kind == 4 ? r.i(1, 1 << depth) : 0; png_color pal[256]; png_byte pa[256]; int npa = npal ? r.i(1, npal) : 0; for (int i = 0; i < 256; ++i) { pal[i].red = (png_byte)r.next(); pal[i].green = (png_byte)r.next(); pal[i].blue = (png_byte)r.next(); pa[i] = (png_byte)r.next(); }
    std::vector<int> s((size_t)w * h * nc); int style = r.i(0, 2); for (size_t k = 0; k < s.size(); ++k) { int hi = npal ? npal - 1 : maxv; s[k] = style == 0 ? r.i(0, hi) : style == 1 ? (r.coin() ? 0 : hi) : (int)((k * 37) % (size_t)(hi + 1)); }
    png_color_16 tc; memset(&tc, 0, sizeof tc); if (trns && !npal) { size_t k = (size_t)r.i(0, w * h - 1) * nc; if (nc == 1) tc.gray = (png_uint_16)s[k]; else tc.red = (png_uint_16)s[k], tc.green = (png_uint_16)s[k + 1], tc.blue = (png_uint_16)s[k + 2]; }
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop in = png_create_info_struct(p); png_set_write_fn(p, &f.bytes, png_w, png_f); png_set_IHDR(p, in, w, h, depth, ct[kind], lace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); if (npal) png_set_PLTE(p, in, pal, npal); if (trns) { if (npal) png_set_tRNS(p, in, pa, npa, nullptr); else png_set_tRNS(p, in, nullptr, 0, &tc); } png_write_info(p, in);
    int rb = (w * nc * depth + 7) / 8; std::vector<std::vector<png_byte>> rows(h, std::vector<png_byte>(rb)); std::vector<png_bytep> rp(h); for (int y = 0; y < h; ++y) { rp[y] = rows[y].data(); for (int x = 0; x < w * nc; ++x) { int v = s[(size_t)y * w * nc + x]; if (depth == 16) rp[y][2 * x] = (png_byte)(v >> 8), rp[y][2 * x + 1] = (png_byte)v; else if (depth == 8) rp[y][x] = (png_byte)v; else rp[y][x * depth / 8] |= (png_byte)(v << (8 - depth - (x * depth) % 8)); } }
    png_write_image(p, rp.data()); png_write_end(p, in); png_destroy_write_struct(&p, &in);
    bool gray = kind <= 1; f.px = vi::Px(w, h, gray ? 1 : 4, false); f.alpha_dropped = kind == 1; auto to8 = [&](int v) { return depth == 16 ? v >> 8 : depth == 8 ? v : v * 255 / maxv; };
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int *q = &s[((size_t)y * w + x) * nc]; if (gray) f.px.at(x, y) = (float)to8(q[0]); else if (kind == 4) { f.px.at(x, y, 0) = pal[q[0]].red; f.px.at(x, y, 1) = pal[q[0]].green; f.px.at(x, y, 2) = pal[q[0]].blue; f.px.at(x, y, 3) = trns && q[0] < npa ? pa[q[0]] : 255; } else { for (int c = 0; c < 3; ++c) f.px.at(x, y, c) = (float)to8(q[c]); f.px.at(x, y, 3) = kind == 3 ? (float)to8(q[3]) : trns && q[0] == tc.red && q[1] == tc.green && q[2] == tc.blue ? 0.f : 255.f; } }
    // gray with a transparent level: the alpha of the RGBA form is recorded separately by the caller through gray_key
    static const char *nm[] = {"gray", "gray+alpha", "rgb", "rgba", "palette"}; f.what = vh::fmt("png_%s%d%s%s", nm[kind], depth, lace ? "_interlaced" : "", trns ? "_trns" : ""); if (gray && trns) f.what += "*"; return f;
}
inline std::string jpeg_bytes(Rng &r, int w, int h, int nc, const std::vector<unsigned char> &s, J_COLOR_SPACE cs, bool prog, bool sub, int q) {
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char *out = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n); c.image_width = w; c.image_height = h; c.input_components = nc; c.in_color_space = cs; jpeg_set_defaults(&c); jpeg_set_quality(&c, q, TRUE); if (!sub && nc == 3) c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1; if (prog) jpeg_simple_progression(&c); c.restart_interval = r.coin(1, 4) ? r.i(1, 4) : 0; c.optimize_coding = r.coin() ? TRUE : FALSE; jpeg_start_compress(&c, TRUE);
    while (c.next_scanline < c.image_height) { JSAMPROW row = (JSAMPROW)&s[(size_t)c.next_scanline * w * nc]; jpeg_write_scanlines(&c, &row, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c); std::string b((char *)out, n); free(out); return b;
}
// reference decoder: nc 0 = native (1 or 3)
inline vi::Px jpeg_pixels(const std::string &b, int nc) {
    jpeg_decompress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_decompress(&c); jpeg_mem_src(&c, (unsigned char *)b.data(), b.size()); jpeg_read_header(&c, TRUE); if (nc == 0) nc = c.num_components == 1 ? 1 : 3; c.out_color_space = nc == 1 ? JCS_GRAYSCALE : JCS_RGB; jpeg_start_decompress(&c); vi::Px p(c.output_width, c.output_height, nc == 1 ? 1 : 4, false); std::vector<unsigned char> row((size_t)p.w * nc); unsigned char *rp = row.data(); for (int y = 0; y < p.h; ++y) { jpeg_read_scanlines(&c, &rp, 1); for (int x = 0; x < p.w; ++x) { for (int k = 0; k < nc; ++k) p.at(x, y, k) = row[(size_t)x * nc + k]; if (nc == 3) p.at(x, y, 3) = 255; } } jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); return p;
}
inline std::vector<unsigned char> samples(Rng &r, int w, int h, int nc) { std::vector<unsigned char> s((size_t)w * h * nc); int st = r.i(0, 2); for (size_t k = 0; k < s.size(); ++k) s[k] = st == 0 ? (unsigned char)r.next() : st == 1 ? (unsigned char)(40 + (k * 3) % 150) : (unsigned char)(r.coin() ? 0 : 255); return s; }
inline File make_jpeg(Rng &r, int w, int h) { File f; bool gray = r.coin(), prog = r.coin(1, 3), sub = r.coin(); int q = r.i(30, 100); f.bytes = jpeg_bytes(r, w, h, gray ? 1 : 3, samples(r, w, h, gray ? 1 : 3), gray ? JCS_GRAYSCALE : JCS_RGB, prog, sub, q); f.px = jpeg_pixels(f.bytes, 0); f.lossy = true; f.what = vh::fmt("jpeg_%s%s%s", gray ? "gray" : "rgb", prog ? "_progressive" : "", sub ? "" : "_444"); return f; }
// conforming PNM header: any whitespace, comments before and between the attributes, one whitespace byte before the pixels
inline std::string ws(Rng &r, bool comments) { std::string s; int n = r.i(1, 3); for (int i = 0; i < n; ++i) { s += "\n \t\r\n"[r.i(0, 4)]; if (comments && r.coin(1, 3)) { s += '#'; int k = r.i(0, 12); for (int j = 0; j < k; ++j) s += "ab #12 P5\t9"[r.i(0, 10)]; if (r.coin(1, 30)) s += std::string(400, 'x'); s += '\n'; } } return s; }
inline File make_pnm(Rng &r, int w, int h) { File f; bool gray = r.coin(), com = r.coin(); f.px = vi::random_px(r, w, h, gray ? 1 : 4, false); if (r.coin(1, 3)) for (auto &v : f.px.v) v = (float)"\n #09\x0b\r "[r.i(0, 7)]; std::string b = gray ? "P5" : "P6"; b += ws(r, com); b += std::to_string(w); b += ws(r, com); b += std::to_string(h); b += ws(r, com); b += "255"; b += "\n \t\r"[r.i(0, 3)]; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (gray) b += (char)(unsigned char)f.px.at(x, y); else { for (int k = 0; k < 3; ++k) b += (char)(unsigned char)f.px.at(x, y, k); f.px.at(x, y, 3) = 255; } } f.bytes = b; f.what = vh::fmt("pnm_%s%s", gray ? "gray" : "rgb", com ? "_comments" : ""); return f; }
inline File make_any(Rng &r, int w, int h) { switch (r.i(0, 2)) { case 0: return make_png(r, w, h); case 1: return make_jpeg(r, w, h); default: return make_pnm(r, w, h); } }
} // namespace vf
