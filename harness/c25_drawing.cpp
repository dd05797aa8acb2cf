// Drawing and plotting: what reaches the surface / the command stream is what was asked for.
#include "virg/nexus/vg_color.hpp"
#include "vh.hpp"
#include "img.hpp"
#include <cairo/cairo.h>
#include <cairo/cairo-pdf.h>
#include <cairo/cairo-svg.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/nx_gnuplot.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/vg_graphics_context.hpp"
#include "virg/nexus/vg_image_annotator.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
#include "virg/nexus/nx_uniform_sampler.h"
using namespace vh; using namespace virg::nexus;
static std::string slurp(const std::string &p) { std::string s; read_file(p, s); return s; }
// The reference drawing: cairo driven directly from the documented meaning of each call.
struct Ref { cairo_surface_t *s; cairo_t *c; bool swap; Ref(cairo_surface_t *sf, bool sw) : s(sf), c(cairo_create(sf)), swap(sw) { cairo_select_font_face(c, "sans-serif", CAIRO_FONT_SLANT_NORMAL, CAIRO_FONT_WEIGHT_NORMAL); cairo_set_antialias(c, CAIRO_ANTIALIAS_BEST); color(0, 0, 0, 1); } void color(double r, double g, double b, double a) { swap ? cairo_set_source_rgba(c, b, g, r, a) : cairo_set_source_rgba(c, r, g, b, a); } void finish() { if (!c) return; cairo_destroy(c); cairo_surface_finish(s); cairo_surface_destroy(s); c = 0; } ~Ref() { finish(); } };
// PDF files record their creation time: stop the clock they read.
extern "C" time_t time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }
struct Op { int k; double a[8]; std::string t; std::vector<double> d; };
static const char *opn[] = {"clear", "new_path", "stroke", "fill", "flush", "color", "width", "dash", "move_to", "line_to", "rel_move_to", "rel_line_to", "line", "rectangle", "arc", "circle", "curve_to", "rel_curve_to", "curve", "text", "text_size"};
static std::vector<Op> script(Rng &r, double w, double h, bool text) {
    std::vector<Op> v; int n = r.i(1, 30); bool cur = false; for (int i = 0; i < n; ++i) { Op o; o.k = r.i(0, 20); if (o.k == 0 && !r.coin(1, 4)) o.k = 2; if (o.k >= 19 && !text) o.k = 13; if ((o.k == 9 || o.k == 16) && !cur) o.k = 8; if ((o.k == 10 || o.k == 11 || o.k == 17) && !cur) o.k = 12; for (auto &q : o.a) q = r.coin(1, 3) ? (double)r.i(-3, (int)w + 3) : r.uni(-0.2 * w, 1.2 * std::max(w, h)); switch (o.k) { case 1: case 2: case 3: cur = false; break; case 5: for (int j = 0; j < 4; ++j) o.a[j] = r.coin(1, 3) ? r.i(0, 1) : r.u(); if (r.coin()) o.a[3] = 1; break; case 6: o.a[0] = r.uni(0.2, 6); break; case 7: for (int j = r.i(0, 3); j > 0; --j) o.d.push_back(r.uni(0.5, 6)); o.a[0] = r.uni(0, 4); break; case 10: case 11: case 17: for (auto &q : o.a) q = r.uni(-w / 2, w / 2); break; case 14: o.a[2] = r.uni(0, w); o.a[3] = r.uni(-7, 7); o.a[4] = r.uni(-7, 7); cur = true; break; case 15: o.a[2] = r.uni(0.1, w); cur = true; break; case 19: case 20: { int L = r.i(0, 8); for (int j = 0; j < L; ++j) o.t.push_back((char)r.i(33, 126)); o.a[2] = r.coin(1, 4) ? r.uni(0.5, 4) : r.uni(4, 20); cur = cur || o.k == 19; break; } case 8: case 9: case 12: case 13: case 16: case 18: cur = true; } v.push_back(o); } Op st; st.k = r.coin() ? 2 : 3; for (auto &q : st.a) q = 0; v.push_back(st); return v; }
static void describe(Ctx &c, const std::vector<Op> &v) { for (auto &o : v) { c.desc(" %s(", opn[o.k]); static const int na[] = {0, 0, 0, 0, 0, 4, 1, 1, 2, 2, 2, 2, 4, 4, 5, 3, 6, 6, 8, 3, 3}; for (int j = 0; j < na[o.k]; ++j) c.desc("%.6g,", o.a[j]); for (double d : o.d) c.desc("d%.4g,", d); if (!o.t.empty()) c.desc("'%s'", o.t.c_str()); c.desc(")"); c.mix(o.k); c.mixb(o.a, 8 * na[o.k]); } }
static void play(Ref &f, const Op &o, double *tw, double *th) { auto *c = f.c; auto a = o.a; switch (o.k) { case 0: cairo_paint(c); break; case 1: cairo_new_path(c); break; case 2: cairo_stroke(c); break; case 3: cairo_fill(c); break; case 4: cairo_surface_flush(f.s); break; case 5: f.color(a[0], a[1], a[2], a[3]); break; case 6: cairo_set_line_width(c, a[0]); break; case 7: cairo_set_dash(c, o.d.data(), (int)o.d.size(), a[0]); break; case 8: cairo_move_to(c, a[0], a[1]); break; case 9: cairo_line_to(c, a[0], a[1]); break; case 10: cairo_rel_move_to(c, a[0], a[1]); break; case 11: cairo_rel_line_to(c, a[0], a[1]); break; case 12: cairo_move_to(c, a[0], a[1]); cairo_line_to(c, a[2], a[3]); break; case 13: cairo_rectangle(c, a[0], a[1], a[2], a[3]); break; case 14: cairo_arc(c, a[0], a[1], a[2], a[3], a[4]); break; case 15: cairo_arc(c, a[0], a[1], a[2], 0, 2 * M_PI); break; case 16: cairo_curve_to(c, a[2], a[3], a[4], a[5], a[0], a[1]); break; case 17: cairo_rel_curve_to(c, a[2], a[3], a[4], a[5], a[0], a[1]); break; case 18: cairo_move_to(c, a[0], a[1]); cairo_curve_to(c, a[4], a[5], a[6], a[7], a[2], a[3]); break; case 19: cairo_set_font_size(c, a[2]); cairo_move_to(c, a[0], a[1]); cairo_show_text(c, o.t.c_str()); break; case 20: { cairo_text_extents_t e; cairo_set_font_size(c, a[2]); cairo_text_extents(c, o.t.c_str(), &e); *tw = e.width; *th = e.height; } } }
static void drive(NXGC *g, const Op &o, double *tw, double *th) { auto a = o.a; switch (o.k) { case 0: nx_gc_clear(g); break; case 1: nx_gc_new_path(g); break; case 2: nx_gc_stroke(g); break; case 3: nx_gc_fill(g); break; case 4: nx_gc_flush(g); break; case 5: nx_gc_set_color(g, a[0], a[1], a[2], a[3]); break; case 6: nx_gc_set_line_width(g, a[0]); break; case 7: { auto d = o.d; nx_gc_set_line_dash(g, (int)d.size(), d.data(), a[0]); break; } case 8: nx_gc_move_to(g, a[0], a[1]); break; case 9: nx_gc_line_to(g, a[0], a[1]); break; case 10: nx_gc_rel_move_to(g, a[0], a[1]); break; case 11: nx_gc_rel_line_to(g, a[0], a[1]); break; case 12: nx_gc_line(g, a[0], a[1], a[2], a[3]); break; case 13: nx_gc_rectangle(g, a[0], a[1], a[2], a[3]); break; case 14: nx_gc_arc(g, a[0], a[1], a[2], a[3], a[4]); break; case 15: nx_gc_circle(g, a[0], a[1], a[2]); break; case 16: nx_gc_curve_to(g, a[0], a[1], a[2], a[3], a[4], a[5]); break; case 17: nx_gc_rel_curve_to(g, a[0], a[1], a[2], a[3], a[4], a[5]); break; case 18: nx_gc_curve(g, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 19: nx_gc_draw_text(g, a[0], a[1], o.t.c_str(), a[2]); break; case 20: nx_gc_set_text_size(g, o.t.c_str(), a[2], tw, th); break; } }
static void drivepp(VGGraphicsContext &g, const Op &o, double *tw, double *th) { auto a = o.a; switch (o.k) { case 0: g.clear(); break; case 1: g.new_path(); break; case 2: g.stroke(); break; case 3: g.fill(); break; case 4: g.flush(); break; case 5: if (a[0] < 0.5) g.set_color(a[0], a[1], a[2], a[3]); else g.set_color(VGColor(a[0], a[1], a[2], a[3])); break; case 6: g.set_line_width(a[0]); break; case 7: { auto d = o.d; g.set_line_dash((int)d.size(), d.data(), a[0]); break; } case 8: g.move_to(a[0], a[1]); break; case 9: g.line_to(a[0], a[1]); break; case 10: g.rel_move_to(a[0], a[1]); break; case 11: g.rel_line_to(a[0], a[1]); break; case 12: g.line(a[0], a[1], a[2], a[3]); break; case 13: g.rectangle(a[0], a[1], a[2], a[3]); break; case 14: g.arc(a[0], a[1], a[2], a[3], a[4]); break; case 15: g.circle(a[0], a[1], a[2]); break; case 16: g.curve_to(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 17: g.rel_curve_to(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 18: g.curve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 19: g.draw_text(a[0], a[1], o.t, a[2]); break; case 20: g.set_text_size(o.t, a[2], tw, th); break; } }
typedef std::vector<unsigned char> Bytes;
static Bytes noise(Rng &r, size_t n) { Bytes b(n); int m = r.i(0, 2); for (size_t i = 0; i < n; ++i) b[i] = m == 0 ? 255 : i % 4 == 3 ? 255 : (unsigned char)r.next(); return b; }
// Compares w x h RGBA pixels (exact by default) and says where they differ.
static void same(Ctx &c, const char *what, const unsigned char *g, int gs, const unsigned char *e, int es, int w, int h, int slack = 0) { for (int y = 0; y < h; ++y) for (int x = 0; x < 4 * w; ++x) if (abs((int)g[(size_t)y * gs + x] - (int)e[(size_t)y * es + x]) > slack) REQ(c, false, "%s: channel %d of pixel (%d,%d) is %d, the requested drawing has %d", what, x % 4, x / 4, y, g[(size_t)y * gs + x], e[(size_t)y * es + x]); }
static void image(Ctx &c) {
    auto &r = c.rng; c.nt(); int w = r.i(1, 60), h = r.i(1, 60); int pad = r.coin() ? 0 : 4 * r.i(1, 5); int st = 4 * w + pad; Bytes mem = noise(r, (size_t)st * h), ref = mem, orig = mem; bool cpp = r.coin(1, 3); if (cpp) { pad = 0; st = 4 * w; mem = noise(r, (size_t)st * h); ref = orig = mem; } auto ops = script(r, w, h, r.coin(1, 10)); c.desc("%s image %dx%d stride %d:", cpp ? "C++" : "C", w, h, st); describe(c, ops); c.mix(w * 100 + h);
    double tw[2] = {-1, -1}, th[2] = {-1, -1}; { Ref f(cairo_image_surface_create_for_data(ref.data(), CAIRO_FORMAT_ARGB32, w, h, st), true); if (cpp) { VGImage im; im.create_rgba(w, h, VGImage::UCHAR); int is = im.row_stride(); (void)is; for (int y = 0; y < h; ++y) memcpy(im.data<uchar>(y), &mem[(size_t)y * st], 4 * w); { auto g = VGGraphicsContext::new_from_image(im); auto g2 = g; for (auto &o : ops) { auto &q = r.coin() ? g : g2; drivepp(q, o, &tw[0], &th[0]); play(f, o, &tw[1], &th[1]); } g.flush(); } f.finish(); for (int y = 0; y < h; ++y) memcpy(&mem[(size_t)y * st], im.data<uchar>(y), 4 * w); } else { NXImage *im = nx_image_alloc(); nx_image_wrap(im, mem.data(), w, h, st, NX_IMAGE_RGBA, NX_IMAGE_UCHAR, NX_FALSE); NXGC *g = nx_gc_new(im); for (auto &o : ops) { drive(g, o, &tw[0], &th[0]); play(f, o, &tw[1], &th[1]); REQ(c, tw[0] == tw[1] && th[0] == th[1], "text size (%g,%g) expected (%g,%g)", tw[0], th[0], tw[1], th[1]); } nx_gc_flush(g); bool late = r.coin(); if (late) { nx_gc_free(g); g = NULL; } f.finish(); same(c, "image", mem.data(), st, ref.data(), st, w, h); if (g) nx_gc_free(g); nx_image_free(im); } }
    same(c, "image", mem.data(), st, ref.data(), st, w, h); for (int y = 0; y < h; ++y) for (int x = 4 * w; x < st; ++x) REQ(c, mem[(size_t)y * st + x] == orig[(size_t)y * st + x], "padding byte of row %d written", y); c.ev("primitives", ops.size()); c.ev(mem == orig ? "pictures_unchanged" : "pictures_drawn");
}
// Definition without cairo: pixel-aligned opaque rectangles and full clears.
static void blocks(Ctx &c) {
    auto &r = c.rng; c.nt(); int w = r.i(1, 40), h = r.i(1, 40), st = 4 * w + (r.coin() ? 0 : 4 * r.i(1, 4)); Bytes mem = noise(r, (size_t)st * h), ref = mem; NXImage *im = nx_image_alloc(); nx_image_wrap(im, mem.data(), w, h, st, NX_IMAGE_RGBA, NX_IMAGE_UCHAR, NX_FALSE); NXGC *g = nx_gc_new(im); int n = r.i(1, 8); unsigned char col[3] = {0, 0, 0}; c.desc("%dx%d stride %d:", w, h, st); for (int i = 0; i < n; ++i) { if (r.coin()) { for (auto &q : col) q = (unsigned char)(51 * r.i(0, 5)); nx_gc_set_color(g, col[0] / 255.0, col[1] / 255.0, col[2] / 255.0, 1); c.desc(" color(%d,%d,%d)", col[0], col[1], col[2]); } int x = r.i(-2, w), y = r.i(-2, h), ww = r.i(1, w), hh = r.i(1, h); bool cl = r.coin(1, 8); if (cl) { nx_gc_clear(g); c.desc(" clear"); x = y = 0; ww = w; hh = h; } else { nx_gc_new_path(g); nx_gc_rectangle(g, x, y, ww, hh); nx_gc_fill(g); c.desc(" rect(%d,%d,%d,%d)", x, y, ww, hh); } c.mix(x * 64 + y); c.mix(ww * 64 + hh); for (int yy = std::max(0, y); yy < std::min(h, y + hh); ++yy) for (int xx = std::max(0, x); xx < std::min(w, x + ww); ++xx) { unsigned char *p = &ref[(size_t)yy * st + 4 * xx]; p[0] = col[0]; p[1] = col[1]; p[2] = col[2]; p[3] = 255; } } nx_gc_free(g); same(c, "blocks", mem.data(), st, ref.data(), st, w, h); for (int y = 0; y < h; ++y) for (int x = 4 * w; x < st; ++x) REQ(c, mem[(size_t)y * st + x] == ref[(size_t)y * st + x], "padding byte of row %d written", y); nx_image_free(im); c.ev("blocks", n);
}
static std::string strip(std::string s) { // creation time and surface numbering are not part of the drawing
    size_t p; while ((p = s.find("/CreationDate")) != std::string::npos) { size_t e = s.find('\n', p); s.erase(p, e - p); } std::string o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if ((s.compare(i, 7, "surface") == 0)) { o += s.substr(i + 1, 6); i += 6; while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) ++i; } } return o; }
static void vector(Ctx &c) {
    auto &r = c.rng; c.nt(); c.noleak = true; bool pdf = r.coin(), cpp = r.coin(); double w = r.coin() ? NX_GC_A4_WIDTH : r.uni(20, 400), h = r.coin() ? NX_GC_A4_HEIGHT : r.uni(20, 400); auto ops = script(r, w, h, false); c.desc("%s %gx%g:", pdf ? "pdf" : "svg", w, h); describe(c, ops); std::string a = scratch() + "/a.out", b = scratch() + "/b.out"; double q; auto mk = [&](const char *f) { return pdf ? cairo_pdf_surface_create(f, w, h) : cairo_svg_surface_create(f, w, h); }; { Ref f(mk(b.c_str()), false); for (auto &o : ops) play(f, o, &q, &q); } if (cpp) { auto g = pdf ? VGGraphicsContext::new_pdf(a, w, h) : VGGraphicsContext::new_svg(a, w, h); for (auto &o : ops) drivepp(g, o, &q, &q); } else { NXGC *g = pdf ? nx_gc_new_pdf(a.c_str(), w, h) : nx_gc_new_svg(a.c_str(), w, h); for (auto &o : ops) drive(g, o, &q, &q); nx_gc_free(g); } std::string x = strip(slurp(a)), y = strip(slurp(b)); REQ(c, x.size() > 50, "no drawing was written (%zu bytes)", x.size()); REQ(c, x == y, "the %s file differs from the requested drawing (%zu and %zu bytes)", pdf ? "pdf" : "svg", x.size(), y.size()); c.ev(pdf ? "pdf_files" : "svg_files"); c.ev("primitives", ops.size()); unlink(a.c_str()); unlink(b.c_str()); REQ(c, VGGraphicsContext::A4_WIDTH_IN_PTS == NX_GC_A4_WIDTH && fabs(VGGraphicsContext::A4_WIDTH_IN_PTS - 210 * 72 / 25.4) < 0.05 && fabs(VGGraphicsContext::A4_HEIGHT_IN_PTS - 297 * 72 / 25.4) < 0.05, "A4 is %g x %g points", VGGraphicsContext::A4_WIDTH_IN_PTS, VGGraphicsContext::A4_HEIGHT_IN_PTS);
    if (r.coin(1, 4)) { std::string bad = scratch() + "/missing/x.out"; std::string m; bool ret = returns(c, [&] { NXGC *g = pdf ? nx_gc_new_pdf(bad.c_str(), w, h) : nx_gc_new_svg(bad.c_str(), w, h); nx_gc_free(g); }, &m); REQ(c, !ret, "a drawing that cannot be created is not reported"); c.ev("unwritable_reported"); }
    if (r.coin(1, 40)) { Outcome o = fork_run([&] { nx_log_verbosity(NX_LOG_DEFAULT); NXGC *g = pdf ? nx_gc_new_pdf("/dev/full", w, h) : nx_gc_new_svg("/dev/full", w, h); for (auto &q2 : ops) { double z; drive(g, q2, &z, &z); } nx_gc_free(g); nx_log_verbosity(NX_LOG_SILENT); }, 20); REQ(c, o.kind == FATAL || ((o.kind == RETURNED || o.kind == EXITED) && !(o.err + o.out).empty()), "a drawing that could not be written is not reported (outcome %d)", (int)o.kind); c.ev("write_failure_reported"); } }
static void annotate(Ctx &c) {
    auto &r = c.rng; c.nt(); int w = r.i(2, 50), h = r.i(2, 50); bool rgba = r.coin(); VGImage im; if (rgba) im.create_rgba(w, h, VGImage::UCHAR); else im.create_gray(w, h, VGImage::UCHAR); Bytes ref((size_t)4 * w * h); int ch = rgba ? 4 : 1; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { uchar *p = im.data<uchar>(y) + ch * x; for (int k = 0; k < ch; ++k) p[k] = k == 3 ? 255 : (uchar)r.next(); for (int k = 0; k < 4; ++k) ref[4 * ((size_t)y * w + x) + k] = k == 3 ? 255 : rgba ? p[k] : p[0]; } auto src = ref; uint32_t seed = (uint32_t)r.next(); nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), seed); c.desc("%s %dx%d:", rgba ? "rgba" : "gray", w, h);
    { VGImageAnnotator an(im); if (r.coin(1, 3)) { VGImageAnnotator other(im); other.draw_roi(1, 1, 5, 5, 9, VGColor::blue()); an.draw_roi(0, 0, 3, 3, 9, VGColor::red()); an.set_image(im); } Ref f(cairo_image_surface_create_for_data(ref.data(), CAIRO_FORMAT_ARGB32, w, h, 4 * w), true); auto col = [&](const VGColor &k) { f.color(k.r(), k.g(), k.b(), k.a()); }; auto mark = [&](int t, double x, double y, double s, const VGColor &k) { col(k); cairo_set_line_width(f.c, 1.5); cairo_new_path(f.c); double q = s / 2; switch (t) { case 0: cairo_arc(f.c, x, y, q, 0, 2 * M_PI); break; case 1: cairo_rectangle(f.c, x - q, y - q, s, s); break; case 2: cairo_move_to(f.c, x, y - q); cairo_line_to(f.c, x + q, y); cairo_line_to(f.c, x, y + q); cairo_line_to(f.c, x - q, y); cairo_line_to(f.c, x, y - q); break; case 3: cairo_move_to(f.c, x, y - q); cairo_line_to(f.c, x, y + q); cairo_move_to(f.c, x - q, y); cairo_line_to(f.c, x + q, y); break; case 4: cairo_move_to(f.c, x - q, y - q); cairo_line_to(f.c, x + q, y + q); cairo_move_to(f.c, x + q, y - q); cairo_line_to(f.c, x - q, y + q); break; } cairo_stroke(f.c); }; auto edge = [&](double x, double y, double xe, double ye, double lw, const VGColor &k, int t, double ms) { col(k); cairo_set_line_width(f.c, lw); cairo_new_path(f.c); cairo_move_to(f.c, x, y); cairo_line_to(f.c, xe, ye); cairo_stroke(f.c); if (t >= 0) { mark(t, x, y, ms, k); mark(t, xe, ye, ms, k); } };
        int n = r.i(1, 8); for (int i = 0; i < n; ++i) { VGColor k(r.u(), r.u(), r.u(), r.coin() ? 1 : r.u()); double x = r.uni(-3, w + 3), y = r.uni(-3, h + 3), s = r.uni(0.5, w); c.mixb(&x, 8); switch (r.i(0, 4)) { case 0: { int t = r.i(-1, 4); c.desc(" mark %d (%.4g,%.4g) %.4g", t, x, y, s); an.draw_mark((VGImageAnnotator::MarkType)t, x, y, s, k); mark(t, x, y, s, k); break; } case 1: { int t = r.i(-1, 4); double xe = r.uni(0, w), ye = r.uni(0, h), lw = r.uni(0.5, 5); c.desc(" edge %d (%.4g,%.4g)-(%.4g,%.4g)", t, x, y, xe, ye); an.draw_edge(x, y, xe, ye, lw, k, (VGImageAnnotator::MarkType)t, s); edge(x, y, xe, ye, lw, k, t, s); break; } case 2: { double ww = r.uni(1, w), hh = r.uni(1, h), lw = r.uni(0.5, 4); c.desc(" roi (%.4g,%.4g) %.4gx%.4g", x, y, ww, hh); an.draw_roi(x, y, ww, hh, lw, k); col(k); cairo_set_line_width(f.c, lw); cairo_new_path(f.c); cairo_rectangle(f.c, x, y, ww, hh); cairo_stroke(f.c); break; } case 3: case 4: { std::vector<NXKeypoint> ks(r.i(1, 4)); bool single = r.coin(); for (auto &q : ks) { memset(&q, 0, sizeof q); q.level = r.i(0, 8); q.scale = (float)r.uni(1, 3); q.xs = (float)r.uni(0, w / 2.0); q.ys = (float)r.uni(0, h / 2.0); q.x = (int)q.xs; q.y = (int)q.ys; q.sigma = (float)r.uni(0.5, 3); } c.desc(" %zu keypoints", ks.size()); an.draw_keypoints((int)ks.size(), ks.data(), single); static const double lv[7][3] = {{1, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}}; for (auto &q : ks) { VGColor kc(1, 1, 1, 1); bool rnd = false; if (!single) { if (q.level < 7) kc = VGColor(lv[q.level][0], lv[q.level][1], lv[q.level][2], 1); else rnd = true; } if (rnd) { c.ev("random_colored"); } mark(0, nx_keypoint_xs0(&q), nx_keypoint_ys0(&q), q.sigma * q.scale * 2.0, kc); if (rnd) { /* the colour is free: leave the rest of the picture unjudged */ f.finish(); nx_uniform_sampler_instance_free(); return; } } break; } } } const VGImage &cv = an.get_canvas(); REQ(c, an.width() == w && an.height() == h && cv.width() == w && cv.height() == h && cv.type() == VGImage::RGBA, "canvas size"); f.finish(); int odd[4] = {0, 0, 0, 0}; for (int y = 0; y < h; ++y) for (int x = 0; x < 4 * w; ++x) { const uchar *g = cv.data<uchar>(y); int e = ref[(size_t)y * 4 * w + x]; int df = abs((int)g[x] - e); if (df > 12) odd[x % 4]++; /* end points given relative or absolute round to different 1/256 pixels, and coverage is counted on 15 lines per pixel */ REQ(c, df <= 64 && odd[x % 4] <= 3 + w * h / 100, "channel %d of pixel (%d,%d) is %d, the requested annotation has %d", x % 4, x / 4, y, g[x], e); } c.ev("annotations", n); }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) REQ(c, im.data<uchar>(y)[ch * x] == src[4 * ((size_t)y * w + x)], "annotating changed the original image"); nx_uniform_sampler_instance_free();
}
static void matchimage(Ctx &c) {
    auto &r = c.rng; c.nt(); int lw = r.i(1, 40), lh = r.i(1, 40), rw = r.i(1, 40), rh = r.i(1, 40); VGImage L, R; bool lr = r.coin(), rr = r.coin(); if (lr) L.create_rgba(lw, lh, VGImage::UCHAR); else L.create_gray(lw, lh, VGImage::UCHAR); if (rr) R.create_rgba(rw, rh, VGImage::UCHAR); else R.create_gray(rw, rh, VGImage::UCHAR); int W = lw + rw, H = std::max(lh, rh); Bytes ref((size_t)4 * W * H, 0); auto fill = [&](VGImage &I, bool rgba, int w, int h, int x0) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { uchar *p = I.data<uchar>(y) + (rgba ? 4 : 1) * x; for (int k = 0; k < (rgba ? 4 : 1); ++k) p[k] = k == 3 ? 255 : (uchar)r.next(); for (int k = 0; k < 4; ++k) ref[4 * ((size_t)y * W + x0 + x) + k] = k == 3 ? 255 : rgba ? p[k] : p[0]; } }; fill(L, lr, lw, lh, 0); fill(R, rr, rw, rh, lw); VGPointCorrespondence2D co; int n = r.i(0, 5); std::vector<NXPointMatch2D> v; for (int i = 0; i < n; ++i) { NXPointMatch2D m; memset(&m, 0, sizeof m); m.x[0] = (float)r.uni(0, lw); m.x[1] = (float)r.uni(0, lh); m.xp[0] = (float)r.uni(0, rw); m.xp[1] = (float)r.uni(0, rh); m.is_inlier = r.coin(); v.push_back(m); co.add_match(i, m.x[0], m.x[1], 1, i, m.xp[0], m.xp[1], 1, 0, m.is_inlier); c.desc(" (%g,%g>%g,%g i%d)", m.x[0], m.x[1], m.xp[0], m.xp[1], (int)m.is_inlier); c.mixb(m.x, 8); } bool only = r.coin(); c.desc(" %dx%d + %dx%d only_inliers %d", lw, lh, rw, rh, only); c.mix(W * 50 + H);
    VGImageAnnotator an = VGImageAnnotator::create_match_image(L, R, co, only); const VGImage &cv = an.get_canvas(); REQ(c, cv.width() == W && cv.height() == H, "size %dx%d", cv.width(), cv.height()); std::vector<char> touched((size_t)W * H, 0); auto near_seg = [&](double x, double y, double x0, double y0, double x1, double y1) { double dx = x1 - x0, dy = y1 - y0, q = dx * dx + dy * dy, t = q > 0 ? ((x - x0) * dx + (y - y0) * dy) / q : 0; t = std::min(1.0, std::max(0.0, t)); return hypot(x - x0 - t * dx, y - y0 - t * dy); };
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { bool may = false; for (auto &m : v) if (!only || m.is_inlier) { double px = x + 0.5, py = y + 0.5; if (near_seg(px, py, m.x[0], m.x[1], m.xp[0], m.xp[1]) < 4 || near_seg(px, py, m.x[0] + lw, m.x[1], m.xp[0] + lw, m.xp[1]) < 4 || hypot(px - m.x[0], py - m.x[1]) < 10 || hypot(px - m.xp[0] - lw, py - m.xp[1]) < 10) may = true; } if (!may) for (int k = 0; k < 4; ++k) REQ(c, cv.data<uchar>(y)[4 * x + k] == ref[4 * ((size_t)y * W + x) + k], "pixel (%d,%d) away from every match changed", x, y); else c.ev("match_pixels"); }
    { // the whole picture: a red line and mark in the left half, green ones in the right, 3 wide, marks of size 10, in the order of the matches
      Bytes e2 = ref; { Ref f(cairo_image_surface_create_for_data(e2.data(), CAIRO_FORMAT_ARGB32, W, H, 4 * W), true); auto edge = [&](double x, double y, double u, double z) { cairo_set_line_width(f.c, 3); cairo_new_path(f.c); cairo_move_to(f.c, x, y); cairo_line_to(f.c, u, z); cairo_stroke(f.c); }; auto dia = [&](double x, double y) { cairo_set_line_width(f.c, 1.5); cairo_new_path(f.c); cairo_move_to(f.c, x, y - 5); cairo_line_to(f.c, x + 5, y); cairo_line_to(f.c, x, y + 5); cairo_line_to(f.c, x - 5, y); cairo_line_to(f.c, x, y - 5); cairo_stroke(f.c); }; for (auto &m : v) if (!only || m.is_inlier) { f.color(1, 0, 0, 1); edge(m.x[0], m.x[1], m.xp[0], m.xp[1]); f.color(0, 1, 0, 1); edge(m.x[0] + lw, m.x[1], m.xp[0] + lw, m.xp[1]); f.color(1, 0, 0, 1); dia(m.x[0], m.x[1]); f.color(0, 1, 0, 1); dia(m.xp[0] + lw, m.xp[1]); } f.finish(); }
      int odd[4] = {0, 0, 0, 0}; for (int y = 0; y < H; ++y) for (int x = 0; x < 4 * W; ++x) { int g = cv.data<uchar>(y)[x], e = e2[(size_t)y * 4 * W + x], df = abs(g - e); if (df > 12) odd[x % 4]++; REQ(c, df <= 64 && odd[x % 4] <= 3 + W * H / 100, "channel %d of pixel (%d,%d) of a match image is %d, the requested drawing has %d", x % 4, x / 4, y, g, e); } c.ev("match_images"); }
    if (n) { auto &m = v[n - 1]; if (!only || m.is_inlier) { bool any = false; for (int y = 0; y < H && !any; ++y) for (int x = 0; x < W && !any; ++x) if (hypot(x + 0.5 - m.xp[0] - lw, y + 0.5 - m.xp[1]) < 8 && memcmp(cv.data<uchar>(y) + 4 * x, &ref[4 * ((size_t)y * W + x)], 4)) any = true; REQ(c, any || rw < 6 || rh < 6, "the last match was not drawn"); } }
}
// ---- plotting
static std::string norm(const std::string &s) { std::string o; bool sp = false, str = false; for (char ch : s) { if (ch == '"') str = !str; if (!str && (ch == ' ' || ch == '\t')) { sp = true; continue; } if (!str && ch == ';') { continue; } if (sp && !o.empty() && o.back() != '\n' && ch != '\n') o += ' '; sp = false; if (ch == '\n' && (o.empty() || o.back() == '\n')) continue; o += ch; } return o; }
static std::string label(Rng &r) { std::string s; int n = r.i(0, 12); for (int i = 0; i < n; ++i) { char ch = (char)r.i(32, 126); if (ch == '"' || ch == '\\' || ch == ';') ch = '%'; s += ch; } return s; }
static void plot(Ctx &c) {
    auto &r = c.rng; c.nt(); int mode = r.coin(1, 30) ? 1 : 0; std::string dir = scratch(), sink = dir + "/plot.txt", argsf = dir + "/args.txt"; std::string exp = "set border 3 lw 3\nset xtics out nomirror\nset ytics out nomirror\n"; int n = r.i(0, 12); bool persist = r.coin(); std::vector<std::function<void(NXGNUPlot *)>> acts; c.desc("%s:", mode ? "pipe" : "stream"); std::vector<NXDataFrame *> frames;
    for (int i = 0; i < n; ++i) { int k = r.i(0, 12); std::string t = label(r), x = label(r), y = label(r), q = "\""; int w = r.i(1, 2000), h = r.i(1, 2000), id = r.i(0, 9); double wd = r.uni(1, 50), hd = r.uni(1, 50); c.desc(" %d '%s' '%s' '%s'", k, t.c_str(), x.c_str(), y.c_str()); c.mix(k * 1000 + w); switch (k) {
        case 0: exp += "set title " + q + t + q + "\n"; acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_set_title(g, t.c_str()); }); break; case 1: exp += "set xlabel " + q + t + q + "\n"; acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_set_xlabel(g, t.c_str()); }); break; case 2: exp += "set ylabel " + q + t + q + "\n"; acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_set_ylabel(g, t.c_str()); }); break; case 3: exp += "set title " + q + t + q + "\nset xlabel " + q + x + q + "\nset ylabel " + q + y + q + "\n"; acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_set_title_and_labels(g, t.c_str(), x.c_str(), y.c_str()); }); break;
        case 4: exp += fmt("set terminal qt %d size %d,%d enhanced title \"%s\"\nunset output\n", id, w, h, t.c_str()); { bool gen = r.coin(); acts.push_back([=](NXGNUPlot *g) { if (gen) nx_gnuplot_set_terminal(g, NX_TERMINAL_WINDOW, w, h, t.c_str(), id); else nx_gnuplot_set_terminal_window(g, w, h, t.c_str(), id); }); } break; case 5: { bool gen = r.coin(); exp += fmt("set terminal svg size %d,%d enhanced name \"%s\"\nset output \"%s\"\n", w, h, gen ? "VIRG" : t.c_str(), x.c_str()); acts.push_back([=](NXGNUPlot *g) { if (gen) nx_gnuplot_set_terminal(g, NX_TERMINAL_SVG, w, h, x.c_str(), 0); else nx_gnuplot_set_terminal_svg(g, w, h, t.c_str(), x.c_str()); }); break; } case 6: case 7: { bool gen = r.coin(); exp += fmt("set terminal %s enhanced color size %fcm,%fcm\nset output \"%s\"\n", k == 6 ? "pdfcairo" : "epscairo", wd, hd, x.c_str()); acts.push_back([=](NXGNUPlot *g) { if (gen) nx_gnuplot_set_terminal(g, k == 6 ? NX_TERMINAL_PDF : NX_TERMINAL_EPS, wd, hd, x.c_str(), 0); else if (k == 6) nx_gnuplot_set_terminal_pdf(g, wd, hd, x.c_str()); else nx_gnuplot_set_terminal_eps(g, wd, hd, x.c_str()); }); break; } case 8: { int lf = r.i(0, 2); exp += fmt("set terminal dumb size %d,%d enhanced %sfeed\n", w, h, lf == 0 ? "no" : ""); acts.push_back([=](NXGNUPlot *g) { if (lf == 2) nx_gnuplot_set_terminal(g, NX_TERMINAL_ASCII, w, h, "", 0); else nx_gnuplot_set_terminal_ascii(g, w, h, lf ? NX_TRUE : NX_FALSE); }); break; }
        case 9: exp += fmt("plot %s[%d]%g\n", t.c_str(), w, (double)id); acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_send_command(g, "plot %s[%d]%g\n", t.c_str(), w, (double)id); }); break; case 10: acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_flush(g); }); break;
        default: { NXDataFrame *df = nx_data_frame_alloc(); frames.push_back(df); int rows = r.i(0, 6), cols = r.i(1, 4); std::vector<std::vector<double>> val(cols, std::vector<double>(rows)); std::vector<int> isint(cols); for (int j = 0; j < cols; ++j) { isint[j] = r.coin(); nx_data_frame_add_column(df, isint[j] ? NX_DCT_INT : NX_DCT_DOUBLE, fmt("c%d", j).c_str()); } for (int a = 0; a < rows; ++a) { nx_data_frame_add_row(df); for (int j = 0; j < cols; ++j) { if (isint[j]) { int z = (int)r.next() >> r.i(0, 20); val[j][a] = z; nx_data_frame_set_int(df, a, j, z); } else { double z = r.coin() ? r.gauss() * pow(10, r.i(-8, 8)) : r.i(-100, 100) / 4.0; val[j][a] = z; nx_data_frame_set_double(df, a, j, z); } } } bool named = k == 11; std::string nm = fmt("data%d", i); std::string body, head; for (int j = 0; j < cols; ++j) head += fmt("%s\"c%d\"", j ? " " : "", j); head += "\n"; for (int a = 0; a < rows; ++a) { for (int j = 0; j < cols; ++j) body += fmt("%s@%.17g", j ? " " : "", val[j][a]); body += "\n"; } exp += (named ? "$" + nm + " << EOD\n" : std::string()) + head + body + (named ? "EOD\n" : "e\n"); acts.push_back([=](NXGNUPlot *g) { nx_gnuplot_send_data_frame(g, df, named ? nm.c_str() : NULL); }); c.ev("data_rows", rows); } } }
    std::string got; if (mode == 0) { FILE *f = fopen(sink.c_str(), "w"); NXGNUPlot *g = nx_gnuplot_new(f, persist); for (auto &a : acts) a(g); nx_gnuplot_free(g); REQ(c, ftell(f) >= 0, "the stream was closed"); fclose(f); got = slurp(sink); } else { std::string bin = dir + "/gnuplot"; { std::string sc = fmt("#!/bin/sh\necho \"args:$*\" > '%s'\ncat > '%s.part'\nmv '%s.part' '%s'\n", argsf.c_str(), sink.c_str(), sink.c_str(), sink.c_str()); write_file(bin, sc.data(), sc.size()); } chmod(bin.c_str(), 0755); const char *op = getenv("PATH"); std::string keep = op ? op : ""; setenv("PATH", (dir + ":" + keep).c_str(), 1); NXGNUPlot *g = nx_gnuplot_new(NULL, persist); for (auto &a : acts) a(g); nx_gnuplot_free(g); setenv("PATH", keep.c_str(), 1); got = slurp(sink); std::string ar = slurp(argsf); REQ(c, ar == (persist ? "args:-persist\n" : "args:\n"), "gnuplot was started with '%s' (persist %d)", escape(ar).c_str(), persist); unlink(bin.c_str()); unlink(argsf.c_str()); c.ev("pipes"); } unlink(sink.c_str()); nx_gnuplot_free(NULL); for (auto *d : frames) nx_data_frame_free(d);
    // compare line by line; data lines by value
    auto split = [](const std::string &s) { std::vector<std::string> v; std::string l; for (char ch : s) if (ch == '\n') { v.push_back(l); l.clear(); } else l += ch; if (!l.empty()) v.push_back(l); return v; }; auto G = split(norm(got)), E = split(norm(exp)); size_t gi = 0; for (size_t i = 0; i < E.size(); ++i, ++gi) {  REQ(c, gi < G.size(), "line %zu '%s' was not sent", i, escape(E[i]).c_str()); if (!E[i].empty() && E[i][0] == '@') { const char *e = E[i].c_str(), *g = G[gi].c_str(); while (*e) { REQ(c, *e == '@', "oracle"); char *e2, *g2; double a = strtod(e + 1, &e2), b = strtod(g, &g2); REQ(c, g2 != g && near(a, b, 1e-300, 1e-5), "data line '%s' expected '%s'", G[gi].c_str(), E[i].c_str()); e = e2; g = g2; while (*e == ' ') ++e; while (*g == ' ') ++g; } REQ(c, !*g, "data line '%s' has extra values", G[gi].c_str()); c.ev("data_lines"); } else REQ(c, G[gi] == E[i], "command line is '%s' expected '%s'", escape(G[gi]).c_str(), escape(E[i]).c_str()); c.ev("command_lines"); } REQ(c, gi == G.size(), "unrequested line '%s'", gi < G.size() ? escape(G[gi]).c_str() : "");
}
static void colors(Ctx &c) { auto &r = c.rng; static const struct { VGColor (*f)(); double v[3]; const char *n; } K[] = {{VGColor::red, {1, 0, 0}, "red"}, {VGColor::green, {0, 1, 0}, "green"}, {VGColor::blue, {0, 0, 1}, "blue"}, {VGColor::black, {0, 0, 0}, "black"}, {VGColor::white, {1, 1, 1}, "white"}, {VGColor::yellow, {1, 1, 0}, "yellow"}, {VGColor::purple, {1, 0, 1}, "purple"}, {VGColor::cyan, {0, 1, 1}, "cyan"}}; c.nt(); auto &k = K[r.i(0, 7)]; VGColor q = k.f(); c.desc("%s", k.n); REQ(c, q.r() == k.v[0] && q.g() == k.v[1] && q.b() == k.v[2] && q.a() == 1, "%s is (%g %g %g %g)", k.n, q.r(), q.g(), q.b(), q.a()); double w[4] = {r.u(), r.u(), r.u(), r.u()}; c.mixb(w, sizeof w); VGColor z(w[0], w[1], w[2], w[3]); REQ(c, z.r() == w[0] && z.g() == w[1] && z.b() == w[2] && z.a() == w[3] && !memcmp(z.v(), w, sizeof w), "components of a color"); VGColor n = VGColor::random(); for (int i = 0; i < 4; ++i) REQ(c, n.v()[i] >= 0 && n.v()[i] < 1, "random color component %g", n.v()[i]); nx_uniform_sampler_instance_free(); c.ev("colors"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"colors", colors, 300, 3000}, {"image", image, 15000, 200000}, {"blocks", blocks, 10000, 100000}, {"vector", vector, 3000, 30000}, {"annotate", annotate, 8000, 100000}, {"matchimage", matchimage, 4000, 40000}, {"plot", plot, 12000, 100000}}); }
