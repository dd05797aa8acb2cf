// C28: the command-line tools, run as separate monitored processes; what they print and write is compared
// with the library's own results on the same input and with the known geometry of the generated pictures.
#include "vh.hpp"
#include "img.hpp"
#include "imgfile.hpp"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/nx_log.h"
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <map>
#include <array>
#include <algorithm>
#include <sstream>
using namespace vh; using vi::Px;
typedef std::vector<std::string> Args;

static void clear_dir(const std::string &d) { if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { clear_dir(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); } }
static std::string wd() { std::string d = scratch() + "/w"; mkdir(d.c_str(), 0700); clear_dir(d); mkdir((d + "/tmp").c_str(), 0700); return d; }
static Outcome run(Ctx &c, const char *tool, const Args &a, const std::string &d, double cpu = 60) {
    const char *td = getenv("VT_TOOLS"); REQ(c, td, "VT_TOOLS not set"); std::string exe = std::string(td) + "/" + tool; std::string line = tool; for (auto &x : a) line += " " + x; c.desc(" [%s]", escape(line, 300).c_str());
    Outcome o = fork_run([&] { std::vector<char *> v; v.push_back((char *)exe.c_str()); for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr); setenv("VT_SCRATCH", (d + "/tmp").c_str(), 1); setenv("ASAN_OPTIONS", "exitcode=86:detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=1000000", 1); setenv("UBSAN_OPTIONS", "exitcode=86:print_stacktrace=1", 1); if (chdir(d.c_str())) _exit(99); execv(exe.c_str(), v.data()); _exit(98); }, cpu);
    REQ(c, o.kind != SANITIZER && o.kind != SIGNALED && o.kind != HUNG, "%s: %s (%d): %s", tool, kind_name(o.kind), o.code, escape(o.err.substr(o.err.size() > 1500 ? o.err.size() - 1500 : 0), 1200).c_str());
    c.ev((std::string(tool) + "_runs").c_str()); return o;
}
static void ok(Ctx &c, const Outcome &o, const char *tool) { REQ(c, o.kind == EXITED && o.code == 0, "%s ended with %s %d: %s", tool, kind_name(o.kind), o.code, escape(o.err, 400).c_str()); }
static void rejected(Ctx &c, const Outcome &o, const char *tool, const char *why) { REQ(c, (o.kind == EXITED || o.kind == FATAL) && o.code != 0, "%s: %s was not reported by a failure status (status %d)", tool, why, o.code); REQ(c, !o.err.empty(), "%s: %s reported without a diagnostic", tool, why); c.ev("rejected"); c.ev((std::string(tool) + "_rejected").c_str()); }
static void shuffle_opts(Rng &r, Args &a, std::vector<Args> g) { for (size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r.i(0, (int)i - 1)]); for (auto &x : g) a.insert(a.end(), x.begin(), x.end()); }
static std::string pgm(const Px &p) { std::string s = fmt("P5\n%d %d\n255\n", p.w, p.h); for (float v : p.v) s += (char)(unsigned char)v; return s; }
static void put(const std::string &f, const std::string &s) { write_file(f, s.data(), s.size()); }
static bool exists(const std::string &f) { struct stat st; return !stat(f.c_str(), &st); }
// band-limited texture
static Px texture(Rng &r, int w, int h, double mean = 128, double sd = 45) {
    std::vector<double> t((size_t)w * h); for (int k : {1, 2, 4}) { std::vector<double> a((size_t)w * h), b(a.size()); for (auto &v : a) v = r.gauss();
        for (int pass = 0; pass < 3; ++pass) { for (int dir = 0; dir < 2; ++dir) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double s = 0; for (int j = -k; j <= k; ++j) { int xx = dir ? x : std::min(w - 1, std::max(0, x + j)), yy = dir ? std::min(h - 1, std::max(0, y + j)) : y; s += a[(size_t)yy * w + xx]; } b[(size_t)y * w + x] = s / (2 * k + 1); } a.swap(b); } }
        double q = 0; for (double v : a) q += v * v; q = std::sqrt(q / a.size()) + 1e-9; for (size_t i = 0; i < t.size(); ++i) t[i] += a[i] / q; }
    double q = 0; for (double v : t) q += v * v; q = std::sqrt(q / t.size()) + 1e-9; Px p(w, h, 1, false); for (size_t i = 0; i < t.size(); ++i) p.v[i] = (float)(int)std::min(250.0, std::max(5.0, mean + sd * t[i] / q)); return p;
}
static Px crop(const Px &p, int x0, int y0, int w, int h) { Px q(w, h, 1, false); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) q.at(x, y) = p.at(x0 + x, y0 + y); return q; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
static std::vector<std::string> cells(const std::string &s) { std::vector<std::string> v; std::string t; for (char ch : s) { if (ch == ',') { v.push_back(t); t.clear(); } else if (ch != ' ') t += ch; } v.push_back(t); return v; }

// ---- minimal JSON reader
struct J { char t = 0; double n = 0; std::string s; std::vector<J> a; std::map<std::string, J> o; };
struct JP { const std::string &s; size_t i = 0; bool bad = false; JP(const std::string &t) : s(t) {} void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; } bool eat(char ch) { ws(); if (i < s.size() && s[i] == ch) { ++i; return true; } return false; }
    std::string str() { std::string r; if (!eat('"')) { bad = true; return r; } while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && i + 1 < s.size()) { ++i; char e = s[i]; r += e == 'n' ? '\n' : e == 't' ? '\t' : e == 'r' ? '\r' : e == 'b' ? '\b' : e == 'f' ? '\f' : e; } else r += s[i]; ++i; } ++i; return r; }
    J val() { J v; ws(); if (bad || i >= s.size()) { bad = true; return v; } char ch = s[i];
        if (ch == '{') { v.t = '{'; ++i; if (eat('}')) return v; do { ws(); std::string k = str(); if (!eat(':')) { bad = true; return v; } if (v.o.count(k)) bad = true; v.o[k] = val(); } while (!bad && eat(',')); if (!eat('}')) bad = true; }
        else if (ch == '[') { v.t = '['; ++i; if (eat(']')) return v; do v.a.push_back(val()); while (!bad && eat(',')); if (!eat(']')) bad = true; }
        else if (ch == '"') { v.t = '"'; v.s = str(); }
        else if (!s.compare(i, 4, "true")) { v.t = 't'; i += 4; } else if (!s.compare(i, 5, "false")) { v.t = 'f'; i += 5; } else if (!s.compare(i, 4, "null")) { v.t = 'n'; i += 4; }
        else { const char *b = s.c_str() + i; char *e; v.n = strtod(b, &e); if (e == b) bad = true; v.t = '0'; i += e - b; } return v; } };

// ---- nx-harris-detector
static void harris(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); static const char *ext[] = {".pgm", ".png", ".jpg"}; int w = vi::dim(r, 70, 200), h = vi::dim(r, 70, 200); Px p = r.coin() ? texture(r, w, h) : vi::random_px(r, w, h, 1, false); std::string name = r.coin(1, 5) ? "p ic\"t" : "in", f = name + ext[0]; 
    if (r.coin(1, 3)) { vf::File F = vf::make_any(r, w, h); f = name + (F.what[0] == 'p' && F.what[1] == 'n' && F.what[2] == 'g' ? ".png" : F.lossy || F.what[0] == 'j' ? ".jpg" : F.px.nc == 4 ? ".ppm" : ".pgm"); put(d + "/" + f, F.bytes); } else put(d + "/" + f, pgm(p)); vi::mixpx(c, p);
    double sig = r.coin(1, 3) ? 1.2 : r.uni(0.5, 3), k = r.coin(1, 3) ? 0.06 : r.uni(0.02, 0.2), t = r.coin(1, 3) ? 0.00005 : r.coin() ? r.uni(0, 0.001) : 0; int N = r.coin(1, 3) ? 2000 : r.coin() ? r.i(0, 5) : r.i(1, 300); std::string kf; bool verb = r.coin(1, 4), dbg = r.coin(1, 6);
    std::vector<Args> g; auto num = [](double v) { return fmt("%.17g", v); }; g.push_back({"-i", f}); if (sig != 1.2) g.push_back({"--sigma-int", num(sig)}); if (k != 0.06) g.push_back({"-k", num(k)}); if (t != 0.00005) g.push_back({"-t", num(t)}); if (N != 2000) g.push_back({"-N", fmt("%d", N)}); if (verb) g.push_back({r.coin() ? "-v" : "--verbose"}); if (dbg) g.push_back({"--debug"});
    if (r.coin(1, 3)) { kf = std::string("keys") + (r.coin() ? ".png" : ".ppm"); g.push_back({"--key-image", kf}); } 
    int bad = r.coin(1, 8) ? r.i(1, 4) : 0; if (bad == 1) { for (size_t i = 0; i < g.size(); ++i) if (g[i][0] == "-i") { g.erase(g.begin() + i); break; } } if (bad == 2) unlink((d + "/" + f).c_str()); if (bad == 3) put(d + "/" + f, ""); if (bad == 4) { for (auto &x : g) if (x[0] == "--key-image") x[1] = "nodir/k.png"; if (kf.empty()) g.push_back({"--key-image", "nodir/k.png"}); }
    Args a; shuffle_opts(r, a, g); Outcome o = run(c, "harris", a, d); if (bad) { rejected(c, o, "harris", bad == 1 ? "no input given" : bad == 2 ? "missing input" : bad == 3 ? "empty input" : "unwritable key image"); return; } ok(c, o, "harris");
    NXImage *img = nx_image_alloc(); nx_image_xload(img, (d + "/" + f).c_str(), NX_IMAGE_LOAD_GRAYSCALE); NXImage *di[3]; for (auto &x : di) x = nx_image_alloc(); nx_harris_deriv_images(di, img, (float)sig); NXImage *s = nx_image_alloc(); nx_harris_score_image(s, di, (float)k); std::vector<NXKeypoint> ks(N ? N : 1); int n = nx_harris_detect_keypoints(N, ks.data(), s, (float)t);
    JP jp(o.out); J j = jp.val(); jp.ws(); REQ(c, !jp.bad && j.t == '{' && jp.i >= o.out.size(), "output is not one JSON document (at %zu): %s", jp.i, escape(o.out, 300).c_str()); REQ(c, j.o.count("options") && j.o.count("keypoints"), "members missing");
    J &jo = j.o["options"]; REQ(c, jo.o["image"].s == f, "image option echoed as %s", escape(jo.o["image"].s).c_str()); REQ(c, near(jo.o["integration-scale"].n, (float)sig, 0, 1e-6) && near(jo.o["k"].n, (float)k, 0, 1e-6) && near(jo.o["threshold"].n, t, 0, 1e-12) && jo.o["max-n-keys"].n == N, "options echoed wrongly: %s", escape(o.out, 300).c_str());
    auto &jk = j.o["keypoints"].a; REQ(c, (int)jk.size() == n, "%zu keypoints printed, detection finds %d", jk.size(), n); c.ev("harris_keys", n);
    for (int i = 0; i < n; ++i) { auto &q = jk[i].o; NXKeypoint &e = ks[i]; auto same = [&](const char *m, double v) { REQ(c, q.count(m) && near(q[m].n, v, 0, 1e-6), "keypoint %d member %s is %.9g expected %.9g", i, m, q[m].n, v); }; same("x", e.x); same("y", e.y); same("xs", e.xs); same("ys", e.ys); same("level", e.level); same("scale", e.scale); same("sigma", e.sigma); same("score", e.score); same("ori", e.ori); REQ(c, q["id"].n == (double)e.id, "keypoint %d id", i); }
    if (verb) REQ(c, o.err.find(fmt("Detected %d keypoints", n)) != std::string::npos, "verbose run does not report %d keypoints: %s", n, escape(o.err, 300).c_str());
    if (!kf.empty()) { NXImage *ki = nx_image_copy0(img); nx_image_convert_type(ki, NX_IMAGE_RGBA); NXGC *gc = nx_gc_new(ki); nx_gc_set_color(gc, 0, 1, 0, 1); for (int i = 0; i < n; ++i) { nx_gc_new_path(gc); nx_gc_circle(gc, ks[i].x, ks[i].y, 3); nx_gc_stroke(gc); } nx_gc_flush(gc); std::string ef = "exp" + kf.substr(4); nx_image_xsave(ki, (d + "/" + ef).c_str()); nx_gc_free(gc); nx_image_free(ki);
        NXImage *x = nx_image_alloc(), *y = nx_image_alloc(); REQ(c, exists(d + "/" + kf), "key image was not written"); nx_image_xload(x, (d + "/" + kf).c_str(), NX_IMAGE_LOAD_AS_IS); nx_image_xload(y, (d + "/" + ef).c_str(), NX_IMAGE_LOAD_AS_IS); Px a1 = vi::pixels(x), b1 = vi::pixels(y); REQ(c, a1.w == b1.w && a1.h == b1.h && a1.nc == b1.nc && a1.v == b1.v, "key image is not the input with its keypoints circled"); nx_image_free(x); nx_image_free(y); c.ev("key_images"); }
    if (dbg) for (auto q : {"harris_score.png", "harris_deriv_x2.png", "harris_deriv_y2.png", "harris_deriv_xy.png"}) { REQ(c, exists(d + "/tmp/" + q), "debug image %s was not written", q); NXImage *x = nx_image_alloc(); nx_image_xload(x, (d + "/tmp/" + q).c_str(), NX_IMAGE_LOAD_AS_IS); REQ(c, x->width == img->width && x->height == img->height, "debug image %s has size %dx%d", q, x->width, x->height); nx_image_free(x); }
    nx_image_free(img); for (auto x : di) nx_image_free(x); nx_image_free(s);
}

// ---- SIFT options shared by four tools
static NXSIFTDetectorParams sift_opts(Rng &r, std::vector<Args> &g, bool mild) {
    NXSIFTDetectorParams q = nx_sift_default_parameters(); q.double_image = NX_FALSE; auto num = [](double v) { return fmt("%.17g", v); };
    if (!mild && r.coin(1, 4)) { q.double_image = NX_TRUE; g.push_back({"--sift-double-image"}); } if (!mild && r.coin(1, 3)) { q.n_scales_per_octave = r.i(1, 5); g.push_back({"--sift-n-scales-per-octave", fmt("%d", q.n_scales_per_octave)}); } if (!mild && r.coin(1, 3)) { double v = r.uni(0.8, 2.2); q.sigma0 = (float)v; g.push_back({"--sift-sigma0", num(v)}); }
    if (!mild && r.coin(1, 4)) { double v = r.uni(2, 4.5); q.kernel_truncation_factor = (float)v; g.push_back({"--sift-kernel-truncation-factor", num(v)}); } if (!mild && r.coin(1, 4)) { q.border_distance = r.i(1, 12); g.push_back({"--sift-border-distance", fmt("%d", q.border_distance)}); }
    if (r.coin(1, 3)) { double v = mild ? r.uni(0.01, 0.02) : r.uni(0.001, 0.03); q.peak_threshold = (float)v; g.push_back({"--sift-peak-threshold", num(v)}); } if (!mild && r.coin(1, 4)) { double v = r.uni(3, 20); q.edge_threshold = (float)v; g.push_back({"--sift-edge-threshold", num(v)}); } if (!mild && r.coin(1, 4)) { q.magnification_factor = r.i(2, 4); g.push_back({"--sift-magnification-factor", fmt("%d", q.magnification_factor)}); } return q;
}
struct Feat { int n = 0, cap = 50; NXKeypoint *k; uchar *d; Feat() { k = (NXKeypoint *)nx_xmalloc(sizeof(NXKeypoint) * cap); d = (uchar *)nx_xmalloc(NX_SIFT_DESC_DIM * cap); } ~Feat() { nx_free(k); nx_free(d); } Feat(const Feat &) = delete; void compute(const NXSIFTDetectorParams &q, const std::string &f) { NXImage *i = nx_image_alloc(); nx_image_xload(i, f.c_str(), NX_IMAGE_LOAD_GRAYSCALE); NXSIFTDetector *t = nx_sift_detector_new(q); n = nx_sift_detector_compute(t, i, &cap, &k, &d); nx_sift_detector_free(t); nx_image_free(i); } };

static void sift(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); int w = r.coin(1, 5) ? vi::dim(r, 30, 0) : r.i(40, 110), h = r.coin(1, 5) ? vi::dim(r, 30, 0) : r.i(40, 110); if (r.coin(1, 10)) { if (r.coin(1, 2)) { w = r.i(24, 40); h = r.i(900, 1400); if (r.coin()) std::swap(w, h); } else w = r.i(380, 460), h = r.i(380, 460); c.ev("large_pictures"); } Px p = texture(r, w, h); put(d + "/in.pgm", pgm(p)); vi::mixpx(c, p); std::vector<Args> g; g.push_back({"-i", "in.pgm"}); std::string of = "sift.bin"; if (r.coin()) { of = "o ut.dat"; g.push_back({"-o", of}); } bool verb = r.coin(1, 4); if (verb) g.push_back({"-v"}); NXSIFTDetectorParams q = sift_opts(r, g, false);
    int bad = r.coin(1, 8) ? r.i(1, 3) : 0; if (bad == 1) g.erase(g.begin()); if (bad == 2) unlink((d + "/in.pgm").c_str()); if (bad == 3) g.push_back({"-o", "nodir/x"}); Args a; if (bad == 3 && of != "sift.bin") g.erase(g.begin() + 1); shuffle_opts(r, a, g); Outcome o = run(c, "sift", a, d); if (bad) { rejected(c, o, "sift", bad == 1 ? "no input given" : bad == 2 ? "missing input" : "unwritable output"); return; } ok(c, o, "sift");
    Feat F; F.compute(q, d + "/in.pgm"); auto L = lines(o.out); REQ(c, (int)L.size() == F.n + 1, "%zu rows printed, detection finds %d features", L.size() - 1, F.n); auto H = cells(L[0]); const char *hn[] = {"score", "x", "y", "scale", "ori", "sigma"}; REQ(c, H.size() == 6, "header"); for (int i = 0; i < 6; ++i) REQ(c, H[i] == hn[i], "header cell %d is %s", i, H[i].c_str()); c.ev("sift_features", F.n);
    for (int i = 0; i < F.n; ++i) { auto C = cells(L[i + 1]); REQ(c, C.size() == 6, "row %d has %zu cells", i, C.size()); double e[] = {F.k[i].score, F.k[i].xs, F.k[i].ys, F.k[i].scale, F.k[i].ori, F.k[i].sigma}, tol[] = {6e-7, 6e-3, 6e-3, 6e-3, 6e-5, 6e-5}; for (int k = 0; k < 6; ++k) REQ(c, near(strtod(C[k].c_str(), nullptr), e[k], tol[k], 1e-5), "row %d column %s is %s expected %.9g", i, hn[k], C[k].c_str(), e[k]); }
    REQ(c, exists(d + "/" + of), "no output file"); int n = 0; NXKeypoint *k = nullptr; uchar *ds = nullptr; n = nx_sift_xload((d + "/" + of).c_str(), &n, &k, &ds); REQ(c, n == F.n, "saved file holds %d features, detection finds %d", n, F.n);
    for (int i = 0; i < n; ++i) { REQ(c, k[i].x == F.k[i].x && k[i].y == F.k[i].y && near(k[i].xs, F.k[i].xs, 0, 1e-5) && near(k[i].ys, F.k[i].ys, 0, 1e-5) && near(k[i].ori, F.k[i].ori, 1e-5, 1e-5) && k[i].level == F.k[i].level && near(k[i].sigma, F.k[i].sigma, 0, 1e-5), "saved feature %d differs", i); REQ(c, !memcmp(ds + i * NX_SIFT_DESC_DIM, F.d + i * NX_SIFT_DESC_DIM, NX_SIFT_DESC_DIM), "saved descriptor %d differs", i); } nx_free(k); nx_free(ds);
    if (verb) REQ(c, o.err.find(fmt("detected %d keys", F.n)) != std::string::npos, "verbose run does not report %d keys", F.n);
}

// ---- homography helpers: row-major 3x3
typedef std::vector<double> H3; static void tr(const H3 &H, double x, double y, double &u, double &v) { double q = H[6] * x + H[7] * y + H[8]; u = (H[0] * x + H[1] * y + H[2]) / q; v = (H[3] * x + H[4] * y + H[5]) / q; }
static H3 inv(const H3 &m) { double a = m[0], b = m[1], d = m[2], e = m[3], f = m[4], g = m[5], h = m[6], i = m[7], j = m[8], D = a * (f * j - g * i) - b * (e * j - g * h) + d * (e * i - f * h); return {(f * j - g * i) / D, (d * i - b * j) / D, (b * g - d * f) / D, (g * h - e * j) / D, (a * j - d * h) / D, (d * e - a * g) / D, (e * i - f * h) / D, (b * h - a * i) / D, (a * f - b * e) / D}; }
static void colmajor(const H3 &H, double *h) { for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) h[x * 3 + y] = H[y * 3 + x]; }
static std::string htext(const H3 &H) { return fmt("%.17g %.17g %.17g\n%.17g %.17g %.17g\n%.17g %.17g %.17g\n", H[0], H[1], H[2], H[3], H[4], H[5], H[6], H[7], H[8]); }
static double bil(const Px &p, double x, double y) { int x0 = (int)std::floor(x), y0 = (int)std::floor(y); double fx = x - x0, fy = y - y0; auto at = [&](int a, int b) { return (double)p.at(std::min(p.w - 1, std::max(0, a)), std::min(p.h - 1, std::max(0, b))); }; return (1 - fy) * ((1 - fx) * at(x0, y0) + fx * at(x0 + 1, y0)) + fy * ((1 - fx) * at(x0, y0 + 1) + fx * at(x0 + 1, y0 + 1)); }
// left crop of a base texture and its image under l2r
struct Pair { Px l, r; H3 l2r; };
static Pair make_pair(Rng &r, bool exact) {
    Pair P; int w = r.i(110, 150), h = r.i(90, 130); Px base = texture(r, w + 60, h + 60); P.l = crop(base, 30, 30, w, h); int sx = r.i(-25, 25), sy = r.i(-25, 25);
    if (exact) { P.r = crop(base, 30 + sx, 30 + sy, w, h); P.l2r = {1, 0, (double)-sx, 0, 1, (double)-sy, 0, 0, 1}; }
    else { double a = r.uni(-0.3, 0.3), s = r.uni(0.9, 1.12), p = r.uni(-2e-4, 2e-4), q = r.uni(-2e-4, 2e-4), cx = w / 2.0, cy = h / 2.0, C = s * std::cos(a), S = s * std::sin(a); P.l2r = {C, -S, cx - C * cx + S * cy + sx / 3.0, S, C, cy - S * cx - C * cy + sy / 3.0, p, q, 1}; H3 i = inv(P.l2r); P.r = Px(w, h, 1, false); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double u, v; tr(i, x, y, u, v); P.r.at(x, y) = (float)(int)(bil(base, u + 30, v + 30) + 0.5); } }
    return P;
}
// ---- nx-fit-homography
static void fit(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); bool exact = r.coin(); Pair P = make_pair(r, exact); bool flat = r.coin(1, 10), unrelated = !flat && r.coin(1, 8); if (flat) for (auto &v : (r.coin() ? P.l : P.r).v) v = 90; if (unrelated) P.r = texture(r, P.r.w, P.r.h); put(d + "/l.pgm", pgm(P.l)); put(d + "/r.pgm", pgm(P.r)); vi::mixpx(c, P.l); vi::mixpx(c, P.r);
    std::vector<Args> g; g.push_back({r.coin() ? "-l" : "--left", "l.pgm"}); g.push_back({r.coin() ? "-r" : "--right", "r.pgm"}); NXSIFTDetectorParams q = sift_opts(r, g, true); double thr = -1; if (r.coin(2, 3)) { thr = r.coin(1, 4) ? r.uni(0.85, 1) : r.coin(1, 8) ? r.uni(0.1, 0.5) : r.uni(0.5, 0.85); g.push_back({"--snn-threshold", fmt("%.17g", thr)}); } double tol = 3; if (r.coin(1, 3)) { tol = r.uni(1, 5); g.push_back({"--ransac-inlier-threshold", fmt("%.17g", tol)}); }
    bool bench = r.coin(3, 5), verb = !bench || r.coin(); int steps = 100; if (bench) { g.push_back({"--benchmark-ransac"}); steps = r.coin(1, 10) ? 0 : r.coin(1, 8) ? r.i(30, 70) : r.i(1, 12); g.push_back({"--benchmark-steps", fmt("%d", steps)}); } g.push_back({"--ransac-max-n-iterations", fmt("%d", r.i(500, 3000))}); if (verb) g.push_back({r.coin() ? "-v" : "--verbose"});
    int nv = r.coin() ? r.coin(1, 6) ? r.i(30, 90) : r.i(1, 12) : 0; double vx = 0, vy = 0; if (r.coin(2, 3)) { vx = r.uni(-30, 30); vy = r.uni(18, 40); } std::vector<NXPointMatch2D> vp; bool l2r = r.coin(1, 3), r2l = r.coin(1, 3); H3 H = P.l2r, I = inv(P.l2r); if (nv) { std::string row[6]; for (int i = 0; i < nv; ++i) { double x, y, u, v; int tries = 0; do { x = r.uni(0.1, 0.9) * P.l.w; y = r.uni(0.1, 0.9) * P.l.h; tr(H, x, y, u, v); } while (++tries < 200 && (u < 0.1 * P.r.w || v < 0.1 * P.r.h || u > 0.9 * P.r.w || v > 0.9 * P.r.h)); u += vx; v += vy; NXPointMatch2D z; memset(&z, 0, sizeof z); z.x[0] = (float)x; z.x[1] = (float)y; z.xp[0] = (float)u; z.xp[1] = (float)v; z.sigma_x = z.sigma_xp = 0.1f; z.is_inlier = NX_TRUE; vp.push_back(z); double e[] = {x, y, 1, u, v, 1}; for (int k = 0; k < 6; ++k) row[k] += fmt("%s%.9g", i ? " " : "", e[k]); } std::string s; for (auto &x : row) s += x + "\n"; put(d + "/v.txt", s); g.push_back({"--validation-points", "v.txt"}); } if (l2r) { put(d + "/hl", htext(H)); g.push_back({"--ground-truth-l2r", "hl"}); } if (r2l) { put(d + "/hr", htext(I)); g.push_back({"--ground-truth-r2l", "hr"}); }
    int bad = r.coin(1, 8) ? r.i(1, 5) : 0; if (bad == 1) g.erase(g.begin() + r.i(0, 1)); if (bad == 2) unlink((d + (r.coin() ? "/l.pgm" : "/r.pgm")).c_str()); if (bad == 3) { put(d + "/v5.txt", std::string("1 2 3\n1 2 3\n1 1 1\n1 2 3\n1 2 3\n") + (r.coin() ? "" : r.coin() ? "1 1 1\n1 1 1\n" : "1 1 1\n1 1 1\n1 1 1\n")); if (nv) for (auto &x : g) { if (x[0] == "--validation-points") x[1] = "v5.txt"; } else g.push_back({"--validation-points", "v5.txt"}); } if (bad == 4) { put(d + "/h2", r.coin() ? "1 0 0\n0 1 0\n" : "1 0\n0 1\n0 0\n"); if (l2r) for (auto &x : g) { if (x[0] == "--ground-truth-l2r") x[1] = "h2"; } else g.push_back({"--ground-truth-l2r", "h2"}); } if (bad == 5) { if (r2l) unlink((d + "/hr").c_str()); else g.push_back({"--ground-truth-r2l", "nofile"}); }
    Args a; shuffle_opts(r, a, g); Outcome o = run(c, "fit", a, d); if (bad) { rejected(c, o, "fit", bad == 1 ? "one image only" : bad == 2 ? "missing image" : bad == 3 ? "validation file without six rows" : bad == 4 ? "ground truth of two rows" : "missing ground truth"); return; } ok(c, o, "fit");
    Feat A, B; A.compute(q, d + "/l.pgm"); B.compute(q, d + "/r.pgm"); std::vector<NXPointMatch2D> m(A.n + 1); int n = nx_sift_match_brute_force(A.n, A.k, A.d, B.n, B.k, B.d, m.data(), (float)thr); double hc[9]; int gt = 0; colmajor(H, hc); int gtl = nx_homography_mark_inliers(hc, n, m.data(), tol); if (l2r) gt = gtl; else if (r2l) { colmajor(I, hc); gt = nx_homography_mark_inliers_inv(hc, n, m.data(), tol); }
    c.ev("fit_matches", n); if (verb) { for (auto &s : {fmt("Detected %d keypoints on the left", A.n), fmt("Detected %d keypoints on the right", B.n), fmt("# of putative matches is %d", n)}) REQ(c, o.err.find(s) != std::string::npos, "verbose run does not report '%s'", s.c_str()); }
    double eref = -1; if (nv) { colmajor(H, hc); eref = nx_homography_transfer_error_fwd(hc, nv, vp.data()); } bool good = !flat && !unrelated && gtl >= 30 && gtl >= 0.6 * n; // well-posed pair
    if (!bench) { REQ(c, o.out.empty(), "unexpected output"); size_t p = o.err.find("# of inliers is "); REQ(c, p != std::string::npos, "number of inliers not reported"); int ni = atoi(o.err.c_str() + p + 16); REQ(c, ni >= 0 && ni <= n, "%d inliers of %d matches", ni, n); if (good) { REQ(c, ni >= 0.6 * gtl, "%d inliers found, %d of %d matches agree with the true homography", ni, gtl, n); c.ev("fit_recovered"); }
        p = o.err.find("Forward Transfer Error: "); if (nv && ni > 0) { REQ(c, p != std::string::npos, "validation error not reported"); double e = strtod(o.err.c_str() + p + 24, nullptr); if (good) { REQ(c, e >= 0 && std::fabs(e - eref) < 12, "validation error %g, the true homography has %g", e, eref); c.ev(std::fabs(e - eref) < 1 ? "validation_within_1" : "validation_within_12"); } } else REQ(c, p == std::string::npos, "validation error reported without a model or points"); return; }
    auto L = lines(o.out); REQ(c, L.size() == 1, "%zu rows", L.size()); auto C = cells(L[0]); bool hg = l2r || r2l; size_t want = 1 + (hg ? 2 : 0) + 8 + 7 + (nv ? 7 : 0); REQ(c, C.size() == want, "%zu columns expected %zu: %s", C.size(), want, L[0].c_str()); size_t k = 0; auto num = [&] { return strtod(C[k++].c_str(), nullptr); }; REQ(c, num() == n, "match count %s expected %d", C[0].c_str(), n); if (hg) { REQ(c, num() == gt, "ground truth inliers %s expected %d", C[1].c_str(), gt); double pc = num(); if (n) REQ(c, near(pc, gt * 100.0 / n, 0.06), "inlier ratio %g expected %g", pc, gt * 100.0 / n); }
    REQ(c, num() == steps, "number of runs"); auto stats = [&](const char *w, double eps) { double mean = num(), sd = num(), mn = num(), lq = num(), md = num(), uq = num(), mx = num(); REQ(c, mn <= lq + eps && lq <= md + eps && md <= uq + eps && uq <= mx + eps && mean >= mn - eps && mean <= mx + eps && sd >= 0 && sd <= (mx - mn) * 1.5 + 2 * eps, "%s statistics are inconsistent: %s", w, L[0].c_str()); return std::array<double, 3>{mn, mx, md}; };
    auto ni = stats("inlier", 0.06), rt = stats("runtime", 0.011); REQ(c, ni[0] >= 0 && ni[1] <= n + 0.05, "inlier counts"); REQ(c, rt[0] >= 0, "negative run time"); if (good && steps) { REQ(c, ni[0] >= 0.6 * gtl - 0.06, "a run found %g inliers, %d of %d matches agree with the true homography", ni[0], gtl, n); c.ev("fit_recovered"); } if (nv) { auto e = stats("transfer error", 0.011); if (good && steps) { REQ(c, e[0] >= 0 && std::fabs(e[2] - eref) < 8, "median validation error %g, the true homography has %g", e[2], eref); if (eref > 10 && steps > 1) REQ(c, std::fabs(e[1] - eref) < 30, "largest validation error %g, the true homography has %g", e[1], eref); c.ev(std::fabs(e[2] - eref) < 1 ? "validation_within_1" : "validation_within_8"); { double q = std::fabs(e[1] - eref); c.ev(q < 2 ? "worst_validation_within_2" : q < 5 ? "worst_validation_within_5" : q < 10 ? "worst_validation_within_10" : "worst_validation_beyond_10"); } } }
    if (verb && steps) { auto hd = o.err.find("n_corr,"); REQ(c, hd != std::string::npos, "no header"); std::string hl = o.err.substr(hd, o.err.find('\n', hd) - hd); REQ(c, cells(hl).size() == C.size(), "header has %zu columns, row has %zu", cells(hl).size(), C.size()); } c.ev("fit_benchmarks");
}
// ---- nx-sift-benchmark
static void bench(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); static const char *seq[] = {"bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"}; std::vector<std::vector<H3>> hs(8); mkdir((d + "/b").c_str(), 0700); int W = r.i(36, 56), Hh = r.i(36, 56);
    for (int s = 0; s < 8; ++s) { std::string q = d + "/b/" + seq[s]; mkdir(q.c_str(), 0700); Px base = texture(r, W + 20, Hh + 20); bool ppm = r.coin(); for (int i = 0; i < 6; ++i) { int sx = i ? r.i(-8, 8) : 0, sy = i ? r.i(-8, 8) : 0; Px p = crop(base, 10 + sx, 10 + sy, W, Hh); if (i) { double jx = r.uni(-1.5, 1.5); H3 H = {1, 0, -sx + jx, 0, 1, (double)-sy, 0, 0, 1}; hs[s].push_back(H); put(q + fmt("/H1to%dp", i + 1), htext(H)); } else hs[s].push_back({1, 0, 0, 0, 1, 0, 0, 0, 1}); if (ppm) { std::string t = fmt("P6\n%d %d\n255\n", W, Hh); for (float v : p.v) t += std::string(3, (char)(unsigned char)v); put(q + fmt("/img%d.ppm", i + 1), t); } else put(q + fmt("/img%d.pgm", i + 1), pgm(p)); vi::mixpx(c, p); } }
    std::vector<Args> g; g.push_back({"--vgg-base", "b"}); NXSIFTDetectorParams q = sift_opts(r, g, false); double thr = 0.6; if (r.coin(3, 4)) { thr = r.coin() ? r.uni(0.1, 0.4) : r.uni(0.4, 1); g.push_back({"--dist-ratio-thr", fmt("%.17g", thr)}); } if (r.coin()) g.push_back({"-v"}); int bad = r.coin(1, 6) ? r.i(1, 3) : 0, bs = r.i(0, 7), bi = r.i(2, 6); if (bad == 1) unlink((d + "/b/" + seq[bs] + fmt("/H1to%dp", bi)).c_str()); if (bad == 2) { unlink((d + "/b/" + seq[bs] + fmt("/img%d.pgm", bi)).c_str()); unlink((d + "/b/" + seq[bs] + fmt("/img%d.ppm", bi)).c_str()); } if (bad == 3) g[0][1] = "nob";
    Args a; shuffle_opts(r, a, g); Outcome o = run(c, "bench", a, d, 120); if (bad) { rejected(c, o, "bench", bad == 1 ? "missing ground truth" : bad == 2 ? "missing frame" : "missing base"); return; } ok(c, o, "bench"); auto L = lines(o.out); REQ(c, L.size() == 1 + 8 * 5, "%zu rows", L.size()); REQ(c, cells(L[0]).size() == 10, "header");
    for (int s = 0; s < 8; ++s) { Feat A; auto file = [&](int i) { std::string f = d + "/b/" + seq[s] + fmt("/img%d.ppm", i); return exists(f) ? f : d + "/b/" + seq[s] + fmt("/img%d.pgm", i); }; A.compute(q, file(1)); for (int i = 1; i < 6; ++i) { Feat B; B.compute(q, file(i + 1)); std::vector<NXPointMatch2D> m(A.n + 1); int n = nx_sift_match_brute_force(A.n, A.k, A.d, B.n, B.k, B.d, m.data(), (float)thr); double hc[9]; colmajor(hs[s][i], hc); auto C = cells(L[1 + s * 5 + i - 1]); REQ(c, C.size() == 10, "row has %zu columns", C.size()); double t1 = strtod(C[4].c_str(), 0), t2 = strtod(C[5].c_str(), 0); REQ(c, C[0] == seq[s] && atoi(C[1].c_str()) == i && atoi(C[2].c_str()) == A.n && atoi(C[3].c_str()) == B.n && t1 >= 0 && t2 >= 0 && atoi(C[6].c_str()) == n, "row %s: expected %s,%d,%d,%d,..,%d", L[1 + s * 5 + i - 1].c_str(), seq[s], i, A.n, B.n, n); for (int k = 0; k < 3; ++k) { int e = nx_homography_mark_inliers(hc, n, m.data(), 3.0 - k); REQ(c, atoi(C[7 + k].c_str()) == e, "inliers within %d pixels: %s expected %d", 3 - k, C[7 + k].c_str(), e); } c.ev("bench_matches", n); } }
}
// ---- nx-stitch
static void stitch(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); int n = r.i(2, 5), w = r.i(130, 170), h = r.i(110, 140), BW = 420, BH = 260; Px base = texture(r, BW, BH, 105, 36); struct Im { int x, y, w, h, off; bool stray; }; std::vector<Im> v; int x = r.i(0, 20), y = r.i(0, BH - h - 21), dir = 1; int stray = r.coin(1, 5) ? r.i(0, n - 1) : -1, bad = r.coin(1, 12) ? r.i(1, 2) : 0; if (n == 2 && stray >= 0) stray = 1;
    for (int i = 0; i < n; ++i) { Im m; m.x = x; m.y = y; m.w = std::min(w + r.i(-10, 10), BW - x); m.h = std::min(h + r.i(-10, 10), BH - y); m.off = r.i(0, 3) * 12; m.stray = i == stray; v.push_back(m); if (m.stray) continue; x += dir * r.i(20, 55); y += r.i(-15, 15); if (x > BW - w - 11) { x = BW - w - 11; dir = -1; } x = std::max(0, x); y = std::max(0, std::min(BH - h - 11, y)); }
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.i(0, i - 1)]); Args a; std::vector<Im> vo; for (int i = 0; i < n; ++i) { Im &m = v[perm[i]]; Px p = m.stray ? texture(r, m.w, m.h) : crop(base, m.x, m.y, m.w, m.h); if (!m.stray) for (auto &t : p.v) t = std::min(255.0f, t + m.off); std::string f = fmt("im%d.pgm", i); put(d + "/" + f, pgm(p)); vi::mixpx(c, p); a.push_back(f); vo.push_back(m); }
    if (bad == 1) a.resize(r.i(0, 1)); if (bad == 2) a[r.i(0, n - 1)] = "missing.pgm"; if (!bad && r.coin(1, 3)) { a.push_back("--sift-peak-threshold"); a.push_back("0.012"); } Outcome o = run(c, "stitch", a, d, 240); std::string out = d + "/tmp/panorama.jpeg"; if (bad) { rejected(c, o, "stitch", bad == 1 ? "fewer than two images" : "missing image"); REQ(c, !exists(out), "a panorama was written"); return; } if (stray >= 0) { rejected(c, o, "stitch", "unrelated image"); REQ(c, !exists(out), "a panorama was written"); return; }
    ok(c, o, "stitch"); REQ(c, exists(out), "no panorama written"); NXImage *im = nx_image_alloc(); nx_image_xload(im, out.c_str(), NX_IMAGE_LOAD_GRAYSCALE); Px p = vi::pixels(im); nx_image_free(im); int x0 = 1 << 30, y0 = 1 << 30, x1 = 0, y1 = 0; for (auto &m : vo) { x0 = std::min(x0, m.x); y0 = std::min(y0, m.y); x1 = std::max(x1, m.x + m.w); y1 = std::max(y1, m.y + m.h); } REQ(c, std::abs(p.w - (x1 - x0)) <= 4 && std::abs(p.h - (y1 - y0)) <= 4, "panorama is %dx%d, the scene %dx%d", p.w, p.h, x1 - x0, y1 - y0);
    // every scene position is shown by the last image covering it; the best global shift within two pixels absorbs rounding of the frame
    double best = 1e9; for (int dy = -2; dy <= 2; ++dy) for (int dx = -2; dx <= 2; ++dx) { double s = 0; long cnt = 0; for (int yy = 6; yy < p.h - 6; yy += 1) for (int xx = 6; xx < p.w - 6; xx += 1) { int X = xx + x0 + dx, Y = yy + y0 + dy; int who = -1; bool edge = false; for (int i = 0; i < n; ++i) { Im &m = vo[i]; bool in = X >= m.x && X < m.x + m.w && Y >= m.y && Y < m.y + m.h, deep = X >= m.x + 5 && X < m.x + m.w - 5 && Y >= m.y + 5 && Y < m.y + m.h - 5, near_ = X >= m.x - 5 && X < m.x + m.w + 5 && Y >= m.y - 5 && Y < m.y + m.h + 5; if (near_ && !deep) { edge = true; } else if (deep) { who = i; edge = false; } (void)in; } if (edge) continue; double e = who < 0 ? 0 : std::min(255.0f, base.at(X, Y) + vo[who].off); s += std::fabs(e - p.at(xx, yy)); ++cnt; } if (cnt) best = std::min(best, s / cnt); }
    c.desc(" err=%.2f", best); REQ(c, best < 14, "panorama differs from the scene by %.2f per pixel", best); c.ev("stitch_images", n); c.ev("panoramas"); c.ev(best < 3 ? "err<3" : best < 6 ? "err<6" : best < 10 ? "err<10" : "err<14");
}
// nx-stitch on rotated, scaled and slightly tilted views: the transforms do not commute, end views overlap too little to be matched directly
static H3 mul(const H3 &a, const H3 &b) { H3 q(9); for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) { q[y * 3 + x] = 0; for (int k = 0; k < 3; ++k) q[y * 3 + x] += a[y * 3 + k] * b[k * 3 + x]; } return q; }
static void tilted(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); int n = r.coin(1, 4) ? 2 : r.i(3, 4), w = r.i(140, 165), h = r.i(125, 150), step = n > 2 ? r.i(48, 62) : r.i(30, 60), BW = w + 120 + step * n, BH = h + 150; bool down = r.coin(1, 3); if (down) std::swap(BW, BH), BW = w + 150, BH = h + 120 + step * n; Px base = texture(r, BW, BH, 115, 38);
    std::vector<H3> S; double a0 = r.uni(-0.3, 0.3); for (int i = 0; i < n; ++i) { double a = a0 + r.uni(-0.22, 0.22), s = r.uni(0.93, 1.08), pm = r.coin() ? 1.5e-4 : 7e-4, p = r.uni(-pm, pm), q = r.uni(-pm, pm), C = s * std::cos(a), Sn = s * std::sin(a), cx = w / 2.0, cy = h / 2.0, X = 60 + cx + (down ? r.uni(-8, 8) : i * step), Y = 70 + cy + (down ? i * step : r.uni(-8, 8)); H3 M = {C, -Sn, 0, Sn, C, 0, p, q, 1}, A = {1, 0, -cx, 0, 1, -cy, 0, 0, 1}, B = {1, 0, X, 0, 1, Y, 0, 0, 1}; S.push_back(mul(B, mul(M, A))); }
    for (int i = n; i > 1; --i) std::swap(S[i - 1], S[r.i(0, i - 1)]);
    for (int attempt = 0;; ++attempt) { // matching is randomised: a scene that registers badly once is drawn again with another texture; only what never registers is wrong
    if (attempt) base = texture(r, BW, BH, 115, 38); Args a; for (int i = 0; i < n; ++i) { Px p(w, h, 1, false); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double u, v; tr(S[i], x, y, u, v); p.at(x, y) = (float)(int)(bil(base, u, v) + 0.5); } std::string f = fmt("im%d.pgm", i); put(d + "/" + f, pgm(p)); vi::mixpx(c, p); a.push_back(f); }
    Outcome o = run(c, "stitch", a, d, 240); std::string out = d + "/tmp/panorama.jpeg"; if (o.code != 0 && o.err.find("Could not match") != std::string::npos) { c.ev("tilted_unmatched"); REQ(c, !exists(out), "a panorama was written"); REQ(c, attempt < 2, "views that overlap by half were not matched"); continue; } ok(c, o, "stitch"); REQ(c, exists(out), "no panorama written"); NXImage *im = nx_image_alloc(); nx_image_xload(im, out.c_str(), NX_IMAGE_LOAD_GRAYSCALE); Px p = vi::pixels(im); nx_image_free(im);
    unlink(out.c_str()); double best = 1e9; std::string sizes; for (int k = 0; k < n; ++k) { H3 I = inv(S[k]); double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9; std::vector<H3> F(n); for (int i = 0; i < n; ++i) { H3 T = mul(I, S[i]); F[i] = inv(T); for (int q = 0; q < 4; ++q) { double u, v; tr(T, q & 1 ? w : 0, q & 2 ? h : 0, u, v); x0 = std::min(x0, u); x1 = std::max(x1, u); y0 = std::min(y0, v); y1 = std::max(y1, v); } }
        x0 = (int)x0; y0 = (int)y0; x1 = (int)x1; y1 = (int)y1; sizes += fmt(" %dx%d", (int)(x1 - x0), (int)(y1 - y0)); if (std::fabs(p.w - (x1 - x0)) > 8 || std::fabs(p.h - (y1 - y0)) > 8) continue;
        for (int dy = -4; dy <= 4; dy += 1) for (int dx = -4; dx <= 4; dx += 1) { double s = 0; long cnt = 0; for (int yy = 6; yy < p.h - 6; yy += 3) for (int xx = 6; xx < p.w - 6; xx += 3) { double X = xx + x0 + dx, Y = yy + y0 + dy; int who = -1; bool edge = false; for (int i = 0; i < n; ++i) { double u, v; tr(F[i], X, Y, u, v); bool deep = u > 7 && v > 7 && u < w - 8 && v < h - 8, nr = u > -8 && v > -8 && u < w + 7 && v < h + 7; if (nr && !deep) edge = true; else if (deep) { who = i; edge = false; } } if (edge) continue; double e = 0; if (who >= 0) { double u, v; tr(S[k], X, Y, u, v); e = bil(base, u, v); } s += std::fabs(e - p.at(xx, yy)); ++cnt; } if (cnt > 200) best = std::min(best, s / cnt); } }
    c.desc(" err=%.2f", best); if (best >= 10 && attempt < 2) { c.ev("tilted_again"); continue; } REQ(c, best < 1e8, "panorama of %dx%d fits no choice of reference view (%s)", p.w, p.h, sizes.c_str()); REQ(c, best < 10, "panorama differs from the scene by %.2f per pixel", best); c.ev("tilted_panoramas"); c.ev(fmt("tilted_err<%d", best < 4 ? 4 : best < 6 ? 6 : best < 8 ? 8 : 10).c_str()); return; }
}
// ---- vg-stereo-matcher
static void stereo(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); int kind = r.coin(1, 6) ? r.i(1, 3) : 0; bool exact = r.coin(); Pair P = make_pair(r, exact); if (kind == 1) for (auto &v : P.l.v) v = 50; if (kind == 2) for (auto &v : P.r.v) v = 50; if (kind == 3) P.r = texture(r, P.r.w, P.r.h); put(d + "/l.pgm", pgm(P.l)); put(d + "/r.pgm", pgm(P.r)); vi::mixpx(c, P.l); vi::mixpx(c, P.r); bool verb = r.coin() && kind != 1 && kind != 2; std::vector<Args> g; g.push_back({"-l", "l.pgm"}); g.push_back({"-r", "r.pgm"}); if (verb) g.push_back({"-v"}); int bad = r.coin(1, 8) ? r.i(1, 2) : 0; if (bad == 1) g.erase(g.begin() + r.i(0, 1)); if (bad == 2) unlink((d + (r.coin() ? "/l.pgm" : "/r.pgm")).c_str()); Args a; shuffle_opts(r, a, g); Outcome o = run(c, "stereo", a, d, 120); if (bad) { rejected(c, o, "stereo", bad == 1 ? "one image only" : "missing image"); return; } ok(c, o, "stereo");
    if (kind) { if (kind < 3) REQ(c, o.out.empty(), "homography reported for a flat picture: %s", escape(o.out).c_str()); return; }
    auto L = lines(o.out); std::vector<H3> Hs; for (auto &l : L) if (l.compare(0, 5, "h = [") == 0) { H3 h; for (int i = 0; i < 9; ++i) { std::string t = l.substr(5); h.clear(); const char *s = t.c_str(); char *e; for (int k = 0; k < 9; ++k) { h.push_back(strtod(s, &e)); REQ(c, e != s, "homography line %s", l.c_str()); s = e; } } H3 q(9); for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) q[y * 3 + x] = h[x * 3 + y]; Hs.push_back(q); }
    double tmin = 1e9; (void)tmin; if (exact || !Hs.empty()) { REQ(c, !Hs.empty(), "no homography found for a shifted picture: %s", escape(o.err, 300).c_str()); REQ(c, (int)Hs.size() == (verb ? 2 : 1), "%zu homographies printed", Hs.size()); }
    if (exact) for (auto &Q : Hs) { std::vector<double> er; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { double X = P.l.w * (0.1 + 0.2 * i), Y = P.l.h * (0.1 + 0.2 * j), u, v, s, t; tr(Q, X, Y, u, v); tr(P.l2r, X, Y, s, t); if (s < 0.1 * P.r.w || t < 0.1 * P.r.h || s > 0.9 * P.r.w || t > 0.9 * P.r.h) continue; er.push_back(std::hypot(u - s, v - t)); } if (er.empty()) continue; std::sort(er.begin(), er.end()); double worst = er[er.size() / 2]; REQ(c, worst < 4.0, "homography is off by %.2f pixels at half of the common positions", worst); c.ev("stereo_recovered"); c.ev(worst < 0.5 ? "worst<0.5" : worst < 1 ? "worst<1" : "worst<2"); }
    if (verb) for (auto f : {"left_keys.png", "right_keys.png", "h_matches.png"}) REQ(c, exists(d + "/tmp/" + f), "%s not written", f);
}
// ---- --help lists the options of every tool
static void help(Ctx &c) {
    auto &r = c.rng; std::string d = wd(); c.nt(); static const struct { const char *t; std::vector<const char *> sw; } T[] = {{"harris", {"-i", "--sigma-int", "-k", "-N", "-t", "--key-image", "--debug", "-v"}}, {"sift", {"-i", "-o", "-v", "--sift-sigma0", "--sift-peak-threshold"}}, {"fit", {"-l", "-r", "--validation-points", "--ground-truth-l2r", "--ground-truth-r2l", "--benchmark-ransac", "--snn-threshold", "--ransac-inlier-threshold", "-v"}}, {"bench", {"--vgg-base", "--dist-ratio-thr", "-v"}}, {"stitch", {"--sift-sigma0"}}, {"stereo", {"-l", "-r", "-v"}}};
    auto &t = T[r.i(0, 5)]; Args a; a.push_back(r.coin() ? "-h" : "--help"); Outcome o = run(c, t.t, a, d); REQ(c, o.kind == EXITED, "%s %s ended with %d", t.t, a[0].c_str(), (int)o.kind); std::string s = o.out + o.err; REQ(c, s.find("USAGE") != std::string::npos && s.find("--help") != std::string::npos, "%s %s printed no usage: %s", t.t, a[0].c_str(), escape(s, 200).c_str()); for (auto w : t.sw) REQ(c, s.find(w) != std::string::npos, "usage of %s does not name %s", t.t, w); c.mix(r.next()); c.ev("usages");
}
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"harris", harris, 260, 4000}, {"sift", sift, 160, 2500}, {"fit", fit, 160, 2400}, {"bench", bench, 10, 150}, {"stitch", stitch, 40, 600}, {"tilted", tilted, 40, 600}, {"stereo", stereo, 60, 900}, {"help", help, 16, 100}}); }
