// Dataset, directory and keypoint readers against what was put on disk.
#include "imgfile.hpp"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_log.h"
#include <array>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
using namespace vh; using namespace vi;
static void put_file(const std::string &p, const std::string &s) { write_file(p, s.data(), s.size()); }
static void rmtree(const std::string &p) { DIR *d = opendir(p.c_str()); if (d) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat st; if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(q); else unlink(q.c_str()); } closedir(d); rmdir(p.c_str()); } }
static int dirseq = 0;
static std::string newdir(Rng &r) { std::string d = scratch() + fmt("/d%d", dirseq++); if (r.coin(1, 3)) { int k = r.i(1, 120); for (int i = 0; i < k; ++i) d += "abc d.%s%d"[r.i(0, 9)]; } mkdir(d.c_str(), 0700); return d; }
static std::string number(Rng &r) { switch (r.i(0, 6)) { case 0: return fmt("%d", r.i(-9, 9)); case 1: return fmt("%.17g", r.gauss()); case 2: return fmt("%e", r.gauss() * 1e3); case 3: return fmt("%.6f", r.uni(-1000, 1000)); case 4: return fmt("%.17g", r.gauss() * std::pow(10.0, r.i(-300, 300))); case 5: return "-0.0"; default: return fmt("%.9e", r.uni(-1, 1)); } }
static std::string sep(Rng &r) { static const char *s[] = {" ", "  ", "\t", " \t "}; return s[r.i(0, 3)]; }
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static void pic(Ctx &c, const NXImage *i, const Px &p, const char *what) { REQ(c, i->width == p.w && i->height == p.h && i->n_channels == p.nc, "%s: image %dx%dx%d expected %dx%dx%d", what, i->width, i->height, i->n_channels, p.w, p.h, p.nc); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int k = 0; k < p.nc; ++k) REQ(c, get(i, x, y, k) == p.at(x, y, k), "%s: pixel (%d,%d,%d) is %g expected %g", what, x, y, k, get(i, x, y, k), p.at(x, y, k)); c.ev("frame_pixels", (uint64_t)p.w * p.h); }
// rows of a 3x4 matrix written row by row; the library stores columns
struct Row { double v[12]; };
static std::string row(Rng &r, Row &q, bool nl = true) { std::string s; for (int i = 0; i < 12; ++i) { std::string t = number(r); q.v[i] = strtod(t.c_str(), nullptr); s += (i ? sep(r) : "") + t; } return s + (nl ? "\n" : ""); }
static void rowcheck(Ctx &c, const double *P, const Row &q, const std::string &what) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) REQ(c, same(P[j * 3 + i], q.v[i * 4 + j]), "%s: element (%d,%d) is %.17g expected %.17g", what.c_str(), i, j, P[j * 3 + i], q.v[i * 4 + j]); }
static void kitti(Ctx &c) {
    auto &r = c.rng; std::string b = newdir(r); c.nt(); if (r.coin(7, 8)) mkdir((b + "/sequences").c_str(), 0700); if (r.coin(7, 8)) mkdir((b + "/poses").c_str(), 0700); bool have[22]; std::vector<int> ids; for (int i = 0; i < 22; ++i) { have[i] = r.coin(); std::string p = b + fmt("/sequences/%02d", i); if (have[i]) have[i] = !mkdir(p.c_str(), 0700); else if (r.coin(1, 4)) put_file(p, "not a directory"); if (have[i]) ids.push_back(i); } if (r.coin(1, 4)) { mkdir((b + "/sequences/22").c_str(), 0700); mkdir((b + "/sequences/7").c_str(), 0700); }
    std::string bb = r.coin(1, 4) ? b + "/" : b; NXKittiSLAM *d = nx_kitti_slam_new(bb.c_str()); REQ(c, bb == d->base_dir, "base directory"); for (int i = 0; i < 22; ++i) REQ(c, (bool)d->is_seq_available[i] == have[i], "sequence %d availability is %d expected %d", i, (int)d->is_seq_available[i], (int)have[i]); c.ev("availability", 22);
    { std::string m; std::vector<int> miss; for (int i = 0; i < 22; ++i) if (!have[i]) miss.push_back(i); if (!miss.empty()) { int q = r.pick(miss); REQ(c, !returns(c, [&] { nx_kitti_slam_sequence_new(d, q); }, &m), "missing sequence %d was loaded", q); c.ev("missing_reported"); } }
    int n_seq = ids.empty() ? 0 : r.i(1, 2); for (int z = 0; z < n_seq; ++z) { int id = r.pick(ids); std::string s = b + fmt("/sequences/%02d", id), pf = b + fmt("/poses/%02d.txt", id);
        int n; switch (r.i(0, 9)) { case 0: n = 0; break; case 1: n = r.i(299, 302); break; case 2: n = r.coin(1, 3) ? r.i(1299, 1302) : r.coin(1, 20) ? r.i(2299, 6000) : r.i(300, 400); break; default: n = r.i(1, 40); } bool gt = r.coin(3, 4); std::vector<Row> P(n), C(4); std::vector<double> T(n); std::string ps, ts, cs; for (int i = 0; i < n; ++i) { ps += row(r, P[i], i < n - 1 || r.coin()); std::string t = number(r); T[i] = strtod(t.c_str(), nullptr); ts += t + (i < n - 1 || r.coin() ? "\n" : ""); } for (int i = 0; i < 4; ++i) cs += fmt("P%d: ", i) + row(r, C[i], i < 3 || r.coin()); if (r.coin(1, 3)) { Row t; if (cs.back() != '\n') cs += "\n"; cs += "Tr: " + row(r, t); }
        c.desc("sequence %d: %d frames, ground truth %d; ", id, n, (int)gt); c.mixb(ps.data(), ps.size()); c.mixb(cs.data(), cs.size()); unlink(pf.c_str()); if (gt) { if (access((b + "/poses").c_str(), F_OK)) gt = false; else put_file(pf, ps); } put_file(s + "/times.txt", ts); put_file(s + "/calib.txt", cs);
        bool cam[4], lid = r.coin(); for (int i = 0; i < 4; ++i) { cam[i] = r.coin(); std::string q = s + fmt("/image_%d", i); if (cam[i]) mkdir(q.c_str(), 0700); else rmtree(q); } if (lid) mkdir((s + "/velodyne").c_str(), 0700); else rmtree(s + "/velodyne");
        int bad = r.coin(1, 5) ? r.i(1, 5) : 0; // a file that is missing or does not fit
        if (bad == 1) unlink((s + "/times.txt").c_str()); if (bad == 2) unlink((s + "/calib.txt").c_str()); if (bad == 3) { if (!gt) bad = 0; else put_file(s + "/times.txt", ts + (n ? "\n" : "") + "1.5\n"); } if (bad == 4) { if (!gt) bad = 0; else { Row t; put_file(pf, ps + "\n" + row(r, t)); } } if (bad == 5) { size_t at = (size_t)r.range(0, (int64_t)cs.find("P3:") + 2); put_file(s + "/calib.txt", cs.substr(0, at)); }
        NXKittiSLAMSequence *q = nullptr; std::string m; bool ret = returns(c, [&] { q = nx_kitti_slam_sequence_new(d, id); }, &m); if (bad) { REQ(c, !ret, "sequence with defect %d (1 no times, 2 no calibration, 3 extra time, 4 extra pose, 5 truncated calibration) was loaded", bad); c.noleak = true; c.ev("defect_reported"); continue; }
        REQ(c, ret, "valid sequence refused: %s", m.c_str()); REQ(c, q->length == n, "length %d expected %d", q->length, n); REQ(c, (bool)q->is_gt_available == gt, "ground truth availability %d expected %d", (int)q->is_gt_available, (int)gt); REQ(c, q->seq_id == id && q->dataset == d, "sequence identity"); for (int i = 0; i < n; ++i) { REQ(c, same(q->times[i], T[i]), "time %d is %.17g expected %.17g", i, q->times[i], T[i]); if (gt) rowcheck(c, q->poses[i], P[i], fmt("pose %d", i)); } for (int i = 0; i < 4; ++i) { rowcheck(c, q->calib[i], C[i], fmt("calibration %d", i)); REQ(c, (bool)q->is_cam_available[i] == cam[i], "camera %d availability", i); } REQ(c, (bool)q->is_lidar_available == lid, "lidar availability"); c.ev("poses", n); c.ev("kitti_sequences");
        NXImage *im = nx_image_alloc(); for (int k = 0; k < 4; ++k) { int cm = r.i(0, 3), fr = n ? r.i(0, n - 1) : r.i(0, 3); if (r.coin(1, 6)) fr = r.i(0, 999999); std::string fp = s + fmt("/image_%d/%06d.png", cm, fr); if (!cam[cm]) { REQ(c, !returns(c, [&] { nx_kitti_slam_sequence_xload_frame(q, cm, fr, im); }), "frame of a missing camera was loaded"); c.noleak = true; c.ev("missing_reported"); break; } vf::File f = vf::make_png(r, r.i(1, 12), r.i(1, 12)); if (f.what.back() == '*') continue; if (r.coin(1, 6)) { unlink(fp.c_str()); REQ(c, !returns(c, [&] { nx_kitti_slam_sequence_xload_frame(q, cm, fr, im); }), "missing frame was loaded"); c.noleak = true; c.ev("missing_reported"); break; } put_file(fp, f.bytes); REQ(c, returns(c, [&] { nx_kitti_slam_sequence_xload_frame(q, cm, fr, im); }, &m), "camera %d frame %d refused: %s", cm, fr, m.c_str()); pic(c, im, f.px, "kitti frame"); c.ev("frames"); }
        nx_image_free(im); nx_kitti_slam_sequence_free(q); }
    nx_kitti_slam_free(d); nx_kitti_slam_free(nullptr); nx_kitti_slam_sequence_free(nullptr); rmtree(b); REQ(c, !returns(c, [&] { nx_kitti_slam_new(b.c_str()); }), "missing base directory accepted");
}
static const char *AT[] = {"VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"};
static std::string capture(const std::function<void()> &f) { fflush(stdout); std::string p = scratch() + "/stdout.txt"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), old = dup(1); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old); close(fd); std::string s; read_file(p, s); unlink(p.c_str()); return s; }
static void temple(Ctx &c) {
    auto &r = c.rng; std::string b = newdir(r), name = NX_TEMPLE_COLOR_128_SEQ_NAMES[r.i(0, NX_TEMPLE_COLOR_128_N_SEQ - 1)], q = b + "/" + name; c.nt(); mkdir(q.c_str(), 0700); mkdir((q + "/img").c_str(), 0700); int st = r.coin(1, 6) ? 0 : r.i(1, r.coin(1, 5) ? 12000 : 300), n = r.coin(1, 8) ? r.i(300, 1200) : r.i(1, 30); unsigned at = 0; std::string as, gs; std::vector<int> order; for (int i = 0; i < 11; ++i) if (r.coin()) order.push_back(i); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.i(0, (int)i - 1)]); for (size_t i = 0; i < order.size(); ++i) { at |= 1u << order[i]; as += AT[order[i]]; if (i + 1 < order.size() || r.coin()) as += "\n"; }
    std::vector<std::array<float, 4>> G(n); for (int i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) { std::string t = r.coin(1, 3) ? fmt("%d", r.i(-50, 2000)) : r.coin() ? fmt("%.3f", r.uni(-10, 1500)) : fmt("%.9g", r.gauss() * 100); G[i][k] = strtof(t.c_str(), nullptr); gs += t + (k < 3 ? (r.coin(1, 8) ? ", " : ",") : ""); } if (i < n - 1 || r.coin()) gs += "\n"; } if (r.coin(1, 5)) { if (gs.back() != '\n') gs += "\n"; gs += "1,2,3,4\n"; }
    std::string fs = fmt("%d,%d", st, st + n - 1) + (r.coin() ? "\n" : ""); put_file(q + "/" + name + "_frames.txt", fs); put_file(q + "/" + name + "_att.txt", as); put_file(q + "/" + name + "_gt.txt", gs); c.desc("%s frames %d..%d attributes %x", name.c_str(), st, st + n - 1, at); c.mixb(gs.data(), gs.size()); c.mix(at); c.mix(st);
    int bad = r.coin(1, 4) ? r.i(1, 6) : 0; if (bad == 1) unlink((q + "/" + name + "_frames.txt").c_str()); if (bad == 2) unlink((q + "/" + name + "_att.txt").c_str()); if (bad == 3) unlink((q + "/" + name + "_gt.txt").c_str()); if (bad == 4) { size_t p = 0; for (int i = 0; i < n - 1; ++i) p = gs.find('\n', p) + 1; put_file(q + "/" + name + "_gt.txt", gs.substr(0, p)); } if (bad == 5) put_file(q + "/" + name + "_frames.txt", fmt("%d", st)); std::string nm = name; if (bad == 6) { nm = r.coin() ? "nosuch" : "x" + name; mkdir((b + "/" + nm).c_str(), 0700); }
    NXTempleColor128Sequence *s = nullptr; std::string m; bool ret = returns(c, [&] { s = nx_temple_color_128_sequence_new(b.c_str(), nm.c_str()); }, &m); if (bad) { REQ(c, !ret, "sequence with defect %d was loaded", bad); c.noleak = true; c.ev("defect_reported"); rmtree(b); return; }
    REQ(c, ret, "valid sequence refused: %s", m.c_str()); REQ(c, s->start_frame == st && s->end_frame == st + n - 1 && s->length == n, "range %d..%d (%d)", s->start_frame, s->end_frame, s->length); REQ(c, s->attributes == at, "attributes %x expected %x", s->attributes, at); REQ(c, b == s->base_dir && name == s->name, "names"); for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) REQ(c, s->ground_truth[i][k] == G[i][k], "ground truth %d,%d is %.9g expected %.9g", i, k, (double)s->ground_truth[i][k], (double)G[i][k]); c.ev("ground_truth_rows", n); c.ev("temple_sequences");
    if (r.coin(1, 4)) { std::string out = capture([&] { nx_temple_color_128_sequence_print(s); }); std::string names; for (int i = 0; i < 11; ++i) if (at >> i & 1) { REQ(c, out.find(AT[i]) != std::string::npos, "printed description lacks attribute %s", AT[i]); } REQ(c, out.find(name) != std::string::npos && out.find(fmt("%d", st)) != std::string::npos && out.find(fmt("%d", st + n - 1)) != std::string::npos, "printed description lacks name or range"); c.ev("printed"); }
    NXImage *im = nx_image_alloc(); for (int k = 0; k < 3; ++k) { int fr = r.i(st, st + n - 1), mode = r.i(0, 1); std::string fp = q + fmt("/img/%04d.jpg", fr); if (r.coin(1, 6)) { unlink(fp.c_str()); REQ(c, !returns(c, [&] { nx_temple_color_128_sequence_xload_frame(s, fr, im, NX_IMAGE_LOAD_AS_IS); }), "missing frame was loaded"); c.noleak = true; c.ev("missing_reported"); break; } vf::File f = vf::make_jpeg(r, r.i(1, 20), r.i(1, 20)); put_file(fp, f.bytes); REQ(c, returns(c, [&] { nx_temple_color_128_sequence_xload_frame(s, fr, im, mode ? NX_IMAGE_LOAD_GRAYSCALE : NX_IMAGE_LOAD_AS_IS); }, &m), "frame refused: %s", m.c_str()); pic(c, im, mode ? vf::jpeg_pixels(f.bytes, 1) : f.px, "temple frame"); c.ev("frames"); } nx_image_free(im);
    nx_temple_color_128_sequence_free(s); nx_temple_color_128_sequence_free(nullptr); rmtree(b);
    if (r.coin(1, 8)) { REQ(c, !returns(c, [&] { nx_temple_color_128_sequence_new(b.c_str(), name.c_str()); }), "missing base directory accepted"); mkdir(b.c_str(), 0700); REQ(c, !returns(c, [&] { nx_temple_color_128_sequence_new(b.c_str(), name.c_str()); }), "missing sequence directory accepted"); rmtree(b); c.noleak = true; c.ev("missing_reported"); }
}
static void vgg(Ctx &c) {
    auto &r = c.rng; std::string b = newdir(r), name = NX_VGG_AFFINE_SEQ_NAMES[r.i(0, NX_VGG_AFFINE_N_SEQ - 1)], q = b + "/" + name; c.nt(); mkdir(q.c_str(), 0700); double H[7][9]; for (int i = 2; i <= 6; ++i) { std::string s; for (int k = 0; k < 9; ++k) { std::string t = number(r); H[i][k] = strtod(t.c_str(), nullptr); s += (r.coin(1, 4) ? sep(r) : k ? " " : "") + t + (k % 3 == 2 ? (k == 8 && r.coin() ? "" : r.coin(1, 4) ? " \n" : "\n") : ""); } if (r.coin(1, 6)) s += "\n\n"; put_file(q + fmt("/H1to%dp", i), s); c.mixb(s.data(), s.size()); }
    c.desc("vgg %s", name.c_str()); int bad = r.coin(1, 5) ? r.i(1, 3) : 0, w = r.i(2, 6); if (bad == 1) unlink((q + fmt("/H1to%dp", w)).c_str()); if (bad == 2) { std::string s; for (int k = 0; k < r.i(0, 8); ++k) s += number(r) + " "; s += r.coin() ? "x" : ""; put_file(q + fmt("/H1to%dp", w), s); } std::string nm = name; if (bad == 3) { nm = r.coin() ? "other" : "a" + name; mkdir((b + "/" + nm).c_str(), 0700); }
    if (bad == 2) { std::string s = "1 2 3\n4 5 6\n7 8"; if (r.coin()) s = "1 2 3\n4 x 6\n7 8 9\n"; put_file(q + fmt("/H1to%dp", w), s); }
    NXVGGAffineSequence *s = nullptr; std::string m; bool ret = returns(c, [&] { s = nx_vgg_affine_sequence_new(b.c_str(), nm.c_str()); }, &m); if (bad) { REQ(c, !ret, "sequence with defect %d was loaded", bad); c.noleak = true; c.ev("defect_reported"); rmtree(b); return; } REQ(c, ret, "valid sequence refused: %s", m.c_str()); REQ(c, s->length == 6 && b == s->base_dir && name == s->name, "length or names");
    for (int k = 0; k < 9; ++k) REQ(c, s->h[0][k] == (k % 4 == 0), "first homography is not the identity"); for (int i = 2; i <= 6; ++i) for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) REQ(c, same(s->h[i - 1][x * 3 + y], H[i][y * 3 + x]), "homography %d element (%d,%d) is %.17g expected %.17g", i, y, x, s->h[i - 1][x * 3 + y], H[i][y * 3 + x]); c.ev("homographies", 5); c.ev("vgg_sequences");
    NXImage *im = nx_image_alloc(); for (int k = 0; k < 4; ++k) { int fr = r.i(0, 5); std::string ppm = q + fmt("/img%d.ppm", fr + 1), pgm = q + fmt("/img%d.pgm", fr + 1); int which = r.i(0, 3); unlink(ppm.c_str()); unlink(pgm.c_str()); vf::File f = vf::make_pnm(r, r.i(1, 12), r.i(1, 12)), g = vf::make_pnm(r, r.i(1, 12), r.i(1, 12)); if (which & 1) put_file(ppm, f.bytes); if (which & 2) put_file(pgm, g.bytes);
        if (!which) { REQ(c, !returns(c, [&] { nx_vgg_affine_sequence_xload_frame(s, fr, im, NX_IMAGE_LOAD_AS_IS); }), "missing frame was loaded"); c.noleak = true; c.ev("missing_reported"); break; } REQ(c, returns(c, [&] { nx_vgg_affine_sequence_xload_frame(s, fr, im, NX_IMAGE_LOAD_AS_IS); }, &m), "frame %d refused (%d): %s", fr, which, m.c_str()); pic(c, im, which & 1 ? f.px : g.px, "vgg frame"); c.ev("frames"); } nx_image_free(im); nx_vgg_affine_sequence_free(s); nx_vgg_affine_sequence_free(nullptr); rmtree(b);
    if (r.coin(1, 8)) { REQ(c, !returns(c, [&] { nx_vgg_affine_sequence_new(b.c_str(), name.c_str()); }), "missing base directory accepted"); mkdir(b.c_str(), 0700); REQ(c, !returns(c, [&] { nx_vgg_affine_sequence_new(b.c_str(), name.c_str()); }), "missing sequence directory accepted"); rmtree(b); c.noleak = true; c.ev("missing_reported"); }
}
static void dirs(Ctx &c) {
    auto &r = c.rng; std::string b = newdir(r); int n = r.coin(1, 8) ? r.i(200, 700) : r.i(0, 30); std::map<std::string, int> m; for (int i = 0; i < n; ++i) { int len = r.coin(1, 10) ? 255 : r.i(1, 20); std::string s; for (int k = 0; k < len; ++k) { char ch = r.coin(1, 6) ? (char)r.i(1, 255) : (char)("abcABC019._- %~"[r.i(0, 14)]); if (ch == '/') ch = '_'; s += ch; } if (s == "." || s == ".." || m.count(s)) continue; bool d = r.coin(1, 5); if (d ? mkdir((b + "/" + s).c_str(), 0700) == 0 : write_file(b + "/" + s, "x", r.coin() ? 1 : 0)) m[s] = d; } c.desc("directory of %zu entries", m.size()); if (m.size() > 2) c.nt(); for (auto &e : m) c.mixb(e.first.data(), e.first.size());
    std::vector<std::string> want = {".", ".."}; for (auto &e : m) want.push_back(e.first); std::sort(want.begin(), want.end(), [](const std::string &x, const std::string &y) { return strcmp(x.c_str(), y.c_str()) < 0; });
    for (int k = 0; k < 2; ++k) { NXStringArray *a = nx_scan_dir(b.c_str()); REQ(c, (size_t)nx_string_array_size(a) == want.size(), "%d entries expected %zu", (int)nx_string_array_size(a), want.size()); for (size_t i = 0; i < want.size(); ++i) REQ(c, want[i] == nx_string_array_get(a, (int)i), "entry %zu is %s expected %s", i, escape(nx_string_array_get(a, (int)i)).c_str(), escape(want[i]).c_str()); nx_string_array_free(a); c.ev("entries", want.size()); }
    for (auto &e : m) { std::string p = b + "/" + e.first; REQ(c, (bool)nx_check_dir(p.c_str()) == (e.second != 0), "check_dir(%s) is wrong", escape(e.first).c_str()); if (!e.second) REQ(c, nx_check_file(p.c_str()), "check_file misses %s", escape(e.first).c_str()); c.ev("checked"); } std::string none = b + "/no such entry here"; REQ(c, !nx_check_dir(none.c_str()) && !nx_check_file(none.c_str()), "a missing entry exists"); REQ(c, nx_check_dir(b.c_str()) && nx_check_dir((b + "/.").c_str()), "existing directory is missing");
    if (r.coin()) { rmtree(b); return; }
    nx_ensure_dir(none.c_str()); struct stat st; REQ(c, !stat(none.c_str(), &st) && S_ISDIR(st.st_mode), "directory was not created"); REQ(c, (st.st_mode & 0700) == 0700, "created directory is not accessible"); put_file(none + "/keep", "k"); nx_ensure_dir(none.c_str()); REQ(c, nx_check_file((none + "/keep").c_str()), "ensuring an existing directory changed it"); std::string k; read_file(none + "/keep", k); REQ(c, k == "k", "file content changed"); std::string deep = none + "/x/y"; REQ(c, !returns(c, [&] { nx_ensure_dir(deep.c_str()); }), "a directory below a missing one was reported as present"); REQ(c, !returns(c, [&] { nx_ensure_dir((none + "/keep").c_str()); }), "a file in the way was accepted as directory"); k.clear(); read_file(none + "/keep", k); REQ(c, k == "k", "file content changed"); REQ(c, !returns(c, [&] { nx_scan_dir((none + "/keep").c_str()); }) && !returns(c, [&] { nx_scan_dir(deep.c_str()); }), "listing something that is not a directory succeeded"); c.ev("ensure"); c.noleak = true; rmtree(b);
}
static float fval(Rng &r) { uint32_t u = (uint32_t)r.next(); float f; memcpy(&f, &u, 4); return r.coin() ? (float)r.gauss() : f; }
static void keys(Ctx &c) {
    auto &r = c.rng; int n = r.size(200, 6000); std::vector<NXKeypoint> K(n), L(n + 1); if (n) memset((void *)K.data(), 0xA5, K.size() * sizeof(NXKeypoint)); for (auto &k : K) { k.x = (int)r.next(); k.y = (int)r.next(); k.xs = fval(r); k.ys = fval(r); k.level = (int)r.next(); k.scale = fval(r); k.sigma = fval(r); k.score = fval(r); k.ori = fval(r); k.id = r.next(); } c.desc("%d keypoints", n); c.mixb(K.data(), K.size() * sizeof(NXKeypoint)); if (n > 1) c.nt(); auto eq = [](const NXKeypoint &a, const NXKeypoint &b) { auto f = [](float x, float y) { return memcmp(&x, &y, 4) == 0; }; return a.x == b.x && a.y == b.y && f(a.xs, b.xs) && f(a.ys, b.ys) && a.level == b.level && f(a.scale, b.scale) && f(a.sigma, b.sigma) && f(a.score, b.score) && f(a.ori, b.ori) && a.id == b.id; };
    std::string p = scratch() + "/keys.bin"; FILE *f = fopen(p.c_str(), "wb"); int pre = r.i(0, 9); for (int i = 0; i < pre; ++i) fputc(i, f); int split = r.i(0, n); REQ(c, nx_keypoint_write(K.data(), split, f) == split, "write count"); if (r.coin()) nx_keypoint_xwrite(K.data() + split, n - split, f); else REQ(c, nx_keypoint_write(K.data() + split, n - split, f) == n - split, "write count"); long end = ftell(f); fputs("tail", f); fclose(f); REQ(c, n == 0 || end > pre, "nothing written");
    f = fopen(p.c_str(), "rb"); fseek(f, pre, SEEK_SET); memset((void *)L.data(), 0x5A, L.size() * sizeof(NXKeypoint)); int s2 = r.i(0, n); if (r.coin()) nx_keypoint_xread(L.data(), s2, f); else REQ(c, nx_keypoint_read(L.data(), s2, f) == s2, "read count"); REQ(c, nx_keypoint_read(L.data() + s2, n - s2, f) == n - s2, "read count"); for (int i = 0; i < n; ++i) REQ(c, eq(K[i], L[i]), "keypoint %d changed by writing and reading", i); char t[5] = {0}; REQ(c, fread(t, 1, 4, f) == 4 && !strcmp(t, "tail"), "reading keypoints consumed other bytes"); fclose(f); c.ev("keypoints", n); NXKeypoint z; memset((void *)&z, 0x5A, sizeof z); REQ(c, !memcmp((void *)&L[n], &z, sizeof z), "written past the requested keypoints");
    if (n) { long sz = (end - pre) / n; REQ(c, sz * n == end - pre, "keypoints are not of one size"); long cut = r.range(pre, end - 1); int whole = (int)((cut - pre) / sz); REQ(c, truncate(p.c_str(), cut) == 0, "truncate"); f = fopen(p.c_str(), "rb"); fseek(f, pre, SEEK_SET); int got = nx_keypoint_read(L.data(), n, f); REQ(c, got == whole, "%d keypoints read from a file holding %d", got, whole); for (int i = 0; i < got; ++i) REQ(c, eq(K[i], L[i]), "keypoint %d of a truncated file", i); fseek(f, pre, SEEK_SET); REQ(c, !returns(c, [&] { nx_keypoint_xread(L.data(), n, f); }), "checked read of a truncated file succeeded"); fclose(f); f = fopen(p.c_str(), "rb"); REQ(c, !returns(c, [&] { nx_keypoint_xwrite(K.data(), n, f); fflush(f); }), "checked write to a read-only stream succeeded"); clearerr(f); fclose(f); c.ev("truncated"); }
    NXKeypoint q; memset((void *)&q, 0, sizeof q); int lv = r.i(0, 8); q.scale = r.coin() ? (float)(1 << lv) : (float)r.uni(1, 40); q.x = r.i(0, 5000); q.y = r.i(0, 5000); q.xs = (float)r.uni(0, 5000); q.ys = (float)r.uni(0, 5000); double ex = (double)q.x * q.scale, ey = (double)q.y * q.scale; REQ(c, std::fabs(nx_keypoint_x0(&q) - ex) <= 1 + ex * 1e-6 && nx_keypoint_x0(&q) <= ex + ex * 1e-6 && std::fabs(nx_keypoint_y0(&q) - ey) <= 1 + ey * 1e-6 && nx_keypoint_y0(&q) <= ey + ey * 1e-6, "integer base coordinates"); REQ(c, near(nx_keypoint_xs0(&q), (double)q.xs * q.scale, 0, 1e-6) && near(nx_keypoint_ys0(&q), (double)q.ys * q.scale, 0, 1e-6), "base coordinates"); unlink(p.c_str());
}
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"kitti", kitti, 600, 10000}, {"temple", temple, 800, 14000}, {"vgg", vgg, 1000, 16000}, {"dirs", dirs, 300, 5000}, {"keys", keys, 1500, 30000}}); }
