// Injected I/O failures: every stream the library opens goes through __wrap_fopen, which can
// hand out a stream over the real file whose open, n-th byte read, n-th byte written or close fails.
#ifndef NX_ENABLE_JLOG
#define NX_ENABLE_JLOG
#endif
#include "imgfile.hpp"
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <csignal>
#include <cerrno>
#include <dirent.h>
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_data_frame.h"
using namespace vh; using namespace vi;
enum { NONE, WR, RD, CL, OP };
struct Plan { int kind = NONE; long at = 0; bool once = false; int nth = 0; int err = ENOSPC; bool fired = false; int opened = 0; bool wonly = false; };
static Plan P; static bool armed = false;
struct Cookie { int fd; long pos; bool hit; bool dead; bool mine; FILE *f; };
static std::set<Cookie *> live;
static ssize_t ck_read(void *v, char *b, size_t n) { auto *k = (Cookie *)v; if (k->dead) return 0; if (k->mine && P.kind == RD && !(P.once && k->hit)) { if (k->pos >= P.at) { P.fired = true; k->hit = true; errno = P.err; return -1; } n = std::min<size_t>(n, (size_t)(P.at - k->pos)); } ssize_t m = ::read(k->fd, b, n); if (m > 0) k->pos += m; return m; }
static ssize_t ck_write(void *v, const char *b, size_t n) { auto *k = (Cookie *)v; if (k->dead) return (ssize_t)n; if (k->mine && P.kind == WR && !(P.once && k->hit) && k->pos + (long)n > P.at) { long m = std::max(0l, P.at - k->pos); if (m > 0 && ::write(k->fd, b, (size_t)m) != m) m = 0; k->pos += m; P.fired = true; k->hit = true; errno = P.err; return m; } ssize_t m = ::write(k->fd, b, n); if (m > 0) k->pos += m; return m < 0 ? 0 : m; }
static int ck_seek(void *v, off64_t *o, int w) { auto *k = (Cookie *)v; off_t p = lseek(k->fd, *o, w); if (p < 0) return -1; k->pos = p; *o = p; return 0; }
static int ck_close(void *v) { auto *k = (Cookie *)v; ::close(k->fd); bool bad = k->mine && P.kind == CL && !k->dead; live.erase(k); delete k; if (bad) { P.fired = true; errno = P.err; return -1; } return 0; }
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
    if (!armed) return __real_fopen(path, mode); bool mine = (!P.wonly || mode[0] == 'w') && P.opened++ == P.nth;
    if (mine && P.kind == OP) { P.fired = true; errno = P.err; return nullptr; }
    bool w = mode[0] == 'w'; int fd = ::open(path, w ? O_RDWR | O_CREAT | O_TRUNC : O_RDONLY, 0600); if (fd < 0) return nullptr; auto *k = new Cookie{fd, 0, false, false, mine, nullptr}; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; k->f = fopencookie(k, mode, io); if (!k->f) { ::close(fd); delete k; return nullptr; } live.insert(k); return k->f; }
struct Arm { Arm(Plan p) { P = p; P.fired = false; P.opened = 0; armed = true; } ~Arm() { armed = false; while (!live.empty()) { Cookie *k = *live.begin(); k->dead = true; fclose(k->f); } } };
static std::vector<long> points(Rng &r, long L, bool thorough) { std::set<long> s = {0, 1, 2, L - 1, L, L + 1, L / 2}; for (long b = 4096; b <= L + 1; b += 4096) { s.insert(b - 1); s.insert(b); s.insert(b + 1); } int n = thorough ? 40 : 8; for (int i = 0; i < n; ++i) s.insert(r.range(0, L)); std::vector<long> v; for (long x : s) if (x >= 0) v.push_back(x); return v; }
struct Maker { NXImage *img = nullptr; Img holder; NXDataFrame *df = nullptr; NXStringArray *sa = nullptr; NXBriefExtractor *be = nullptr; std::string text; std::vector<NXKeypoint> k, p; std::vector<uchar> d, e; std::vector<double> M; int m = 1, n = 1; NXJSONNode *js = nullptr; NXSIFTDetector *det = nullptr; };
static NXDataFrame *table(Rng &r, int rows) { NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, NX_DCT_INT, "id"); nx_data_frame_add_column(df, NX_DCT_DOUBLE, "value, x"); nx_data_frame_add_column(df, NX_DCT_STRING, "text"); nx_data_frame_add_column(df, NX_DCT_BOOL, "flag"); for (int i = 0; i < rows; ++i) { int q = nx_data_frame_add_row(df); nx_data_frame_set_int(df, q, 0, (int)r.next()); if (r.coin(4, 5)) nx_data_frame_set_double(df, q, 1, r.uni(-9, 9)); nx_data_frame_set_string(df, q, 2, r.coin() ? "plain" : "say \"hi\", twice\n"); nx_data_frame_set_bool(df, q, 3, r.coin() ? NX_TRUE : NX_FALSE); } return df; }
static std::string cells(NXDataFrame *df) { if (!df) return "(none)"; std::string s; int n = nx_data_frame_n_rows(df), m = nx_data_frame_n_columns(df); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { if (nx_data_frame_is_na(df, i, j)) { s += "NA|"; continue; } switch (nx_data_column_type(nx_data_frame_column(df, j))) { case NX_DCT_INT: s += fmt("%d|", nx_data_frame_get_int(df, i, j)); break; case NX_DCT_DOUBLE: s += fmt("%.12g|", nx_data_frame_get_double(df, i, j)); break; case NX_DCT_BOOL: s += fmt("%d|", nx_data_frame_get_bool(df, i, j)); break; case NX_DCT_FACTOR: s += fmt("%s|", nx_data_frame_get_factor(df, i, j)); break; default: s += fmt("%s|", nx_data_frame_get_string(df, i, j)); } } return s + fmt("#%d", n); }
static std::string only_file(const std::string &dir) { std::string s; DIR *d = opendir(dir.c_str()); if (d) { while (auto *q = readdir(d)) if (q->d_name[0] != '.') s = dir + "/" + q->d_name; closedir(d); } return s; }
static void scrub(const std::string &dir) { for (;;) { std::string s = only_file(dir); if (s.empty()) break; unlink(s.c_str()); } }
static void fillkeys(Rng &r, std::vector<NXKeypoint> &k, int n) { k.resize(n); for (auto &q : k) { memset((void *)&q, 0, sizeof q); q.id = r.next(); q.x = (float)r.uni(0, 99); q.y = (float)r.uni(0, 99); q.scale = 1; q.score = 1; } }
// ---- writers. kinds 0..12 open a path themselves, 13.. are given a stream
static const char *WN[] = {"save_pnm", "xsave_pnm", "save_png", "xsave_png", "save_jpeg", "xsave_jpeg", "image_save", "image_xsave", "VGImage_save", "save_csv", "xsave_csv", "sift_xsave", "jlog_xwrite", "feature_cache", "match_cache", "strwrite", "string_array_write", "string_array_xwrite", "keypoint_write", "keypoint_xwrite", "brief_write", "brief_xwrite", "xfwrite", "fputs_readable", "fputs_double_quoted", "save_csv_stream", "dmat_xwrite", "json_fprint"};
enum { W_PATH = 13, W_CACHE = 15, W_ALL = 28 };
static void writer(Ctx &c) {
    auto &r = c.rng; int k = r.i(0, W_ALL - 1); if ((k == 13) && !r.coin(1, 4)) k = 14; bool big = r.coin(1, 3); Maker q; c.ev(WN[k]); c.nt(); c.mix(k);
    std::string dir = scratch() + "/cache", path = scratch() + "/out" + (k < 2 ? ".ppm" : k < 4 ? ".png" : k < 6 ? ".jpg" : k < 9 ? (r.coin() ? ".png" : r.coin() ? ".jpg" : ".pgm") : ".dat"); mkdir(dir.c_str(), 0700); unlink(path.c_str());
    if (k < 9) { Px px = random_px(r, r.i(1, big ? 90 : 20), r.i(1, big ? 90 : 20), path.back() == 'm' && path[path.size() - 2] == 'g' ? 1 : r.coin() ? 1 : 4, false); q.holder = make(r, px, 0); q.img = q.holder.i; }
    if (k == 9 || k == 10 || k == 25) q.df = table(r, big ? r.i(50, 300) : r.i(0, 6));
    if (k == 11 || k == 18 || k == 19 || k == 14) { fillkeys(r, q.k, r.i(1, big ? 90 : 4)); q.d.assign(q.k.size() * 128, 0); for (auto &x : q.d) x = (uchar)r.next(); fillkeys(r, q.p, r.i(2, 9)); q.e.assign(q.p.size() * 128, 0); for (auto &x : q.e) x = (uchar)r.next(); }
    if (k == 12 || k == 27) { q.js = nx_json_node_new_object(); int n = big ? 400 : r.i(0, 9); for (int i = 0; i < n; ++i) nx_json_object_add(q.js, fmt("key%d", i).c_str(), nx_json_bundle_double(r.uni(-1, 1))); if (k == 12) { NX_JLOG_CLEAR(3); for (int i = 0; i < n; ++i) NX_JLOG_I(3, fmt("k%d", i).c_str(), (int)r.next()); } }
    if (k == 13) { Px px = random_px(r, r.i(20, 40), r.i(20, 40), 1, false); q.holder = make(r, px, 0); q.img = q.holder.i; q.det = nx_sift_detector_new(nx_sift_default_parameters()); }
    if (k == 15 || k == 22 || k == 23 || k == 24) { int n = r.i(1, big ? 9000 : 40); for (int i = 0; i < n; ++i) q.text += (char)r.i(1, 255); }
    if (k == 16 || k == 17) { q.sa = nx_string_array_alloc(); int n = r.i(0, big ? 300 : 5); for (int i = 0; i < n; ++i) nx_string_array_append(q.sa, fmt("item %d %s", i, r.coin() ? "with a longer tail" : "").c_str()); }
    if (k == 20 || k == 21) q.be = nx_brief_extractor_new_with_seed(r.i(1, big ? 64 : 6), r.i(4, 20), 5);
    if (k == 26) { q.m = r.i(1, big ? 30 : 4); q.n = r.i(1, big ? 30 : 4); q.M.resize((size_t)q.m * q.n); for (auto &x : q.M) x = r.uni(-9, 9); }
    int buffering = k >= W_CACHE ? r.i(0, 2) : 2; // 0: unbuffered (the operation itself must notice), 1: tiny buffer, 2: default
    std::vector<NXPointMatch2D> mt(q.k.size() + 1); int cap = 0; NXKeypoint *kk = nullptr; uchar *dd = nullptr; bool opok = true; bool usex = r.coin();
    auto body = [&](FILE *s) -> bool { const Maker &Q = q; switch (k) {
        case 15: return nx_strwrite(Q.text.c_str(), s) == 0; case 16: return nx_string_array_write(Q.sa, s) == 0; case 17: nx_string_array_xwrite(Q.sa, s); return true; case 18: return nx_keypoint_write(Q.k.data(), (int)Q.k.size(), s) == (int)Q.k.size(); case 19: nx_keypoint_xwrite(Q.k.data(), (int)Q.k.size(), s); return true; case 20: return nx_brief_extractor_write(Q.be, s) == NX_OK; case 21: nx_brief_extractor_xwrite(Q.be, s); return true; case 22: nx_xfwrite(Q.text.data(), 1, Q.text.size(), s); return true; case 23: return nx_fputs_readable(Q.text.c_str(), s) != EOF; case 24: return nx_fputs_double_quoted(Q.text.c_str(), s) != EOF; case 25: return nx_data_frame_save_csv_stream(Q.df, s); case 26: nx_dmat_xwrite(s, Q.m, Q.n, Q.M.data()); return true; default: nx_json_tree_fprint(s, Q.js, 1); return true; } };
    // returns whether success was reported; opok = what the stream operation itself said (before the close)
    auto run = [&](std::string &content) -> bool { bool ok = true; opok = true; unlink(path.c_str()); if (k == 13 || k == 14) scrub(dir); bool ret = returns(c, [&] { switch (k) {
        case 0: ok = nx_image_save_pnm(q.img, path.c_str()) == NX_OK; break; case 1: nx_image_xsave_pnm(q.img, path.c_str()); break; case 2: ok = nx_image_save_png(q.img, path.c_str()) == NX_OK; break; case 3: nx_image_xsave_png(q.img, path.c_str()); break; case 4: ok = nx_image_save_jpeg(q.img, path.c_str()) == NX_OK; break; case 5: nx_image_xsave_jpeg(q.img, path.c_str()); break; case 6: ok = nx_image_save(q.img, path.c_str()) == NX_OK; break; case 7: nx_image_xsave(q.img, path.c_str()); break;
        case 8: { virg::nexus::VGImage v(q.img, false); if (usex) v.xsave(path); else ok = v.save(path); break; }
        case 9: ok = nx_data_frame_save_csv(q.df, path.c_str()); break; case 10: nx_data_frame_xsave_csv(q.df, path.c_str()); break; case 11: nx_sift_xsave(path.c_str(), (int)q.k.size(), q.k.data(), q.d.data()); break; case 12: NX_JLOG_XWRITE(3, path.c_str()); break;
        case 13: nx_sift_detector_compute_with_cache(q.det, q.img, &cap, &kk, &dd, dir.c_str()); break; case 14: nx_sift_match_brute_force_with_cache((int)q.k.size(), q.k.data(), q.d.data(), (int)q.p.size(), q.p.data(), q.e.data(), mt.data(), -1, dir.c_str()); break;
        default: { FILE *s = nx_xfopen(path.c_str(), "wb"); if (buffering == 0) setvbuf(s, nullptr, _IONBF, 0); else if (buffering == 1) setvbuf(s, nullptr, _IOFBF, 16); opok = false; bool o = body(s); opok = o; ok = o; if (usex) nx_xfclose(s, path.c_str()); else if (nx_fclose(s, path.c_str()) != NX_OK) ok = false; } } });
        if (!ret) c.noleak = true; while (!live.empty()) { Cookie *z = *live.begin(); z->dead = true; fclose(z->f); } content.clear(); std::string f = k == 13 || k == 14 ? only_file(dir) : path; if (!f.empty()) read_file(f, content); return ret && ok; };
    std::string R, got; { Arm a{Plan()}; REQ(c, run(R), "%s reports failure although nothing failed", WN[k]); } c.desc("%s %zu bytes buffering %d %s", WN[k], R.size(), buffering, usex ? "x" : ""); c.mixb(R.data(), R.size());
    if (!(k == 27 && R.empty())) REQ(c, !R.empty(), "%s wrote nothing", WN[k]);
    auto pts = points(r, (long)R.size(), c.thorough && k != 13); if (k == 13) pts.resize(std::min<size_t>(pts.size(), 4));
    for (long at : pts) for (int once = 0; once < 2; ++once) { Plan p; p.kind = WR; p.wonly = true; p.at = at; p.once = once; p.err = r.coin() ? ENOSPC : EIO; Arm a{p}; bool ok = run(got); bool fired = P.fired; c.ev("write_fault_points"); if (fired) c.ev("write_faults_delivered"); REQ(c, fired == (at < (long)R.size()), "%s: fault at byte %ld of %zu %s", WN[k], at, R.size(), fired ? "fired" : "did not fire"); if (fired) { REQ(c, !ok, "%s reports success although writing byte %ld of %zu failed (%s)", WN[k], at, R.size(), once ? "once" : "persistently"); if (k >= W_CACHE && k != 27 && buffering == 0) REQ(c, !opok, "%s on an unbuffered stream reports success although byte %ld of %zu could not be written", WN[k], at, R.size()); c.ev("write_failure_reported"); } else { REQ(c, ok, "%s reports failure although nothing failed", WN[k]); REQ(c, got == R, "%s: content differs from the first run", WN[k]); } }
    for (int kind : {CL, OP}) { Plan p; p.kind = kind; p.wonly = true; p.err = kind == CL ? EDQUOT : EACCES; Arm a{p}; bool ok = run(got); REQ(c, P.fired, "%s never reached the %s", WN[k], kind == CL ? "close" : "open"); REQ(c, !ok, "%s reports success although the %s failed", WN[k], kind == CL ? "close" : "open"); c.ev(kind == CL ? "close_failure_reported" : "open_failure_reported"); }
    { Arm a{Plan()}; REQ(c, run(got) && got == R, "%s fails or writes something else after earlier failures", WN[k]); }
    // the same with the real kernel: a file size limit, a full device, a directory in the way, a missing directory
    signal(SIGXFSZ, SIG_IGN); struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); for (int i = 0; i < 2 && R.size() > 1; ++i) { struct rlimit n = old; long at = r.range(0, (int64_t)R.size() - 1); n.rlim_cur = (rlim_t)at; setrlimit(RLIMIT_FSIZE, &n); bool ok = run(got); setrlimit(RLIMIT_FSIZE, &old); REQ(c, !ok, "%s reports success with a file size limit of %ld for %zu bytes", WN[k], at, R.size()); c.ev("size_limit_reported"); }
    if (k < 6 || (k >= 9 && k <= 12) || k >= W_CACHE) { std::string keep = path; if (!R.empty()) { path = scratch() + "/full"; unlink(path.c_str()); path = "/dev/full"; bool ok; { bool okk = true; bool ret = returns(c, [&] { switch (k) { case 0: okk = nx_image_save_pnm(q.img, "/dev/full") == NX_OK; break; case 1: nx_image_xsave_pnm(q.img, "/dev/full"); break; case 2: okk = nx_image_save_png(q.img, "/dev/full") == NX_OK; break; case 3: nx_image_xsave_png(q.img, "/dev/full"); break; case 4: okk = nx_image_save_jpeg(q.img, "/dev/full") == NX_OK; break; case 5: nx_image_xsave_jpeg(q.img, "/dev/full"); break; case 9: okk = nx_data_frame_save_csv(q.df, "/dev/full"); break; case 10: nx_data_frame_xsave_csv(q.df, "/dev/full"); break; case 11: nx_sift_xsave("/dev/full", (int)q.k.size(), q.k.data(), q.d.data()); break; case 12: NX_JLOG_XWRITE(3, "/dev/full"); break; default: { FILE *s = __real_fopen("/dev/full", "wb"); if (!s) break; bool o = false; bool rr = returns(c, [&] { o = body(s); }); okk = rr && o; if (!rr) { fclose(s); } else if (nx_fclose(s, "full") != NX_OK) okk = false; } } }); if (!ret) c.noleak = true; ok = ret && okk; } REQ(c, !ok, "%s reports success on a full device", WN[k]); c.ev("full_device_reported"); path = keep; } }
    if (k < W_PATH) { std::string keep = path; path = scratch() + "/nosuchdir/out" + keep.substr(keep.rfind('.')); REQ(c, !run(got), "%s reports success in a missing directory", WN[k]); path = dir; /* a directory */ if (k < 6 || k >= 9) { bool ok = true; bool ret = returns(c, [&] { switch (k) { case 0: ok = nx_image_save_pnm(q.img, path.c_str()) == NX_OK; break; case 1: nx_image_xsave_pnm(q.img, path.c_str()); break; case 2: ok = nx_image_save_png(q.img, path.c_str()) == NX_OK; break; case 3: nx_image_xsave_png(q.img, path.c_str()); break; case 4: ok = nx_image_save_jpeg(q.img, path.c_str()) == NX_OK; break; case 5: nx_image_xsave_jpeg(q.img, path.c_str()); break; case 9: ok = nx_data_frame_save_csv(q.df, path.c_str()); break; case 10: nx_data_frame_xsave_csv(q.df, path.c_str()); break; case 11: nx_sift_xsave(path.c_str(), (int)q.k.size(), q.k.data(), q.d.data()); break; default: NX_JLOG_XWRITE(3, path.c_str()); } }); REQ(c, !(ret && ok), "%s reports success writing over a directory", WN[k]); c.ev("bad_path_reported"); } path = keep; }
    unlink(path.c_str()); scrub(dir); rmdir(dir.c_str()); if (q.img) destroy(q.holder); if (q.df) nx_data_frame_free(q.df); if (q.sa) nx_string_array_free(q.sa); if (q.be) nx_brief_extractor_free(q.be); if (q.js) nx_json_tree_free(q.js); if (q.det) nx_sift_detector_free(q.det); nx_free(kk); nx_free(dd); NX_JLOG_CLEAR_ALL();
}
// ---- readers
static const char *RN[] = {"load_pnm", "xload_pnm", "load_png", "xload_png", "load_jpeg", "xload_jpeg", "image_load", "image_xload", "VGImage_load", "load_csv", "xload_csv", "sift_xload", "json_file", "feature_cache", "match_cache", "vgg", "kitti", "temple", "strread0", "string_array_read0", "string_array_xread0", "keypoint_read", "keypoint_xread", "brief_read", "brief_xread", "xfread", "load_csv_stream", "dmat_xread", "json_stream"};
enum { R_DATASET = 15, R_STREAM = 18, R_ALL = 29 };
static void reader(Ctx &c) {
    auto &r = c.rng; int k = r.i(0, R_ALL - 1); if (k == 13 && !r.coin(1, 4)) k = 14; bool big = r.coin(1, 3); c.ev(RN[k]); c.nt(); c.mix(k); std::string base = scratch() + "/rd"; mkdir(base.c_str(), 0700); std::string path = base + "/in.dat"; Px px; std::string bytes; auto num = [&] { return fmt("%.17g", r.uni(-5, 5)); };
    int nk = r.i(1, big ? 90 : 4); std::vector<NXKeypoint> K, Pk; std::vector<uchar> D, E; std::vector<NXPointMatch2D> mt; NXImage *img = nx_image_alloc(); Img holder; NXSIFTDetector *det = nullptr; int cap = 0; NXKeypoint *kk = nullptr; uchar *dd = nullptr; std::string cdir = base + "/cache"; NXBriefExtractor *be = nullptr; std::vector<char> raw;
    fillkeys(r, K, nk); D.assign((size_t)nk * 128, 3); fillkeys(r, Pk, 5); E.assign(5 * 128, 0); for (auto &x : E) x = (uchar)r.next(); for (auto &x : D) x = (uchar)r.next(); mt.resize((size_t)nk);
    FILE *f = nullptr; auto open = [&] { f = fopen(path.c_str(), "wb"); };
    if (k < 9) { vf::File q = k < 2 ? vf::make_pnm(r, r.i(1, big ? 80 : 12), r.i(1, big ? 80 : 12)) : k < 4 ? vf::make_png(r, r.i(1, big ? 80 : 12), r.i(1, big ? 80 : 12)) : k < 6 ? vf::make_jpeg(r, r.i(1, big ? 80 : 12), r.i(1, big ? 80 : 12)) : vf::make_any(r, r.i(1, big ? 80 : 12), r.i(1, big ? 80 : 12)); write_file(path, q.bytes.data(), q.bytes.size()); }
    else switch (k) { case 9: case 10: case 26: { NXDataFrame *df = table(r, big ? r.i(60, 300) : r.i(1, 5)); nx_data_frame_save_csv(df, path.c_str()); nx_data_frame_free(df); break; } case 11: nx_sift_xsave(path.c_str(), nk, K.data(), D.data()); break;
        case 12: case 28: { std::string s = "["; int n = big ? 900 : r.i(0, 9); for (int i = 0; i < n; ++i) s += (i ? ", " : "") + num(); s += "]"; write_file(path, s.data(), s.size()); break; }
        case 13: mkdir(cdir.c_str(), 0700); { Px q = random_px(r, r.i(20, 40), r.i(20, 40), 1, false); nx_image_free(img); holder = make(r, q, 0); img = holder.i; det = nx_sift_detector_new(nx_sift_default_parameters()); nx_sift_detector_compute_with_cache(det, img, &cap, &kk, &dd, cdir.c_str()); } break;
        case 14: mkdir(cdir.c_str(), 0700); nx_sift_match_brute_force_with_cache(nk, K.data(), D.data(), 5, Pk.data(), E.data(), mt.data(), -1, cdir.c_str()); break;
        case 15: { std::string q = base + "/graf"; mkdir(q.c_str(), 0700); for (int i = 2; i <= 6; ++i) { std::string s; for (int j = 0; j < 9; ++j) s += num() + (j % 3 == 2 ? "\n" : " "); std::string p = q + fmt("/H1to%dp", i); write_file(p, s.data(), s.size()); } break; }
        case 16: { for (const char *d : {"/poses", "/sequences", "/sequences/03"}) mkdir((base + d).c_str(), 0700); int n = r.i(0, big ? 40 : 4); std::string po, ti, ca; for (int i = 0; i < n; ++i) { for (int j = 0; j < 12; ++j) po += num() + (j == 11 ? "\n" : " "); ti += num() + "\n"; } for (int i = 0; i < 4; ++i) { ca += fmt("P%d:", i); for (int j = 0; j < 12; ++j) ca += " " + num(); ca += "\n"; } write_file(base + "/poses/03.txt", po.data(), po.size()); write_file(base + "/sequences/03/times.txt", ti.data(), ti.size()); write_file(base + "/sequences/03/calib.txt", ca.data(), ca.size()); break; }
        case 17: { std::string q = base + "/Bird"; mkdir(q.c_str(), 0700); int n = r.i(1, 6); std::string gt; for (int i = 0; i < n; ++i) gt += fmt("%d,2,3,%d\n", r.i(0, 99), r.i(0, 99)); std::string fr = fmt("2,%d\n", n + 1), at = "OCC\nBC\nIPR\n"; write_file(q + "/Bird_frames.txt", fr.data(), fr.size()); write_file(q + "/Bird_att.txt", at.data(), at.size()); write_file(q + "/Bird_gt.txt", gt.data(), gt.size()); break; }
        case 18: { open(); std::string s((size_t)r.i(1, big ? 9000 : 40), 'q'); for (auto &x : s) x = (char)r.i(1, 255); nx_strwrite(s.c_str(), f); fclose(f); break; } case 19: case 20: { open(); NXStringArray *sa = nx_string_array_alloc(); int n = r.i(0, big ? 300 : 5); for (int i = 0; i < n; ++i) nx_string_array_append(sa, fmt("item %d", i).c_str()); nx_string_array_write(sa, f); nx_string_array_free(sa); fclose(f); break; }
        case 21: case 22: open(); nx_keypoint_write(K.data(), nk, f); fclose(f); break; case 23: case 24: { open(); NXBriefExtractor *b = nx_brief_extractor_new_with_seed(r.i(1, big ? 64 : 6), r.i(4, 20), 5); nx_brief_extractor_write(b, f); nx_brief_extractor_free(b); fclose(f); break; } case 25: { raw.resize((size_t)r.i(1, big ? 9000 : 40)); for (auto &x : raw) x = (char)r.next(); write_file(path, raw.data(), raw.size()); break; }
        case 27: { std::string s; int m = r.i(1, big ? 30 : 4), n = r.i(1, big ? 20 : 4); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) s += num() + (j == n - 1 ? "\n" : " "); write_file(path, s.data(), s.size()); break; } }
    static const NXImageLoadMode MODE[] = {NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA, NX_IMAGE_LOAD_AS_IS}; NXImageLoadMode mode = MODE[r.i(0, 2)]; int bufsz = k >= R_STREAM ? r.i(0, 2) : 2; bool usex = r.coin(), fac = r.coin();
    // returns whether success was reported, with a digest of what was loaded
    auto run = [&](std::string &val) -> bool { bool ok = true; val.clear(); auto addb = [&](const void *p, size_t n) { val += fmt("%zu:%016llx;", n, (unsigned long long)hash_bytes(p, n)); }; auto pix = [&](const NXImage *i) { Px q = pixels(i); val += fmt("%dx%dx%d ", q.w, q.h, q.nc); addb(q.v.data(), q.v.size() * sizeof q.v[0]); }; bool ret = returns(c, [&] { switch (k) {
        case 0: ok = nx_image_load_pnm(img, path.c_str(), mode) == NX_OK; if (ok) pix(img); break; case 1: nx_image_xload_pnm(img, path.c_str(), mode); pix(img); break; case 2: ok = nx_image_load_png(img, path.c_str(), mode) == NX_OK; if (ok) pix(img); break; case 3: nx_image_xload_png(img, path.c_str(), mode); pix(img); break; case 4: ok = nx_image_load_jpeg(img, path.c_str(), mode) == NX_OK; if (ok) pix(img); break; case 5: nx_image_xload_jpeg(img, path.c_str(), mode); pix(img); break; case 6: ok = nx_image_load(img, path.c_str(), mode) == NX_OK; if (ok) pix(img); break; case 7: nx_image_xload(img, path.c_str(), mode); pix(img); break;
        case 8: { virg::nexus::VGImage v; if (usex) v.xload(path, virg::nexus::VGImage::LOAD_AS_IS); else ok = v.load(path, virg::nexus::VGImage::LOAD_AS_IS); if (ok) pix(v.nx_img()); break; }
        case 9: { NXDataFrame *df = nx_data_frame_load_csv(path.c_str(), fac ? NX_TRUE : NX_FALSE); ok = df != nullptr; if (df) { val = cells(df); nx_data_frame_free(df); } break; } case 10: { NXDataFrame *df = nx_data_frame_xload_csv(path.c_str(), fac ? NX_TRUE : NX_FALSE); val = cells(df); nx_data_frame_free(df); break; }
        case 11: { int n = nx_sift_xload(path.c_str(), &cap, &kk, &dd); val = fmt("%d ", n); for (int i = 0; i < n; ++i) val += fmt("%llu,%.9g,%.9g;", (unsigned long long)kk[i].id, (double)kk[i].x, (double)kk[i].y); addb(dd, (size_t)n * 128); break; }
        case 12: { NXJSONNode *t = nx_json_tree_from_file(path.c_str()); char *b = nullptr; size_t z = 0; FILE *m = open_memstream(&b, &z); nx_json_tree_fprint(m, t, 0); fclose(m); val.assign(b, z); free(b); nx_json_tree_free(t); break; }
        case 13: { int n = nx_sift_detector_compute_with_cache(det, img, &cap, &kk, &dd, cdir.c_str()); val = fmt("%d ", n); addb(dd, (size_t)n * 128); break; } case 14: { memset((void *)mt.data(), 0, mt.size() * sizeof mt[0]); int n = nx_sift_match_brute_force_with_cache(nk, K.data(), D.data(), 5, Pk.data(), E.data(), mt.data(), -1, cdir.c_str()); val = fmt("%d ", n); for (int i = 0; i < n; ++i) val += fmt("%.9g,%.9g,%.9g;", mt[i].x[0], mt[i].xp[0], mt[i].match_cost); break; }
        case 15: { auto *s = nx_vgg_affine_sequence_new(base.c_str(), "graf"); for (int i = 0; i < 6; ++i) addb(s->h[i], 72); nx_vgg_affine_sequence_free(s); break; }
        case 16: { auto *d = nx_kitti_slam_new(base.c_str()); auto *s = nx_kitti_slam_sequence_new(d, 3); val = fmt("%d %d ", s->length, s->is_gt_available); addb(s->times, (size_t)s->length * 8); if (s->is_gt_available) for (int i = 0; i < s->length; ++i) addb(s->poses[i], 96); for (int i = 0; i < 4; ++i) addb(s->calib[i], 96); nx_kitti_slam_sequence_free(s); nx_kitti_slam_free(d); break; }
        case 17: { auto *s = nx_temple_color_128_sequence_new(base.c_str(), "Bird"); val = fmt("%d %d %x ", s->start_frame, s->end_frame, s->attributes); for (int i = 0; i < s->length; ++i) addb(s->ground_truth[i], 16); nx_temple_color_128_sequence_free(s); break; }
        default: { FILE *s = nx_xfopen(path.c_str(), "rb"); if (bufsz == 0) setvbuf(s, nullptr, _IONBF, 0); else if (bufsz == 1) setvbuf(s, nullptr, _IOFBF, 16); switch (k) {
            case 18: { char *t = nx_strread0(s); ok = t != nullptr; if (t) { val = t; nx_free(t); } break; } case 19: case 20: { NXStringArray *a = k == 19 ? nx_string_array_read0(s) : nx_string_array_xread0(s); ok = a != nullptr; if (a) { for (int i = 0; i < nx_string_array_size(a); ++i) val += std::string(nx_string_array_get(a, i)) + ";"; nx_string_array_free(a); } break; }
            case 21: case 22: { std::vector<NXKeypoint> o((size_t)nk); memset((void *)o.data(), 0, sizeof o[0] * (size_t)nk); if (k == 21) ok = nx_keypoint_read(o.data(), nk, s) == nk; else nx_keypoint_xread(o.data(), nk, s); for (auto &x : o) val += fmt("%llu,%.9g,%.9g;", (unsigned long long)x.id, (double)x.x, (double)x.y); break; }
            case 23: case 24: { if (be) nx_brief_extractor_free(be); be = nx_brief_extractor_alloc(); if (k == 23) ok = nx_brief_extractor_read(be, s) == NX_OK; else nx_brief_extractor_xread(be, s); if (ok) { val = fmt("%d %d %d ", be->n_octets, be->radius, be->pyr_level_offset); addb(be->offsets, (size_t)be->n_octets * 32 * sizeof be->offsets[0]); } break; }
            case 25: { std::vector<char> o(raw.size()); nx_xfread(o.data(), 1, o.size(), s); val.assign(o.data(), o.size()); break; } case 26: { NXDataFrame *df = nx_data_frame_load_csv_stream(s, fac ? NX_TRUE : NX_FALSE); ok = df != nullptr; if (df) { val = cells(df); nx_data_frame_free(df); } break; } case 27: { int m, n; double *A = nx_dmat_xread(s, &m, &n); val = fmt("%d %d ", m, n); if (A) addb(A, (size_t)m * n * 8); free(A); break; }
            default: { NXJSONNode *t = nx_json_tree_from_stream(s); char *b = nullptr; size_t z = 0; FILE *m = open_memstream(&b, &z); nx_json_tree_fprint(m, t, 0); fclose(m); val.assign(b, z); free(b); nx_json_tree_free(t); } } fclose(s); } } }); // deliberately a plain fclose: the operation itself must have noticed
        if (!ret) c.noleak = true; while (!live.empty()) { Cookie *z = *live.begin(); z->dead = true; fclose(z->f); } return ret && ok; };
    std::string V, got; int opened; { Arm a{Plan()}; REQ(c, run(V), "%s refuses an intact file", RN[k]); opened = P.opened; } c.desc("%s %s", RN[k], escape(V, 80).c_str()); c.mixb(V.data(), V.size()); REQ(c, opened >= 1, "%s opened nothing", RN[k]);
    std::vector<Plan> plans; for (int nth = 0; nth < opened; ++nth) { Plan p; p.kind = OP; p.nth = nth; p.err = EMFILE; plans.push_back(p); struct stat st; std::string fp = k == 13 || k == 14 ? only_file(cdir) : path; long L = k >= R_DATASET && k < R_STREAM ? 120 : stat(fp.c_str(), &st) == 0 ? st.st_size : 0; auto pts = points(r, L, c.thorough); for (long at : pts) { p.kind = RD; p.at = at; p.once = r.coin(); p.err = EIO; plans.push_back(p); } }
    if (k == 13) { std::vector<Plan> few; for (size_t i = 0; i < plans.size(); i += 1 + plans.size() / 6) few.push_back(plans[i]); plans = few; }
    if (k >= R_DATASET && k < R_STREAM && !c.thorough) { std::vector<Plan> few; for (auto &p : plans) if (r.coin(1, 3)) few.push_back(p); plans = few; }
    for (auto &p : plans) { Arm a{p}; bool ok = run(got); c.ev("read_fault_points"); bool opt = k == 16 && p.kind == OP && p.nth == 0; // a missing pose file is legitimate
        if (!P.fired) { REQ(c, ok && got == V, "%s fails or differs although nothing failed (fault planned at %ld)", RN[k], p.at); continue; } if (opt) { c.ev("optional_file"); continue; } c.ev(p.kind == OP ? "open_faults" : "read_faults_delivered");
        if (p.kind == OP && (k == 13 || k == 14)) { REQ(c, !ok || got == V, "%s: other result after a failed open", RN[k]); continue; }
        REQ(c, !ok, "%s reports success although %s failed (stream %d, byte %ld, %s)%s", RN[k], p.kind == OP ? "the open" : "a read", p.nth, p.at, p.once ? "once" : "persistently", got == V ? "" : " and the result differs"); c.ev("read_failure_reported"); }
    { Arm a{Plan()}; REQ(c, run(got) && got == V, "%s no longer loads the intact file after earlier failures", RN[k]); }
    if (k < 13 || k >= R_STREAM) { std::string keep = path; path = base; /* reading a directory fails with EISDIR */ if (k != 8) { bool ok = run(got); REQ(c, !ok, "%s reports success reading a directory", RN[k]); } path = base + "/nosuchfile"; REQ(c, !run(got), "%s reports success on a missing file", RN[k]); path = keep; c.ev("bad_path_reported"); }
    if (holder.i) destroy(holder); else nx_image_free(img); nx_sift_detector_free(det); nx_free(kk); nx_free(dd); if (be) nx_brief_extractor_free(be); std::string cmd = "rm -rf '" + base + "'"; if (system(cmd.c_str())) {}
}
static void streams(Ctx &c) { // opening streams with and without descriptors left
    auto &r = c.rng; int kind = r.i(0, 5); bool scarce = r.coin(); std::string data; for (int i = r.size(3000, 60000); i > 0; --i) data += (char)r.next(); c.mixb(data.data(), data.size()); c.mix(kind * 2 + scarce); c.nt(); c.desc("%s%s", kind == 0 ? "temporary file" : kind == 1 ? "fopen for reading" : kind == 2 ? "xfopen for reading" : kind == 3 ? "fopen for writing" : kind == 4 ? "xfopen for writing" : "fopen of a missing file", scarce ? " without descriptors" : ""); std::string path = scratch() + "/stream"; if (kind == 1 || kind == 2) write_file(path, data.data(), data.size());
    Outcome o = fork_run([&] { struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); if (scarce) { struct rlimit q = l; q.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &q); } FILE *f = nullptr; switch (kind) { case 0: f = nx_xtmpfile(); break; case 1: f = nx_fopen(path.c_str(), "rb"); break; case 2: f = nx_xfopen(path.c_str(), "rb"); break; case 3: f = nx_fopen(path.c_str(), "wb"); break; case 4: f = nx_xfopen(path.c_str(), "wb"); break; default: f = nx_fopen((path + "/nowhere").c_str(), "rb"); } if (scarce) setrlimit(RLIMIT_NOFILE, &l); if (!f) _exit(91); if (kind == 0) { if (fwrite(data.data(), 1, data.size(), f) != data.size()) _exit(92); rewind(f); } if (kind <= 2) { std::string g(data.size() + 1, 0); size_t k = fread(&g[0], 1, g.size(), f); g.resize(k); if (g != data) _exit(93); } else fwrite(data.data(), 1, data.size(), f); nx_xfclose(f, "stream"); _exit(90); }, 20);
    bool open_fails = scarce || kind == 5, fatal = open_fails && (kind == 0 || kind == 2 || kind == 4); if (fatal) REQ(c, o.kind == FATAL, "refused stream ended as %s code %d", kind_name(o.kind), o.code); else REQ(c, o.kind == EXITED && o.code == (open_fails ? 91 : 90), "stream %s ended as %s code %d (91 no stream, 93 other content)", open_fails ? "that cannot be opened" : "", kind_name(o.kind), o.code); if ((kind == 3 || kind == 4) && !open_fails) { std::string g; read_file(path, g); REQ(c, g == data, "written stream holds %zu of %zu bytes", g.size(), data.size()); } unlink(path.c_str()); c.ev(open_fails ? "refused_streams" : "streams"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); if (!freopen("/dev/null", "w", stderr)) {} return run_main(argc, argv, {{"writer", writer, 1200, 12000}, {"reader", reader, 1200, 12000}, {"streams", streams, 150, 2000}}); }
