#include "imgfile.hpp"
#include <zlib.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_data_frame.h"
using namespace vh; using namespace vi;
// a fatal exit abandons open streams: close them so that a long campaign does not run out of descriptors
struct Fds { int base; Fds() { base = dup(0); if (base >= 0) close(base); } ~Fds() { for (int i = base; i >= 0 && i < base + 8; ++i) close(i); } };
static std::string mutate(Rng &r, std::string s, std::string &how) {
    int n = r.i(1, 3); for (int k = 0; k < n; ++k) { size_t L = s.size(); auto pos = [&] { return L ? (size_t)(r.coin() ? r.range(0, (int64_t)std::min<size_t>(L, 64) - 1) : r.range(0, (int64_t)L - 1)) : 0; }; int op = r.i(0, 8); how += fmt("%d ", op); switch (op) {
        case 0: s.resize((size_t)r.range(0, (int64_t)L)); break; case 1: if (L) s[pos()] ^= (char)(1 << r.i(0, 7)); break; case 2: if (L) s[pos()] = (char)r.next(); break; case 3: { size_t p = pos(); std::string x; int m = r.i(1, 9); for (int i = 0; i < m; ++i) x += (char)(r.coin() ? r.next() : "0123456789 \n-#,.eP"[r.i(0, 17)]); s.insert(std::min(p, L), x); break; } case 4: if (L) { size_t p = pos(); s.erase(p, (size_t)r.i(1, 12)); } break;
        case 5: if (L >= 4) { static const uint32_t v[] = {0, 1, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x10000u, 0x00FFFFFFu, 0x40000000u, 0x01000000u, 127, 255, 3}; uint32_t x = v[r.i(0, 11)]; size_t p = r.coin() ? (size_t)r.i(0, (int)std::min<size_t>(7, (L - 4) / 4)) * 4 : std::min(pos(), L - 4); memcpy(&s[p], &x, 4); } break;
        case 6: if (L) { // rewrite a decimal number of the text
                std::vector<size_t> d; for (size_t i = 0; i < std::min<size_t>(L, 400); ++i) if (isdigit((unsigned char)s[i]) && (i == 0 || !isdigit((unsigned char)s[i - 1]))) d.push_back(i); if (!d.empty()) { size_t p = r.pick(d), e = p; while (e < s.size() && isdigit((unsigned char)s[e])) ++e; static const char *t[] = {"0", "-1", "1", "255", "256", "65535", "70000", "2147483647", "2147483648", "99999999999999999999", "1e400", "nan", "", "0x10", "300", "46341"}; s = s.substr(0, p) + t[r.i(0, 15)] + s.substr(e); } } break;
        case 7: { size_t p = pos(), q = pos(); if (p > q) std::swap(p, q); if (q - p < 2000) s.insert(std::min(q, s.size()), s.substr(p, q - p)); break; } default: { size_t p = pos(); for (size_t i = p; i < std::min(L, p + (size_t)r.i(1, 16)); ++i) s[i] = (char)(r.coin() ? 0 : 255); } } }
    return s;
}
static std::string junk(Rng &r) { std::string s; static const char *mg[] = {"P5", "P6", "P4", "P2", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff\xe0", "P5\n", "P6 3 3 255\n", "", "{", "\x01\0\0\0"}; s = mg[r.i(0, 10)]; int n = r.size(300); for (int i = 0; i < n; ++i) s += (char)(r.coin(1, 3) ? "0123456789 \n\t#,-"[r.i(0, 15)] : (char)r.next()); return s; }
// independent strict reading of a binary PNM file. 1 denotes pixels, 0 is malformed, -1 unclear
static int ref_pnm(const std::string &b, Px &p) {
    if (b.size() < 2 || b[0] != 'P' || (b[1] != '5' && b[1] != '6')) return 0; size_t i = 2; int64_t v[3]; for (int k = 0; k < 3; ++k) { bool sp = false; while (i < b.size() && (isspace((unsigned char)b[i]) || b[i] == '#')) { if (b[i] == '\v' || b[i] == '\f') return -1; if (b[i] == '#') { if (!sp) return -1; while (i < b.size() && b[i] != '\n') ++i; } else { sp = true; ++i; } } if (i >= b.size() || !isdigit((unsigned char)b[i])) return 0; if (!sp) return -1; v[k] = 0; while (i < b.size() && isdigit((unsigned char)b[i])) { v[k] = std::min<int64_t>(v[k] * 10 + (b[i] - '0'), 1ll << 40); ++i; } }
    if (i >= b.size()) return 0; if (!isspace((unsigned char)b[i])) return b[i] == '#' ? -1 : 0; if (b[i] == '\v' || b[i] == '\f') return -1; ++i; if (v[0] < 1 || v[1] < 1 || v[2] < 1 || v[2] > 65535) return 0; int nc = b[1] == '5' ? 1 : 3; if (v[2] > 255) nc *= 2; if (v[0] > (1ll << 31) || v[1] > (1ll << 31) || (long double)v[0] * v[1] * nc > (long double)(b.size() - i)) return 0; if (v[2] != 255) return -1;
    p = Px((int)v[0], (int)v[1], nc == 1 ? 1 : 4, false); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { for (int k = 0; k < nc; ++k) p.at(x, y, k) = (unsigned char)b[i++]; if (nc == 3) p.at(x, y, 3) = 255; } return 1;
}
static void image(Ctx &c) {
    auto &r = c.rng; int src = r.i(0, 9); std::string b, how = "mutations "; int w = dim(r, 24), h = dim(r, 24); std::string what; bool pristine_ok = true; if (src == 0) { b = junk(r); what = "junk"; } else if (src == 1) { // a four component JPEG
        b = vf::jpeg_bytes(r, w, h, 4, vf::samples(r, w, h, 4), JCS_CMYK, r.coin(), r.coin(), 90); what = "jpeg_cmyk"; if (r.coin()) b = mutate(r, b, how); } else { vf::File f = vf::make_any(r, w, h); b = r.coin(1, 12) ? f.bytes.substr(0, (size_t)r.range(0, (int64_t)f.bytes.size() - 1)) : mutate(r, f.bytes, how); what = f.what; } (void)pristine_ok;
    if (r.coin(1, 5) && src > 1 && what[1] == 'n' && what[0] == 'p' && what[2] == 'g') { // repair the chunk checksums so that the damage reaches the decoder
        size_t i = 8; while (i + 12 <= b.size()) { uint32_t n = (uint32_t)(unsigned char)b[i] << 24 | (unsigned char)b[i + 1] << 16 | (unsigned char)b[i + 2] << 8 | (unsigned char)b[i + 3]; if (n > b.size() - i - 12) break; uint32_t cr = 0xFFFFFFFFu; for (size_t k = i + 4; k < i + 8 + n; ++k) { cr ^= (unsigned char)b[k]; for (int z = 0; z < 8; ++z) cr = cr & 1 ? 0xEDB88320u ^ cr >> 1 : cr >> 1; } cr = ~cr; for (int z = 0; z < 4; ++z) b[i + 8 + n + z] = (char)(cr >> (24 - 8 * z)); i += 12 + n; } how += "crc"; }
    c.desc("%s %s", what.c_str(), how.c_str()); c.descbytes(b.data(), std::min<size_t>(b.size(), 300)); c.mixb(b.data(), b.size()); if (b.size() > 8) c.nt(); c.ev(what.substr(0, what.find('_')).c_str());
    std::string path = scratch() + "/hostile.img"; write_file(path, b.data(), b.size()); static const NXImageLoadMode MODE[] = {NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA, NX_IMAGE_LOAD_AS_IS}; int mode = r.i(0, 2), e = r.i(0, 5); NXImage *d = nx_image_alloc(); if (r.coin()) nx_image_resize(d, r.i(1, 30), r.i(1, 30), -1, r.coin() ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    bool ok = true; bool xapi = e == 1 || e == 5, pnm_entry = e == 2 || e == 5; Fds fds; bool ret = returns(c, [&] { switch (e) { case 0: ok = nx_image_load(d, path.c_str(), MODE[mode]) == NX_OK; break; case 1: nx_image_xload(d, path.c_str(), MODE[mode]); break; case 2: ok = nx_image_load_pnm(d, path.c_str(), MODE[mode]) == NX_OK; break; case 3: ok = nx_image_load_png(d, path.c_str(), MODE[mode]) == NX_OK; break; case 4: ok = nx_image_load_jpeg(d, path.c_str(), MODE[mode]) == NX_OK; break; default: nx_image_xload_pnm(d, path.c_str(), MODE[mode]); } });
    bool loaded = ret && ok; c.ev(loaded ? "hostile_loaded" : ret ? "hostile_refused" : "hostile_fatal"); (void)xapi;
    if (loaded) { REQ(c, d->width > 0 && d->height > 0, "loaded image has size %dx%d", d->width, d->height); geom(c, d, d->width, d->height, mode == 0 ? 1 : mode == 1 ? 4 : d->n_channels, false, "loaded hostile file"); if ((size_t)d->width * d->height * d->n_channels < 20000000) { Px q = pixels(d); c.mixb(q.v.data(), std::min<size_t>(q.v.size(), 64) * 4); } else { // too large to copy: every row is touched once
            c.ev("hostile_huge_loaded"); for (int y = 0; y < d->height; ++y) { unsigned char e[2] = {d->data.uc[(size_t)y * d->row_stride], d->data.uc[(size_t)y * d->row_stride + (size_t)(d->width * d->n_channels - 1)]}; if (y % 1000 == 0) c.mixb(e, 2); } } }
    bool pnm_head = b.size() >= 4 && b[0] == 'P' && b[1] >= '4' && b[1] <= '6'; if (pnm_entry || (pnm_head && e < 2)) { Px p; int v = ref_pnm(b, p); if (v == 0) { REQ(c, !loaded, "a malformed or truncated PNM file was loaded as %dx%d", d->width, d->height); c.ev("pnm_must_refuse"); } else if (v == 1) { REQ(c, loaded, "a well-formed PNM file was refused"); REQ(c, d->width == p.w && d->height == p.h, "size %dx%d expected %dx%d", d->width, d->height, p.w, p.h); if (d->n_channels == p.nc) REQ(c, pixels(d).v == p.v, "pixels of a well-formed PNM file differ"); c.ev("pnm_must_load"); } }
    if (!pnm_head && !(b.size() >= 2 && (unsigned char)b[0] == 0xFF && (unsigned char)b[1] == 0xD8) && b.compare(0, 4, "\x89PNG") != 0) REQ(c, !loaded, "a file in no supported format was loaded");
    if (r.coin(1, 3) && ret) { // the image object remains usable
        vf::File f = vf::make_pnm(r, r.i(1, 9), r.i(1, 9)); write_file(path, f.bytes.data(), f.bytes.size()); REQ(c, nx_image_load(d, path.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK && pixels(d).v == f.px.v, "a good file does not load after a bad one"); }
    if (ret) nx_image_free(d);
}
static FILE *mem(const std::string &s) { std::string path = scratch() + "/stream"; write_file(path, s.data(), s.size()); return fopen(path.c_str(), "rb"); }
static std::string slurp(FILE *f) { fflush(f); fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); std::string s((size_t)n, 0); if (n && fread(&s[0], 1, (size_t)n, f) != (size_t)n) s.clear(); fclose(f); return s; }
// binary streams: strings, string arrays, BRIEF samplers, SIFT files, keypoints
static void binary(Ctx &c) {
    auto &r = c.rng; int kind = r.i(0, 4); static const char *nm[] = {"string", "string_array", "brief", "sift_file", "keypoints"}; std::string good; FILE *f = tmpfile(); int nk = r.i(0, 4); std::vector<std::string> strs; NXStringArray *sa = nullptr; NXBriefExtractor *be = nullptr; std::vector<NXKeypoint> k(nk + 1); for (auto &q : k) { memset(&q, 0, sizeof q); q.x = r.i(0, 99); q.score = 1; q.id = r.next(); } std::vector<uchar> ds((nk + 1) * 128, 7);
    switch (kind) { case 0: { std::string s((size_t)r.size(60), 'q'); nx_strwrite(s.c_str(), f); break; } case 1: sa = nx_string_array_alloc(); for (int i = 0; i < nk; ++i) nx_string_array_append(sa, "element"); nx_string_array_write(sa, f); nx_string_array_free(sa); break; case 2: be = nx_brief_extractor_new_with_seed(r.i(1, 6), r.i(4, 20), 5); nx_brief_extractor_write(be, f); nx_brief_extractor_free(be); break; case 3: { fclose(f); std::string p = scratch() + "/good.sift"; nx_sift_xsave(p.c_str(), nk, k.data(), ds.data()); f = fopen(p.c_str(), "rb"); break; } default: nx_keypoint_write(k.data(), nk, f); }
    good = slurp(f); std::string how; std::string b = r.coin(1, 3) ? good.substr(0, (size_t)r.range(0, (int64_t)good.size())) : r.coin(1, 12) ? junk(r) : mutate(r, good, how); bool trunc = b.size() < good.size() && good.compare(0, b.size(), b) == 0;
    if (kind == 1 && b.size() >= 4) { int32_t n; memcpy(&n, b.data(), 4); if (n > 2000000) { n = 2000000; memcpy(&b[0], &n, 4); trunc = false; } } // bounded claim, see DESIGN
    if (kind == 2 && b.size() >= 8) { int32_t n; memcpy(&n, b.data() + 4, 4); if (n > 100000) { n = 100000; memcpy(&b[4], &n, 4); trunc = false; } }
    c.desc("%s %s%s", nm[kind], trunc ? "truncated " : "", how.c_str()); c.descbytes(b.data(), std::min<size_t>(b.size(), 200)); c.mixb(b.data(), b.size()); c.mix(kind); if (b.size() > 4) c.nt(); c.ev(nm[kind]); Fds fds; FILE *in = mem(b); bool ok = true, x = r.coin(1, 4);
    bool ret = returns(c, [&] { switch (kind) {
        case 0: { char *s = nx_strread0(in); ok = s != nullptr; if (s) { c.mixb(s, strlen(s)); nx_free(s); } break; }
        case 1: { NXStringArray *a = x ? nx_string_array_xread0(in) : nx_string_array_read0(in); ok = a != nullptr; if (a) { for (int i = 0; i < nx_string_array_size(a); ++i) c.mix(strlen(nx_string_array_get(a, i))); nx_string_array_free(a); } break; }
        case 2: { NXBriefExtractor *a = r.coin() ? nx_brief_extractor_alloc() : nx_brief_extractor_new_with_seed(r.i(1, 6), r.i(4, 20), 9); if (x) nx_brief_extractor_xread(a, in); else ok = nx_brief_extractor_read(a, in) == NX_OK; if (ok) { REQ(c, a->n_octets > 0 && a->radius > 0 && a->pyr_level_offset >= 0, "loaded sampler has %d octets radius %d level offset %d", a->n_octets, a->radius, a->pyr_level_offset); long s = 0; for (int i = 0; i < a->n_octets * 32; ++i) s += a->offsets[i]; c.mix((uint64_t)s); for (int i = 0; i < a->n_octets * 8; ++i) { const int *o = a->offsets + 4 * i; REQ(c, o[0] >= a->offset_limits[0] && o[0] <= a->offset_limits[1] && o[2] >= a->offset_limits[0] && o[2] <= a->offset_limits[1] && o[1] >= a->offset_limits[2] && o[1] <= a->offset_limits[3] && o[3] >= a->offset_limits[2] && o[3] <= a->offset_limits[3], "loaded sampler limits do not bound test %d", i); } } nx_brief_extractor_free(a); break; }
        case 3: { fclose(in); in = nullptr; int cap = r.i(0, 3); NXKeypoint *kk = cap ? NX_NEW(cap, struct NXKeypoint) : nullptr; uchar *dd = cap ? NX_NEW_UC(cap * 128) : nullptr; int n = nx_sift_xload((scratch() + "/stream").c_str(), &cap, &kk, &dd); REQ(c, n >= 0 && n <= cap, "count %d capacity %d", n, cap); long s = 0; for (int i = 0; i < n; ++i) { s += kk[i].x; for (int j = 0; j < 128; ++j) s += dd[i * 128 + j]; } c.mix((uint64_t)s); nx_free(kk); nx_free(dd); break; }
        default: { std::vector<NXKeypoint> o(nk + 1); memset((void *)o.data(), 0, o.size() * sizeof o[0]); int m = -1; if (x) nx_keypoint_xread(o.data(), nk, in), m = nk; else m = nx_keypoint_read(o.data(), nk, in); REQ(c, m >= 0 && m <= nk, "read %d of %d keypoints", m, nk); ok = m == nk; if (!x && trunc) { size_t per = nk ? good.size() / (size_t)nk : 1; REQ(c, (size_t)m == b.size() / per, "reports %d keypoints of a stream holding %zu", m, b.size() / per); } } } });
    if (ret && in) fclose(in); bool loaded = ret && ok; c.ev(loaded ? "stream_loaded" : ret ? "stream_refused" : "stream_fatal"); if (trunc) REQ(c, !loaded, "a truncated %s (%zu of %zu bytes) was reported as read", nm[kind], b.size(), good.size()); if (b == good) REQ(c, loaded, "an intact %s was refused", nm[kind]);
}
// damaged SIFT caches: the result is the right one or a clean fatal exit
static void cache(Ctx &c) {
    auto &r = c.rng; std::string dir = scratch() + "/cache"; mkdir(dir.c_str(), 0700); int nk = r.i(1, 5), np = r.i(1, 5); std::vector<NXKeypoint> k(nk), p(np); std::vector<uchar> d(nk * 128), e(np * 128); for (auto &q : k) memset((void *)&q, 0, sizeof q), q.id = r.next(), q.scale = 1; for (auto &q : p) memset((void *)&q, 0, sizeof q), q.id = r.next(), q.scale = 1; for (auto &q : d) q = (uchar)r.next(); for (auto &q : e) q = (uchar)r.next(); std::vector<NXPointMatch2D> m(nk), m2(nk); memset((void *)m2.data(), 0, nk * sizeof m2[0]); bool mt = r.coin(2, 3); NXImage *img = nx_image_alloc(); NXSIFTDetector *det = nullptr; int cap = 0, n0 = 0; NXKeypoint *kk = nullptr; uchar *dd = nullptr;
    if (mt) n0 = nx_sift_match_brute_force_with_cache(nk, k.data(), d.data(), np, p.data(), e.data(), m.data(), -1, dir.c_str()); else { Px q = random_px(r, r.i(16, 28), r.i(16, 28), 1, false); nx_image_resize(img, q.w, q.h, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); fill(img, q); det = nx_sift_detector_new(nx_sift_default_parameters()); n0 = nx_sift_detector_compute_with_cache(det, img, &cap, &kk, &dd, dir.c_str()); }
    std::string cmd; std::vector<std::string> files; { std::string ls = dir; (void)ls; FILE *pp = popen(("ls " + dir).c_str(), "r"); char ln[300]; while (pp && fgets(ln, sizeof ln, pp)) { std::string s = ln; s.pop_back(); files.push_back(dir + "/" + s); } if (pp) pclose(pp); } REQ(c, files.size() == 1, "%zu cache files after one computation", files.size()); std::string good, how; read_file(files[0], good); std::string b = r.coin(1, 3) ? good.substr(0, (size_t)r.range(0, (int64_t)good.size())) : mutate(r, good, how); bool trunc = b.size() < good.size() && good.compare(0, b.size(), b) == 0; write_file(files[0], b.data(), b.size()); c.desc("%s cache %s%s", mt ? "match" : "feature", trunc ? "truncated " : "", how.c_str()); c.descbytes(b.data(), std::min<size_t>(b.size(), 100)); c.mixb(b.data(), b.size()); c.nt(); c.ev(mt ? "match_cache" : "feature_cache"); Fds fds; int n = -1;
    bool ret = returns(c, [&] { if (mt) n = nx_sift_match_brute_force_with_cache(nk, k.data(), d.data(), np, p.data(), e.data(), m2.data(), -1, dir.c_str()); else n = nx_sift_detector_compute_with_cache(det, img, &cap, &kk, &dd, dir.c_str()); }); if (ret) { REQ(c, n >= 0, "count %d from a damaged cache", n); if (mt) REQ(c, n <= nk, "%d matches of %d features from a damaged cache", n, nk); else { REQ(c, n <= cap, "count %d exceeds the capacity %d", n, cap); long s = 0; for (int i = 0; i < n * 128; ++i) s += dd[i]; c.mix((uint64_t)s); } if (trunc) REQ(c, false, "a truncated cache was used"); if (b == good) REQ(c, n == n0, "count %d instead of %d", n, n0); } c.ev(ret ? "cache_used" : "cache_fatal");
    unlink(files[0].c_str()); rmdir(dir.c_str()); if (ret) { nx_free(kk); nx_free(dd); } nx_sift_detector_free(det); nx_image_free(img);
}
// text readers: ground truth of three datasets, matrices, JSON and CSV files
static void put_file(const std::string &p, const std::string &s) { write_file(p, s.data(), s.size()); }
static void text(Ctx &c) {
    auto &r = c.rng; int kind = r.i(0, 5); static const char *nm[] = {"vgg", "kitti", "temple", "matrix", "json", "csv"}; std::string base = scratch() + "/ds"; mkdir(base.c_str(), 0700); auto num = [&] { return fmt("%.17g", r.uni(-5, 5)); }; std::string how; Fds fds; bool ret = true; c.ev(nm[kind]); c.nt();
    auto hurt = [&](const std::string &s) { std::string b = r.coin(1, 3) ? s : r.coin(1, 3) ? s.substr(0, (size_t)r.range(0, (int64_t)s.size())) : mutate(r, s, how); c.mixb(b.data(), b.size()); c.descbytes(b.data(), std::min<size_t>(b.size(), 120)); return b; };
    c.desc("%s", nm[kind]);
    if (kind == 0) { std::string q = base + "/graf"; mkdir(q.c_str(), 0700); for (int i = 2; i <= 6; ++i) { std::string s; for (int k = 0; k < 9; ++k) s += num() + (k % 3 == 2 ? "\n" : " "); if (i == 2 || r.coin(1, 4)) s = hurt(s); if (r.coin(1, 30)) unlink((q + fmt("/H1to%dp", i)).c_str()); else put_file(q + fmt("/H1to%dp", i), s); } ret = returns(c, [&] { auto *s = nx_vgg_affine_sequence_new(base.c_str(), "graf"); double t = 0; for (int i = 0; i < 6; ++i) for (int k = 0; k < 9; ++k) t += s->h[i][k]; c.mixb(&t, 8); nx_vgg_affine_sequence_free(s); }); }
    else if (kind == 1) { for (const char *d : {"/poses", "/sequences", "/sequences/03"}) mkdir((base + d).c_str(), 0700); int n = r.coin(1, 20) ? 301 : r.i(0, 5); std::string po, ti, ca; for (int i = 0; i < n; ++i) { for (int k = 0; k < 12; ++k) po += num() + (k == 11 ? "\n" : " "); ti += num() + "\n"; } for (int i = 0; i < 4; ++i) { ca += fmt("P%d:", i); for (int k = 0; k < 12; ++k) ca += " " + num(); ca += "\n"; } unlink((base + "/poses/03.txt").c_str()); if (!r.coin(1, 5)) put_file(base + "/poses/03.txt", r.coin() ? hurt(po) : po); put_file(base + "/sequences/03/times.txt", r.coin() ? hurt(ti) : ti); put_file(base + "/sequences/03/calib.txt", r.coin() ? hurt(ca) : ca); ret = returns(c, [&] { auto *d = nx_kitti_slam_new(base.c_str()); auto *s = nx_kitti_slam_sequence_new(d, 3); double t = 0; for (int i = 0; i < s->length; ++i) { t += s->times[i]; if (s->is_gt_available) for (int k = 0; k < 12; ++k) t += s->poses[i][k]; } for (int i = 0; i < 4; ++i) for (int k = 0; k < 12; ++k) t += s->calib[i][k]; c.mixb(&t, 8); nx_kitti_slam_sequence_free(s); nx_kitti_slam_free(d); }); }
    else if (kind == 2) { std::string q = base + "/Bird"; mkdir(q.c_str(), 0700); int a = r.i(1, 4), n = r.i(1, 6); std::string gt; for (int i = 0; i < n; ++i) gt += "1.5,2,3,4\n"; put_file(q + "/Bird_frames.txt", r.coin() ? hurt(fmt("%d,%d\n", a, a + n - 1)) : fmt("%d,%d\n", a, a + n - 1)); put_file(q + "/Bird_att.txt", hurt(r.coin() ? "OCC\nBC\n" : "VI\n")); put_file(q + "/Bird_gt.txt", r.coin() ? hurt(gt) : gt); ret = returns(c, [&] { auto *s = nx_temple_color_128_sequence_new(base.c_str(), "Bird"); REQ(c, s->length == s->end_frame - s->start_frame + 1 && s->length > 0, "range %d..%d length %d", s->start_frame, s->end_frame, s->length); float t = 0; for (int i = 0; i < s->length; ++i) for (int k = 0; k < 4; ++k) t += s->ground_truth[i][k]; c.mixb(&t, 4); nx_temple_color_128_sequence_free(s); }); }
    else if (kind == 3) { int m = r.i(1, 5), n = r.i(1, 5); std::string s; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) s += num() + (j == n - 1 ? "\n" : " "); FILE *in = mem(hurt(s)); ret = returns(c, [&] { int M, N; double *A = nx_dmat_xread(in, &M, &N); double t = 0; REQ(c, (A == nullptr) == (M == 0 || N == 0), "matrix %dx%d pointer %p", M, N, (void *)A); if (A) for (int i = 0; i < M * N; ++i) t += A[i]; c.mixb(&t, 8); free(A); fclose(in); }); }
    else if (kind == 4) { std::string s = r.coin() ? "{\"a\": [1, 2.5e3, true, null], \"b\": {\"c\": \"x\\ny\"}, \"d\": -7}" : "[{\"k\":\"v\"}, [], {}, [[[]]], \"q\\\"\", 1e-3]"; std::string b = hurt(s); if (r.coin(1, 8)) b = junk(r); std::string p = scratch() + "/j.json"; put_file(p, b); ret = returns(c, [&] { NXJSONNode *t = nx_json_tree_from_file(p.c_str()); if (t) nx_json_tree_free(t); }); }
    else { std::string s = "a,b,c\n1,\"x,\"\"y\",2.5\n,z,\n3,w,1e9\n"; std::string b = hurt(s); if (r.coin(1, 8)) b = junk(r); std::string p = scratch() + "/t.csv"; put_file(p, b); bool fac = r.coin(); ret = returns(c, [&] { NXDataFrame *df = nx_data_frame_load_csv(p.c_str(), fac ? NX_TRUE : NX_FALSE); if (df) nx_data_frame_free(df); }); }
    c.ev(ret ? "text_loaded" : "text_fatal");
}
// PNG files whose header declares more than 2^31 bytes of pixels: reached with few bytes because one-bit zeros compress and interlaced files write every eighth row first.
static void huge_png(Ctx &c) {
    auto &r = c.rng; bool gray = r.coin(2, 3); unsigned w = gray ? (unsigned)r.i(60000, 66000) : (unsigned)r.i(20000, 40000), nc = gray ? 1 : 4; unsigned h = (unsigned)((1ull << 31) / ((unsigned long long)w * nc)) + (unsigned)r.i(1, 3000); int kind = r.i(0, 2); // 0 header only, 1 truncated pixels, 2 junk pixels
    bool il = kind == 1 || r.coin(); auto be = [](std::string &o, uint32_t v) { for (int z = 24; z >= 0; z -= 8) o += (char)(v >> z); }; auto chunk = [&](std::string &o, const char *t, const std::string &d) { be(o, (uint32_t)d.size()); std::string x = std::string(t, 4) + d; o += x; be(o, (uint32_t)crc32(0, (const Bytef *)x.data(), (uInt)x.size())); };
    std::string b = "\x89PNG\r\n\x1a\n", ih; be(ih, w); be(ih, h); int depth = gray ? 1 : 8; ih += (char)depth; ih += (char)(gray ? 0 : 6); ih += (char)0; ih += (char)0; ih += (char)il; chunk(b, "IHDR", ih);
    if (kind == 1) { unsigned pw = (w + 7) / 8, ph = (h + 7) / 8; std::string raw((size_t)ph * (1 + (gray ? (pw + 7) / 8 : pw * 4)), '\0'), z(compressBound(raw.size()), '\0'); uLongf n = z.size(); compress2((Bytef *)&z[0], &n, (const Bytef *)raw.data(), raw.size(), 1); z.resize(n - 4); chunk(b, "IDAT", z); } else if (kind == 2) chunk(b, "IDAT", junk(r));
    if (kind != 1 || r.coin()) chunk(b, "IEND", ""); c.desc("PNG header %ux%u channels %u kind %d interlaced %d bytes %zu", w, h, nc, kind, (int)il, b.size()); c.mixb(b.data(), b.size()); c.nt(); c.ev("huge_png_header"); c.ev(vh::fmt("huge_png_kind_%d", kind).c_str());
    std::string path = scratch() + "/huge.png"; write_file(path, b.data(), b.size()); NXImage *d = nx_image_alloc(); bool ok = true; Fds fds; bool ret = returns(c, [&] { ok = nx_image_load(d, path.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; }); REQ(c, !ret || !ok, "a file of %zu bytes with most pixels of its %ux%u missing was loaded", b.size(), w, h); if (ret) nx_image_free(d); remove(path.c_str());
}
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"image", image, 9000, 250000}, {"binary", binary, 6000, 120000}, {"cache", cache, 500, 8000}, {"text", text, 4000, 80000}, {"huge_png", huge_png, 12, 160}}); }
