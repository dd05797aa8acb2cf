// Logging, fatal errors and allocation: what is printed, who is told, what the caller observes.
#include "img.hpp"
#include "gen_text.hpp"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_filter.h"
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <termios.h>
#include <execinfo.h>
#include <sys/wait.h>
using namespace vh; using namespace vi;
extern "C" void c27_assert(int kind, int v, int lo, int hi, int *evals);
// ---- allocation faults, below the library's own allocation functions
static long a_n = -1, a_at = 0; static bool a_once, a_fired, bt_null;
static bool refuse() { if (a_n < 0) return false; long k = a_n++; if (k == a_at || (k > a_at && !a_once)) { a_fired = true; return true; } return false; }
extern "C" {
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t); char **__real_backtrace_symbols(void *const *, int);
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? nullptr : __real_realloc(p, n); }
void *__wrap_calloc(size_t m, size_t n) { return refuse() ? nullptr : __real_calloc(m, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : __real_aligned_alloc(a, n); }
char **__wrap_backtrace_symbols(void *const *b, int n) { return bt_null ? nullptr : __real_backtrace_symbols(b, n); }
}
struct Arm { Arm(long at, bool once) { a_at = at; a_once = once; a_fired = false; a_n = 0; } ~Arm() { a_n = -1; } };
static std::string to_file(const std::function<void()> &f) { fflush(stderr); std::string p = scratch() + "/log.txt"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), old = dup(2); dup2(fd, 2); close(fd); f(); fflush(stderr); dup2(old, 2); close(old); std::string s; read_file(p, s); unlink(p.c_str()); return s; }
static bool to_pty(const std::function<void()> &f, std::string &out) { int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0) return false; if (grantpt(m) || unlockpt(m)) { close(m); return false; } char *nm = ptsname(m); int s = nm ? open(nm, O_RDWR | O_NOCTTY) : -1; if (s < 0) { close(m); return false; } struct termios t; tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t);
    int pp[2]; if (pipe(pp)) { close(m); close(s); return false; } pid_t pid = fork(); if (pid == 0) { close(pp[0]); close(s); char b[4096]; ssize_t k; while ((k = read(m, b, sizeof b)) > 0) if (write(pp[1], b, (size_t)k) < 0) break; _exit(0); } close(pp[1]); close(m); fflush(stderr); int old = dup(2); dup2(s, 2); f(); fflush(stderr); dup2(old, 2); close(old); out.clear(); char b[4096]; ssize_t k; static const char END[] = "\x01<end of text>\x02"; size_t z = sizeof END - 1, w = 0; while (w < z && (k = write(s, END + w, z - w)) > 0) w += (size_t)k; while (out.size() < z || out.compare(out.size() - z, z, END)) { k = read(pp[0], b, sizeof b); if (k <= 0) break; out.append(b, (size_t)k); } if (out.size() >= z) out.resize(out.size() - z); close(s); kill(pid, SIGKILL); close(pp[0]); int st; waitpid(pid, &st, 0); return true; }
static std::string word(Rng &r, int max) { std::string s; for (int i = r.size(max); i > 0; --i) s += "abcXYZ_:[]019 %ds"[r.i(0, 15)]; return s; }
struct Msg { int lvl; std::string tag, fn, text, a; int line, kind, iv; double dv; };
static const char LT[] = "ILWE";
static Msg message(Rng &r) { Msg m; m.lvl = r.i(0, 3); m.tag = word(r, 20); m.fn = word(r, 30); m.line = r.coin(1, 5) ? (int)r.next() : r.i(0, 5000); m.kind = r.i(0, 5); m.iv = (int)r.next(); m.dv = r.gauss() * 100; int mx = r.coin(1, 12) ? 20000 : 60; int n = r.size(mx); for (int i = 0; i < n; ++i) m.a += (char)(r.coin(1, 8) ? r.i(1, 255) : r.i(32, 126)); return m; }
static void emit(Msg &m) { NXLogLevel l = (NXLogLevel)m.lvl; const char *f = m.fn.c_str(), *t = m.tag.c_str(); switch (m.kind) { case 0: nx_log_formatted(l, f, m.line, t, "%s", m.a.c_str()); m.text = m.a; break; case 1: nx_log_formatted(l, f, m.line, t, "value %d%% of %s and %.3f", m.iv, m.a.c_str(), m.dv); m.text = fmt("value %d%% of ", m.iv) + m.a + fmt(" and %.3f", m.dv); break; case 2: nx_log_formatted(l, f, m.line, t, "plain 100%%"); m.text = "plain 100%"; break; case 3: nx_log_formatted(l, f, m.line, t, "%s|%zu|%c|%5d|%-4d|%x", m.a.c_str(), m.a.size(), 'q', m.iv % 1000, m.iv % 100, (unsigned)m.iv); m.text = m.a + fmt("|%zu|%c|%5d|%-4d|%x", m.a.size(), 'q', m.iv % 1000, m.iv % 100, (unsigned)m.iv); break; case 4: nx_log_formatted(l, f, m.line, t, "%s%s%s", m.a.c_str(), "", m.a.c_str()); m.text = m.a + m.a; break; default: nx_log_formatted(l, f, m.line, t, "first\nsecond %.17g\t", m.dv); m.text = fmt("first\nsecond %.17g\t", m.dv); } }
static std::string line(char l, const Msg &m) { return std::string("[") + l + "][" + m.tag + "][" + m.fn + ":" + std::to_string(m.line) + "] " + m.text + "\n"; }
static std::string uncolor(const std::string &s, int *n, bool *balanced) { std::string o; bool on = false; *n = 0; *balanced = true; for (size_t i = 0; i < s.size();) { if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { size_t e = s.find('m', i); if (e == std::string::npos) { o += s[i++]; continue; } std::string code = s.substr(i + 2, e - i - 2); bool reset = code == "0"; if (reset != on) *balanced = false; on = !reset; ++*n; i = e + 1; } else { if (s[i] == '\n' && false) on = on; o += s[i++]; } } if (on) *balanced = false; return o; }
static void logging(Ctx &c) {
    auto &r = c.rng; int n = r.i(1, 14), verb = 1; bool tty = r.coin(1, 5); std::vector<int> op; std::vector<Msg> ms; std::string want; for (int i = 0; i < n; ++i) { op.push_back(r.coin(1, 4) ? r.i(0, 3) : -1); ms.push_back(message(r)); if (tty) { for (auto &ch : ms.back().a) if (ch == 27) ch = '.'; } } verb = r.i(0, 3); int v0 = verb; c.desc("%d messages starting at verbosity %d%s", n, verb, tty ? " on a terminal" : ""); if (n > 2) c.nt(); int printed = 0;
    auto run = [&] { nx_log_verbosity((NXLogVerbosity)v0); verb = v0; for (int i = 0; i < n; ++i) { if (op[i] >= 0) nx_log_verbosity((NXLogVerbosity)(verb = op[i])); emit(ms[i]); if (ms[i].lvl >= verb) { want += line(LT[ms[i].lvl], ms[i]); ++printed; } c.mix((uint64_t)ms[i].lvl * 4 + verb); } }; std::string got; bool ok = true; if (tty) { ok = to_pty(run, got); if (!ok) { c.ev("no_terminal"); nx_log_verbosity(NX_LOG_SILENT); return; } } else got = to_file(run); nx_log_verbosity(NX_LOG_SILENT); c.mixb(want.data(), want.size());
    if (tty) { int codes; bool bal; got = uncolor(got, &codes, &bal); REQ(c, bal, "unbalanced color codes"); REQ(c, codes == 2 * printed, "%d color codes for %d messages", codes, printed); c.ev("on_terminal"); }
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; REQ(c, false, "log text differs at byte %zu: got %s expected %s", k, escape(got.substr(k > 30 ? k - 30 : 0, 120)).c_str(), escape(want.substr(k > 30 ? k - 30 : 0, 120)).c_str()); } c.ev("messages", n); c.ev("printed", printed); c.ev("suppressed", n - printed);
}
static std::string h_text, h_tag, h_fn; static int h_line, h_calls; static jmp_buf h_jmp;
static void handler(const char *fn, int line, const char *tag, const char *msg, va_list prm) { ++h_calls; h_fn = fn; h_tag = tag; h_line = line; va_list p2; va_copy(p2, prm); int n = vsnprintf(nullptr, 0, msg, p2); va_end(p2); h_text.assign((size_t)n + 1, 0); vsnprintf(&h_text[0], (size_t)n + 1, msg, prm); h_text.resize((size_t)n); longjmp(h_jmp, 1); }
static void raise(Msg &m) { switch (m.kind % 3) { case 0: m.text = m.a; nx_log_fatal(m.fn.c_str(), m.line, m.tag.c_str(), "%s", m.a.c_str()); case 1: m.text = fmt("value %d%% of ", m.iv) + m.a + fmt(" and %.3f", m.dv); nx_log_fatal(m.fn.c_str(), m.line, m.tag.c_str(), "value %d%% of %s and %.3f", m.iv, m.a.c_str(), m.dv); default: m.text = "plain 100%"; nx_log_fatal(m.fn.c_str(), m.line, m.tag.c_str(), "plain 100%%"); } }
static void expected_text(Msg &m) { switch (m.kind % 3) { case 0: m.text = m.a; break; case 1: m.text = fmt("value %d%% of ", m.iv) + m.a + fmt(" and %.3f", m.dv); break; default: m.text = "plain 100%"; } }
static void fatal(Ctx &c) {
    auto &r = c.rng; Msg m = message(r), before = message(r); int verb = r.i(0, 3), how = r.i(0, 5); c.nt(); c.desc("fatal error, variant %d, verbosity %d", how, verb); c.mix(how * 4 + verb); c.mixb(m.a.data(), m.a.size()); expected_text(m); bool oom_trace = r.coin(1, 3);
    // a: the process ends with the documented status after printing
    std::string wantb; Outcome o = fork_run([&] { nx_log_verbosity((NXLogVerbosity)verb); printf("pending output"); if (how == 1) { nx_log_fatal_func((NXLogFatalFuncP)handler); nx_log_fatal_func(nullptr); } if (how == 2) bt_null = oom_trace; emit(before); if (how == 3) { int ev = 0; c27_assert(0, 3, 4, 0, &ev); } else if (how == 4) nx_xfopen("/nonexistent directory/file", "r"); else if (how == 5) { a_at = 0; a_once = false; a_n = 0; nx_xmalloc(12345); } else raise(m); printf("NOT REACHED"); }, 20);
    if (before.lvl >= verb) { switch (before.kind) { default: break; } Msg b = before; to_file([&] { nx_log_verbosity(NX_LOG_INFORMATIVE); emit(b); }); nx_log_verbosity(NX_LOG_SILENT); wantb = line(LT[b.lvl], b); }
    REQ(c, o.kind == FATAL, "fatal error ended as %s code %d: %s", kind_name(o.kind), o.code, escape(o.err).c_str()); REQ(c, o.out == "pending output", "standard output is %s", escape(o.out).c_str()); REQ(c, o.err.compare(0, wantb.size(), wantb) == 0, "earlier messages are lost"); std::string rest = o.err.substr(wantb.size());
    if (how <= 2) { std::string w = line('F', m); REQ(c, rest.compare(0, w.size(), w) == 0, "diagnostic is %s expected %s", escape(rest).c_str(), escape(w).c_str()); } else { size_t p = rest.find("[F]["); REQ(c, p != std::string::npos, "no diagnostic: %s", escape(rest).c_str()); REQ(c, rest.find(how == 3 ? "v % 7 == lo" : how == 4 ? "/nonexistent directory/file" : "12345", p) != std::string::npos, "diagnostic does not name the cause: %s", escape(rest).c_str()); } c.ev("process_ended");
    // b: the installed handler is told, exactly once, and nothing else happens
    for (int k = 0; k < 2; ++k) { h_calls = 0; std::string err = to_file([&] { nx_log_verbosity((NXLogVerbosity)verb); nx_log_fatal_func((NXLogFatalFuncP)handler); if (setjmp(h_jmp) == 0) { raise(m); } }); nx_log_verbosity(NX_LOG_SILENT); reinstall_handler(); REQ(c, h_calls == 1, "handler called %d times", h_calls); REQ(c, h_text == m.text && h_tag == m.tag && h_fn == m.fn && h_line == m.line, "handler was told [%s][%s:%d] %s expected [%s][%s:%d] %s", escape(h_tag).c_str(), escape(h_fn).c_str(), h_line, escape(h_text).c_str(), escape(m.tag).c_str(), escape(m.fn).c_str(), m.line, escape(m.text).c_str()); REQ(c, err.empty(), "text was printed although a handler is installed: %s", escape(err).c_str()); c.ev("handler_told"); }
}
static void fatal_tty(Ctx &c) { auto &r = c.rng; Msg m = message(r); for (auto &ch : m.a) if (ch == 27) ch = '.'; expected_text(m); int verb = r.i(0, 3), st = -1; c.nt(); c.desc("fatal error on a terminal, verbosity %d", verb); c.mixb(m.text.data(), m.text.size()); c.mix(verb); std::string got; bool ok = to_pty([&] { pid_t p = fork(); if (!p) { signal(SIGABRT, SIG_DFL); nx_log_verbosity((NXLogVerbosity)verb); nx_log_fatal_func(nullptr); atexit([] { fflush(stderr); _exit(111); }); raise(m); _exit(112); } waitpid(p, &st, 0); }, got); if (!ok) { c.ev("no_terminal"); return; } REQ(c, WIFEXITED(st) && WEXITSTATUS(st) == 111, "fatal error on a terminal ended with status %x", st); int codes; bool bal; std::string t = uncolor(got, &codes, &bal), w = line('F', m); REQ(c, t.compare(0, w.size(), w) == 0, "on a terminal the diagnostic is %s expected %s", escape(t.substr(0, 300)).c_str(), escape(w.substr(0, 300)).c_str()); REQ(c, bal, "the terminal is left colored: %s", escape(got.substr(0, 300)).c_str()); c.ev("fatal_on_terminal"); }
static void asserts(Ctx &c) {
    auto &r = c.rng; int kind = r.i(0, 4), v = r.i(-9, 9), lo = r.i(-9, 9), hi = r.i(-9, 9), ev = 0; bool holds = kind == 0 ? v % 7 == lo : kind == 1 ? v != 0 : kind == 2 ? v == lo : kind == 3 ? v >= lo && v <= hi : v >= 0 && v < hi; std::string msg; c.desc("assertion kind %d v %d lo %d hi %d", kind, v, lo, hi); c.nt(); c.mix(kind * 10000 + v * 400 + lo * 20 + hi); bool ret = returns(c, [&] { c27_assert(kind, v, lo, hi, &ev); }, &msg); REQ(c, ret == holds, "assertion kind %d with v=%d lo=%d hi=%d %s", kind, v, lo, hi, ret ? "passed" : "failed"); if (kind == 0) REQ(c, ev == 1, "asserted expression evaluated %d times", ev); if (!ret) { static const char *w[] = {"v % 7 == lo", "NULL", "100% custom %s text", "v", "v"}; REQ(c, msg.find(w[kind]) != std::string::npos, "message %s", msg.c_str()); if (kind >= 3) REQ(c, msg.find(std::to_string(v)) != std::string::npos, "message lacks the value: %s", msg.c_str()); c.ev("assert_failed"); } else c.ev("assert_held");
}
// ---- allocation functions
static void alloc(Ctx &c) {
    auto &r = c.rng; int kind = r.i(0, 6); size_t n = r.coin(1, 6) ? 0 : r.coin(1, 4) ? (size_t)r.range(1, 3000000) : (size_t)r.i(1, 5000); static const size_t AL[] = {8, 16, 32, 64, 4096}; size_t al = AL[r.i(0, 4)], m = 0, memb = (size_t)r.i(1, 40); if (kind >= 5) n = (n / al + 1) * al; int fail = r.i(0, 3); static const char *NM[] = {"malloc", "calloc", "xmalloc", "xcalloc", "xrealloc", "aligned_alloc", "xaligned_alloc"}; c.desc("%s of %zu", NM[kind], n); c.nt(); c.mix(kind); c.mix(n); c.mix(fail); c.ev(NM[kind]);
    if (kind == 1 || kind == 3) { m = n / memb; n = m * memb; } std::vector<unsigned char> old; unsigned char *p0 = nullptr; if (kind == 4 && r.coin(3, 4)) { old.resize((size_t)r.i(1, 4000)); p0 = (unsigned char *)nx_xmalloc(old.size()); for (size_t i = 0; i < old.size(); ++i) p0[i] = old[i] = (unsigned char)r.next(); }
    size_t want = n; if (fail == 2) want = (size_t)PTRDIFF_MAX - (size_t)r.i(0, 100000); if (fail == 3) want = SIZE_MAX - (size_t)r.i(0, 100); if (kind >= 5 && fail >= 2) want = want / al * al; if (fail == 1 && n == 0) fail = 0; bool expect = fail != 0; void *p = nullptr; std::string msg, err; size_t mm = memb; if (kind == 1 || kind == 3) { if (fail >= 2) { m = r.coin() ? want / memb + 1 : want; mm = memb < 2 ? 2 : memb; if (m == want && r.coin()) { m = (size_t)1 << r.i(33, 60); mm = (size_t)1 << r.i(31, 62); } } }
    if (fail >= 2 && kind == 0) want = want; bool ret = true; err = to_file([&] { nx_log_verbosity(NX_LOG_SILENT); a_fired = false; a_at = 0; a_once = true; ret = returns(c, [&] { if (fail == 1) a_n = 0; switch (kind) { case 0: p = nx_malloc(want); break; case 1: p = nx_calloc(m, mm); break; case 2: p = nx_xmalloc(want); break; case 3: p = nx_xcalloc(m, mm); break; case 4: p = nx_xrealloc(p0, want); break; case 5: p = nx_aligned_alloc(al, want); break; default: p = nx_xaligned_alloc(al, want); } }, &msg); a_n = -1; });
    bool x = kind == 2 || kind == 3 || kind == 4 || kind == 6; if (expect) { if (x) { REQ(c, !ret, "%s of an unavailable amount returned %p", NM[kind], p); REQ(c, msg.find("memory") != std::string::npos, "message: %s", msg.c_str()); } else { REQ(c, ret && !p, "%s of an unavailable amount %s", NM[kind], ret ? "returned memory" : "was fatal"); REQ(c, err.find("[E]") != std::string::npos && err.find("memory") != std::string::npos, "no error message: %s", escape(err).c_str()); } c.ev("refused"); if (kind == 4 && p0) { REQ(c, !memcmp(p0, old.data(), old.size()), "failed reallocation damaged the old block"); nx_free(p0); } }
    else { REQ(c, ret, "%s refused: %s", NM[kind], msg.c_str()); REQ(c, err.empty(), "message without failure: %s", escape(err).c_str()); if (n) { REQ(c, p, "no memory"); if (kind == 1 || kind == 3) for (size_t i = 0; i < n; ++i) REQ(c, ((unsigned char *)p)[i] == 0, "byte %zu of zeroed memory is not zero", i); if (kind == 4 && p0) REQ(c, !memcmp(p, old.data(), std::min(n, old.size())), "reallocation lost the content"); if (kind >= 5) REQ(c, (uintptr_t)p % al == 0, "misaligned"); memset(p, 0xA7, n); } nx_free(p); c.ev("granted"); } nx_free(nullptr);
}
// ---- every kind of library operation while an allocation fails
static std::string mem(const void *p, size_t n) { return fmt("%zu:%016llx ", n, (unsigned long long)hash_bytes(p, n)); }
static std::string imgd(const NXImage *i) { Px q = pixels(i); return fmt("%dx%dx%d ", q.w, q.h, q.nc) + mem(q.v.data(), q.v.size() * 4); }
static void faults(Ctx &c) {
    auto &r = c.rng; enum { N = 26 }; static const char *NM[N] = {"fstr", "strredup", "strread0", "string_array", "mem_block", "json_parse", "json_build", "csv_load", "data_frame", "options", "image_copy", "image_convert", "image_smooth", "image_scale", "pyramid", "warp", "sift", "brief", "fast", "harris", "graph", "svd", "homography", "fundamental", "image_load", "keypoint_vector"}; int k = r.i(0, N - 1); c.desc("%s", NM[k]); c.nt(); c.ev(NM[k]); nx_log_verbosity(NX_LOG_SILENT);
    std::string txt = gen_bytes(r, 200, 0), path = scratch() + "/in"; for (auto &ch : txt) if (!ch) ch = 'x'; Px px = random_px(r, r.i(24, 44), r.i(24, 44), k == 11 || k == 24 ? (r.coin() ? 1 : 4) : 1, false); Img im = make(r, px, 0); uint64_t seed = r.next(); std::vector<NXPointMatch2D> pm(30); memset((void *)pm.data(), 0, pm.size() * sizeof pm[0]); for (auto &q : pm) { q.x[0] = (float)r.uni(0, 200); q.x[1] = (float)r.uni(0, 200); q.xp[0] = 1.1f * q.x[0] + 5; q.xp[1] = 0.9f * q.x[1] + 0.1f * q.x[0] - 3; }
    if (k == 24) REQ(c, nx_image_save(im.i, (path + (r.coin() ? ".png" : ".ppm")).c_str()) == NX_OK || true, "save"); std::string ip = access((path + ".png").c_str(), F_OK) ? path + ".ppm" : path + ".png"; std::string csv = "a,b,\"c\"\n"; for (int i = r.i(1, 30); i > 0; --i) csv += fmt("%d,%g,s%d\n", r.i(-5, 5), r.gauss(), r.i(0, 3)); std::string js = "[1, 2.5, \"x\\ny\", {\"k\": [true, false, null], \"m\": \"" + std::string((size_t)r.i(0, 300), 'q') + "\"}]"; if (k == 7) write_file(path, csv.data(), csv.size()); if (k == 2) { FILE *f = fopen(path.c_str(), "wb"); nx_strwrite(txt.c_str(), f); nx_strwrite("second", f); fclose(f); }
    auto op = [&]() -> std::string { std::string d; Rng q(seed); switch (k) {
        case 0: { char *s = nx_fstr("%s-%d", txt.c_str(), 5); char *t = nx_strdup(s); d = std::string(s) + t; nx_free(s); nx_free(t); break; }
        case 1: { char *s = nullptr; nx_strredup(&s, txt.c_str()); nx_strredup(&s, "short"); nx_strredup(&s, (txt + txt).c_str()); d = s; nx_free(s); break; }
        case 2: { FILE *f = fopen(path.c_str(), "rb"); char *s = nx_strread0(f), *t = nx_strread0(f); fclose(f); d = std::string(s) + t; nx_free(s); nx_free(t); break; }
        case 3: { NXStringArray *a = nx_string_array_new(2); for (int i = 0; i < 20; ++i) nx_string_array_appendf(a, "%d %s", i, txt.c_str()); nx_string_array_resize(a, 9); nx_string_array_set(a, 0, "z"); for (int i = 0; i < 9; ++i) { const char *s = nx_string_array_get(a, i); d += s ? s : "-"; } nx_string_array_free(a); break; }
        case 4: { NXMemBlock *m = nx_mem_block_new(100); memset(m->ptr, 7, 100); nx_mem_block_resize(m, 5000); NXMemBlock *n = nx_mem_block_copy0(m); d = mem(n->ptr, 100); nx_mem_block_free(m); nx_mem_block_free(n); break; }
        case 5: { std::string t = js; NXJSONNode *n = nx_json_tree_from_string(&t[0]); d = fmt("%d", nx_json_node_n_children(n)); nx_json_tree_free(n); break; }
        case 6: { NXJSONNode *n = nx_json_node_new_object(); for (int i = 0; i < 5; ++i) nx_json_object_add(n, fmt("k%d", i).c_str(), nx_json_node_new_string(txt.c_str())); d = fmt("%d", nx_json_node_n_children(n)); nx_json_tree_free(n); break; }
        case 7: { NXDataFrame *f = nx_data_frame_load_csv(path.c_str(), q.coin() ? NX_TRUE : NX_FALSE); if (!f) { d = "refused"; break; } d = fmt("%d %d", nx_data_frame_n_rows(f), nx_data_frame_n_columns(f)); nx_data_frame_free(f); break; }
        case 8: { NXDataFrame *f = nx_data_frame_alloc(); nx_data_frame_add_column(f, NX_DCT_STRING, "s"); nx_data_frame_add_column(f, NX_DCT_INT, "i"); for (int i = 0; i < 12; ++i) { int w = nx_data_frame_add_row(f); nx_data_frame_set_string(f, w, 0, i % 2 ? "odd" : "even"); nx_data_frame_set_int(f, w, 1, i); } nx_data_frame_make_factor(f, 0); d = fmt("%d %d", nx_data_frame_n_rows(f), nx_data_column_n_factor_levels(nx_data_frame_column(f, 0))); nx_data_frame_free(f); break; }
        case 9: { NXOptions *o = nx_options_alloc(); nx_options_add(o, "i", "-n|--number", "a number", 5); nx_options_add(o, "s", "-s|--string", "a string", "abc"); nx_options_add(o, "r", "files"); std::vector<std::string> av = {"prog", "-n", "12", "one", "--string", txt, "two"}; std::vector<char *> p; for (auto &x : av) p.push_back(&x[0]); p.push_back(nullptr); nx_options_set_from_args(o, (int)av.size(), p.data()); d = fmt("%d ", nx_options_get_int(o, "-n")) + nx_options_get_string(o, "-s"); nx_options_free(o); break; }
        case 10: { NXImage *a = nx_image_copy0(im.i), *b = nx_image_alloc(); nx_image_copy(b, a); d = imgd(b); nx_image_free(a); nx_image_free(b); break; }
        case 11: { NXImage *a = nx_image_copy0(im.i); nx_image_convert_type(a, px.nc == 1 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE); d = imgd(a); nx_image_free(a); break; }
        case 12: { NXImage *a = nx_image_alloc(); nx_image_smooth(a, im.i, 1.5f, 1.0f, 3.0f, nullptr); d = imgd(a); nx_image_free(a); break; }
        case 13: { NXImage *a = nx_image_alloc(), *b = nx_image_alloc(); nx_image_scale(a, im.i, 0.6f); nx_image_downsample(b, im.i); d = imgd(a) + imgd(b); nx_image_free(a); nx_image_free(b); break; }
        case 14: { NXImagePyrBuilder *b = nx_image_pyr_builder_new_scaled(3, 0.7f, 1.0f); NXImagePyr *p = nx_image_pyr_builder_build0(b, im.i); d = fmt("%d", p->n_levels) + imgd(p->levels[2].img); nx_image_pyr_free(p); nx_image_pyr_builder_free(b); break; }
        case 15: { NXAffineWarpProcessor *w = nx_affine_warp_processor_new(); NXAffineWarpParam p = {0.9, 0.3, 1.2, 0.1}; nx_affine_warp_processor_set_bg_fixed(w, 9); nx_affine_warp_processor_warp(w, im.i, p); d = imgd(nx_affine_warp_processor_warp_result(w)); nx_affine_warp_processor_free(w); break; }
        case 16: { NXSIFTDetector *s = nx_sift_detector_new(nx_sift_default_parameters()); int cap = 0; NXKeypoint *kk = nullptr; uchar *dd = nullptr; int n = nx_sift_detector_compute(s, im.i, &cap, &kk, &dd); d = fmt("%d ", n) + mem(dd, (size_t)n * 128); std::vector<NXPointMatch2D> m((size_t)n + 1); d += fmt("%d", nx_sift_match_brute_force(n, kk, dd, n, kk, dd, m.data(), 0.9f)); nx_free(kk); nx_free(dd); nx_sift_detector_free(s); break; }
        case 17: { NXBriefExtractor *b = nx_brief_extractor_new_with_seed(8, 6, 77); uchar ds[8]; NXImagePyrBuilder *pb = nx_image_pyr_builder_new_fast(4, 1.0f); NXImagePyr *p = nx_image_pyr_builder_build0(pb, im.i); memset(ds, 0, 8); if (nx_brief_extractor_check_point_pyr(b, p, 12, 12, 0)) nx_brief_extractor_compute_pyr(b, p, 12, 12, 0, ds); d = mem(ds, 8); nx_image_pyr_free(p); nx_image_pyr_builder_free(pb); nx_brief_extractor_free(b); break; }
        case 18: { NXFastDetector *f = nx_fast_detector_alloc(); f->threshold = 5; NXKeypoint ks[60]; int n = nx_fast_detector_detect(f, 60, ks, im.i); d = fmt("%d", n); nx_fast_detector_free(f); break; }
        case 19: { NXImage *di[3]; for (auto &x : di) x = nx_image_alloc(); NXImage *s = nx_image_alloc(); nx_harris_deriv_images(di, im.i, 1.2f); nx_harris_score_image(s, di, 0.05f); d = imgd(s); for (auto &x : di) nx_image_free(x); nx_image_free(s); break; }
        case 20: { NXGraphAdjLst *g = nx_graph_new_adj_lst("g", 6); NXGraphAdjMat *m = nx_graph_new_adj_mat("m", 6); nx_graph_insert_adj_lst(g, 1, 2, 3.0); nx_graph_insert_adj_mat(m, 1, 2, 3.0); d = fmt("%d %d", g->n_e, m->n_e); nx_graph_free_adj_lst(g); nx_graph_free_adj_mat(m); break; }
        case 21: { double A[20], U[25], S[4], V[16]; for (auto &x : A) x = q.gauss(); nx_dsvd_usvt(U, 5, S, V, 4, 5, 4, A, 5); d = fmt("%.5f", S[0]); float B[12], s2[3]; for (auto &x : B) x = (float)q.gauss(); nx_ssvd_only_s(s2, 4, 3, B, 4); d += fmt(" %.2f", s2[0]); break; }
        case 22: { double h[9]; nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), 5); std::vector<NXPointMatch2D> m = pm; int n = nx_homography_estimate_norm_ransac(h, 30, m.data(), 1.0, 50); nx_uniform_sampler_instance_free(); d = fmt("%d", n > 0); nx_homography_estimate_dlt(h, 30, m.data()); break; }
        case 23: { double F[9]; nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), 5); std::vector<NXPointMatch2D> m = pm; for (size_t i = 0; i < m.size(); ++i) m[i].xp[0] += (float)(i * i % 17); int n = nx_fundamental_estimate_norm_ransac(F, 30, m.data(), 1.0, 20); nx_uniform_sampler_instance_free(); d = fmt("%d", n >= 0); break; }
        case 24: { NXImage *a = nx_image_alloc(); if (nx_image_load(a, ip.c_str(), NX_IMAGE_LOAD_RGBA) == NX_OK) d = imgd(a); else d = "refused"; nx_image_free(a); break; }
        default: { NXKeypointVector *v = nx_keypoint_vector_new(1); for (int i = 0; i < 40; ++i) nx_keypoint_vector_push_back(v)->x = i; NXKeypointVector *w = nx_keypoint_vector_copy0(v); for (int i = 0; i < 40; ++i) d += fmt("%d,", w->data[i].x); nx_keypoint_vector_free(v); nx_keypoint_vector_free(w); }
    } return d; };
    std::string ref, got; long total; { Arm a(LONG_MAX, true); ref = op(); total = a_n; } if (!total) { c.ev("allocates_nothing"); destroy(im); return; } c.mixb(ref.data(), ref.size()); c.mix(k); c.mixb(txt.data(), txt.size());
    std::vector<long> at; for (long i = 0; i < std::min(total, 6L); ++i) at.push_back(i); for (int i = 0; i < (c.thorough ? 20 : 5) && total > 6; ++i) at.push_back(r.range(6, total - 1)); if (total > 1) at.push_back(total - 1);
    for (long p : at) { bool once = r.coin(), fired; std::string msg; bool ret; got.clear(); { Arm a(p, once); ret = returns(c, [&] { got = op(); }, &msg); fired = a_fired; } nx_uniform_sampler_instance_free(); REQ(c, fired, "%s: allocation %ld of %ld was not reached", NM[k], p, total); if (ret) { REQ(c, got == ref || got == "refused", "%s went on with another result after allocation %ld failed", NM[k], p); c.ev("tolerated"); } else { REQ(c, msg.find("memory") != std::string::npos || msg.find("rror") != std::string::npos, "%s: message after allocation failure: %s", NM[k], msg.c_str()); c.ev("stopped"); } }
    got = op(); REQ(c, got == ref, "%s gives another result after earlier failures", NM[k]); 
    if (r.coin(1, 10)) { long p = r.pick(at); Outcome o = fork_run([&] { a_at = p; a_once = false; a_fired = false; a_n = 0; bt_null = true; op(); a_n = -1; }, 30); REQ(c, o.kind == FATAL || o.kind == RETURNED, "%s with persistent allocation failure ended as %s code %d: %s", NM[k], kind_name(o.kind), o.code, escape(o.err).c_str()); if (o.kind == FATAL) REQ(c, o.err.find("[F][") != std::string::npos, "no diagnostic"); c.ev("process_ended"); }
    destroy(im); unlink(path.c_str()); unlink((path + ".png").c_str()); unlink((path + ".ppm").c_str());
}
// ---- real exhaustion of the address space (not possible under the address sanitizer)
static void *volatile sink;
static void exhausted(Ctx &c) { auto &r = c.rng; if (c.sanitized) c.skip(); size_t ask = 140000 + ((size_t)r.i(1, 4000) << r.i(0, 12)); int kind = r.i(0, 3); bool warm = r.coin(); c.desc("address space exhausted, then %zu bytes", ask); c.nt(); c.mix(ask * 4 + kind); Outcome o = fork_run([&] { if (warm) { void *b[4]; backtrace(b, 4); } struct rlimit l = {64u << 20, 64u << 20}; std::string st; read_file("/proc/self/statm", st); l.rlim_cur = l.rlim_max = (rlim_t)(strtoull(st.c_str(), 0, 10) * 4096 + (8u << 20)); setrlimit(RLIMIT_AS, &l); for (size_t z = 4u << 20; z >= 16; z /= 2) for (;;) { sink = malloc(z); if (!sink) break; } switch (kind) { case 0: nx_xmalloc(ask); break; case 1: nx_xcalloc(ask, 2); break; case 2: nx_xrealloc(nullptr, ask); break; default: nx_fstr("%*d", (int)ask, 1); } }, 20); REQ(c, o.kind == FATAL, "out of memory ended as %s code %d: %s", kind_name(o.kind), o.code, escape(o.err).c_str()); REQ(c, o.err.find("[F][") != std::string::npos && o.err.find("memory") != std::string::npos, "no diagnostic: %s", escape(o.err).c_str()); c.ev("exhausted"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"logging", logging, 2500, 50000}, {"fatal", fatal, 300, 4000}, {"fatal_tty", fatal_tty, 60, 1000}, {"asserts", asserts, 1500, 20000}, {"alloc", alloc, 3000, 60000}, {"faults", faults, 1200, 15000}, {"exhausted", exhausted, 40, 400}}); }
