#include "vh.hpp"
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>

#include "virg/nexus/nx_log.h"

extern "C" {
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
const char *__asan_default_options() __attribute__((used, visibility("default")));
const char *__ubsan_default_options() __attribute__((used, visibility("default")));
const char *__asan_default_options() {
    return "exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:"
           "malloc_fill_byte=167:max_malloc_fill_size=67108864:detect_stack_use_after_return=1:"
           "handle_abort=1:quarantine_size_mb=16:print_stacktrace=1:abort_on_error=0:strict_string_checks=0";
}
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=86"; }
}

namespace vh {

static const size_t TEXT_CAP = 16384;
struct Slot {
    volatile int active;           // 1 while a case runs
    volatile int group;
    volatile uint64_t case_id;
    volatile uint64_t next_case;   // resume point within group
    volatile uint64_t done, nontrivial;
    volatile int failed;           // 1: text in msg
    char msg[4096];
    char text[TEXT_CAP];
};

static Slot *g_slot = nullptr;
static std::string g_scratch;
static std::map<std::string, uint64_t> g_ev;
static bool g_count_ev = true;
static jmp_buf g_skip;
static bool g_verbose = false;

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
size_t allocated() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
const std::string &scratch() { return g_scratch; }

void Ctx::desc(const char *f, ...) {
    va_list ap; va_start(ap, f);
    if (text_len + 1 < TEXT_CAP) {
        int n = vsnprintf(text + text_len, TEXT_CAP - text_len, f, ap);
        if (n > 0) { text_len += (size_t)n; if (text_len > TEXT_CAP - 1) text_len = TEXT_CAP - 1; }
    }
    va_end(ap);
}
void Ctx::descbytes(const void *p, size_t n, const char *label) {
    mixb(p, n);
    desc(" %s[%zu]=\"%s\"", label, n, escape(std::string((const char *)p, std::min(n, (size_t)600)), 600).c_str());
}
void Ctx::ev(const char *name, uint64_t n) { if (g_count_ev) g_ev[name] += n; }
void Ctx::fail(const char *file, int line, const char *f, ...) {
    char buf[3000];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    const char *base = strrchr(file, '/');
    snprintf(g_slot->msg, sizeof g_slot->msg, "%s:%d: %s", base ? base + 1 : file, line, buf);
    g_slot->failed = 1;
    if (g_verbose) fprintf(stderr, "ORACLE: %s\n", g_slot->msg);
    _exit(85);
}
void Ctx::skip() { longjmp(g_skip, 1); }

std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); char *s = nullptr; int n = vasprintf(&s, f, ap); va_end(ap);
    std::string r = n >= 0 ? std::string(s, n) : std::string(); free(s); return r;
}
std::string escape(const std::string &s, size_t max) {
    std::string r;
    for (unsigned char ch : s) {
        if (r.size() >= max) { r += "..."; break; }
        if (ch == '\\' || ch == '"') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch >= 32 && ch < 127) r += (char)ch;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    }
    return r;
}
bool write_file(const std::string &path, const void *p, size_t n) {
    FILE *f = fopen(path.c_str(), "wb"); if (!f) return false;
    bool ok = n == 0 || fwrite(p, 1, n, f) == n; return fclose(f) == 0 && ok;
}
bool read_file(const std::string &path, std::string &out) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return false;
    out.clear(); char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
    fclose(f); return true;
}
const char *kind_name(Kind k) {
    static const char *n[] = {"returned", "fatal", "exited", "sanitizer-report", "signal", "hang"}; return n[k];
}

static void on_prof(int) { _exit(87); }
static void arm(double cpu_s) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)cpu_s; it.it_value.tv_usec = (long)((cpu_s - (long)cpu_s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
Outcome fork_run(const std::function<void()> &fn, double cpu) {
    Outcome o; o.kind = RETURNED; o.code = 0;
    std::string ep = g_scratch + "/.err", op = g_scratch + "/.out";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int e = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), q = open(op.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(e, 2); dup2(q, 1); close(e); close(q);
        signal(SIGPROF, on_prof); arm(cpu); alarm((unsigned)(cpu * 6));
        nx_log_fatal_func(nullptr);
        fn();
        fflush(stdout); fflush(stderr);
        _exit(84);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    read_file(ep, o.err); read_file(op, o.out);
    if (o.err.size() > 65536) o.err.resize(65536);
    if (WIFSIGNALED(st)) { o.kind = WTERMSIG(st) == SIGALRM ? HUNG : SIGNALED; o.code = WTERMSIG(st); }
    else {
        int c = WEXITSTATUS(st); o.code = c;
        if (c == 84) o.kind = RETURNED;
        else if (c == 86) o.kind = SANITIZER;
        else if (c == 87) o.kind = HUNG;
        else if (c == 85) { _exit(85); }           // oracle failed inside the child: propagate
        else if (o.err.find("ERROR: AddressSanitizer") != std::string::npos || o.err.find("runtime error:") != std::string::npos) o.kind = SANITIZER;
        else if (c == 157) o.kind = FATAL;          // documented failure status of a fatal error (-99 & 0xff)
        else o.kind = EXITED;
    }
    return o;
}

static jmp_buf g_fatal_jmp; static bool g_fatal_armed = false; static char g_fatal_msg[1 << 18];
static void fatal_hook(const char *fn, int, const char *tag, const char *msg, va_list prm) {
    int n = snprintf(g_fatal_msg, sizeof g_fatal_msg, "%s [%s]: ", tag ? tag : "", fn ? fn : "");
    vsnprintf(g_fatal_msg + n, sizeof g_fatal_msg - n, msg, prm);
    if (g_fatal_armed) longjmp(g_fatal_jmp, 1);
    snprintf(g_slot->msg, sizeof g_slot->msg, "unexpected fatal error: %s", g_fatal_msg);
    g_slot->failed = 1;
    if (g_verbose) fprintf(stderr, "ORACLE: %s\n", g_slot->msg);
    _exit(85);
}
void reinstall_handler() { nx_log_fatal_func((NXLogFatalFuncP)fatal_hook); }
bool returns(Ctx &c, const std::function<void()> &fn, std::string *msg) {
    bool was = g_fatal_armed; jmp_buf save; memcpy(&save, &g_fatal_jmp, sizeof save);
    g_fatal_armed = true; bool ok;
    if (setjmp(g_fatal_jmp) == 0) { fn(); ok = true; }
    else { ok = false; c.noleak = true; if (msg) *msg = g_fatal_msg; }
    g_fatal_armed = was; memcpy(&g_fatal_jmp, &save, sizeof save);
    return ok;
}

static uint64_t mixseed(uint64_t a, uint64_t b, uint64_t c) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull ^ (c + 1) * 0x94D049BB133111EBull); r.next(); return r.next(); }

struct Opts { uint64_t seed = 1; bool thorough = false; double scale = 1; int jobs = 8; std::string out, replay, only; double case_cpu = 30, budget = 0, began = 0; bool leak = true, keep_going = false; };

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch; }
    return r + "\"";
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t n_cases(const Opts &o, const Group &g) { double q = std::ceil(g.quick * o.scale); return (uint64_t)(o.thorough ? std::max((double)g.thorough, 5 * q) : q); }
static void one_case(Ctx &c, const Group &g, uint64_t gseed, uint64_t id) {
    c.rng = Rng(gseed); c.group = g.name; c.case_id = id; c.noleak = false; c.nontrivial = false; c.sig = gseed * 0 + hash_bytes(g.name, strlen(g.name));
    c.text = g_slot->text; c.text_len = 0; c.text[0] = 0;
    g.fn(c);
}

static int lowest_fd() { int fd = dup(2); if (fd >= 0) close(fd); return fd; } // grows with every descriptor left open
// returns through exit
static void worker(const Opts &o, const std::vector<Group> &groups, int w, int start_group, uint64_t start_case, const std::string &outp) {
    signal(SIGPROF, on_prof);
    nx_log_fatal_func((NXLogFatalFuncP)fatal_hook);
    FILE *sf = fopen((outp + ".sig").c_str(), "ab");
    FILE *tf = fopen((outp + ".samples").c_str(), "ab");
    FILE *ef = nullptr; bool recycle = false;
    bool san = __sanitizer_get_current_allocated_bytes != nullptr;
    std::unordered_set<uint64_t> seen;
    // flush events on any exit path of a finished worker
    for (size_t gi = start_group; gi < groups.size(); ++gi) {
        const Group &g = groups[gi];
        if (!o.only.empty() && o.only.find(std::string(",") + g.name + ",") == std::string::npos) continue;
        uint64_t n = n_cases(o, g);
        double stop = o.budget > 0 ? now_s() + std::max(1.0, (o.began + o.budget - now_s()) / 2) : 0; // on a slow machine no group may take more than half of the time left
        uint64_t first = (gi == (size_t)start_group) ? start_case : (uint64_t)w;
        int samples = 0;
        for (uint64_t id = first; id < n; id += o.jobs) {
            if (stop && now_s() > stop) break;
            g_slot->group = (int)gi; g_slot->case_id = id; g_slot->next_case = id + o.jobs; g_slot->active = 1;
            uint64_t cs = mixseed(o.seed, hash_bytes(g.name, strlen(g.name)), id);
            Ctx c; c.thorough = o.thorough; c.sanitized = san;
            arm(o.case_cpu);
            volatile bool skipped = false;
            size_t before = allocated(); int fd0 = lowest_fd();
            g_count_ev = true;
            if (setjmp(g_skip) == 0) one_case(c, g, cs, id); else skipped = true;
            size_t after = allocated();
            if (!skipped && o.leak && san && !c.noleak && after > before) {
                // re-run: a real leak grows every time, lazily created statics only once
                g_count_ev = false;
                int grew = 0; uint64_t s0 = c.sig; bool nt0 = c.nontrivial;
                for (int k = 0; k < 3; ++k) {
                    size_t b = allocated();
                    if (setjmp(g_skip) == 0) one_case(c, g, cs, id); else break;
                    if (allocated() > b && !c.noleak) ++grew; else break;
                }
                c.sig = s0; c.nontrivial = nt0; g_count_ev = true;
                if (grew == 3) c.fail("leak", 0, "heap grows on every repetition of this case (memory leak, %zu bytes at first)", after - before);
            }
            if (!skipped && o.leak && !c.noleak && fd0 >= 0 && lowest_fd() > fd0) {
                g_count_ev = false; int grew = 0; uint64_t s0 = c.sig; bool nt0 = c.nontrivial;
                for (int k = 0; k < 3; ++k) { int b = lowest_fd(); if (setjmp(g_skip) == 0) one_case(c, g, cs, id); else break; if (lowest_fd() > b && !c.noleak) ++grew; else break; }
                c.sig = s0; c.nontrivial = nt0; g_count_ev = true;
                if (grew == 3) c.fail("descriptor", 0, "every repetition of this case leaves a file open");
            }
            arm(0);
            if (!skipped) {
                g_slot->done = g_slot->done + 1;
                if (c.nontrivial) { g_slot->nontrivial = g_slot->nontrivial + 1; if (seen.insert(c.sig).second) fwrite(&c.sig, 8, 1, sf); }
                if (c.nontrivial && samples < 1 && w < 2 && id >= 16) { ++samples; fprintf(tf, "%s#%llu:%.*s\n", g.name, (unsigned long long)id, 400, escape(std::string(c.text, std::min(c.text_len, (size_t)300)), 400).c_str()); }
            }
            g_slot->active = 0;
            // a case ended by a fatal error abandons what it had open and allocated: continue in a fresh process before that adds up
            if (id / o.jobs % 32 == 31 && id + o.jobs < n) {
                int fd = dup(2); if (fd >= 0) close(fd); long pages = 0, rss = 0; FILE *sm = fopen("/proc/self/statm", "r"); if (sm) { if (fscanf(sm, "%ld %ld", &pages, &rss) != 2) rss = 0; fclose(sm); }
                if (fd < 0 || fd > 200 || rss > (1500l << 20) / 4096) { recycle = true; break; }
            }
        }
        if (recycle) break;
    }
    fclose(sf); fclose(tf);
    ef = fopen((outp + ".ev").c_str(), "ab");
    for (auto &p : g_ev) fprintf(ef, "%s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    fclose(ef);
    _exit(recycle ? 77 : 0);
}

int run_main(int argc, char **argv, const std::vector<Group> &groups) {
    Opts o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") o.thorough = val() == "thorough";
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--budget") o.budget = atof(val().c_str());
        else if (a == "--jobs") o.jobs = atoi(val().c_str());
        else if (a == "--out") o.out = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--only") o.only = "," + val() + ",";
        else if (a == "--case-cpu") o.case_cpu = atof(val().c_str());
        else if (a == "--no-leak") o.leak = false;
        else if (a == "--keep-going") o.keep_going = true;
        else if (a == "--list") { for (auto &g : groups) printf("%s %d %d\n", g.name, g.quick, g.thorough); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char tmpl[] = "/tmp/vh.XXXXXX"; std::string base = mkdtemp(tmpl);
    if (!o.replay.empty()) {
        size_t p = o.replay.find(':'); std::string gn = o.replay.substr(0, p); uint64_t id = strtoull(o.replay.c_str() + p + 1, 0, 10);
        g_slot = (Slot *)calloc(1, sizeof(Slot)); g_scratch = base; g_verbose = true;
        nx_log_fatal_func((NXLogFatalFuncP)fatal_hook);
        signal(SIGPROF, on_prof);
        for (auto &g : groups) if (gn == g.name) {
            Ctx c; c.thorough = o.thorough; c.sanitized = __sanitizer_get_current_allocated_bytes != nullptr;
            size_t b = allocated(); int fd0 = lowest_fd();
            if (setjmp(g_skip) == 0) one_case(c, g, mixseed(o.seed, hash_bytes(g.name, strlen(g.name)), id), id);
            else printf("case skipped\n");
            size_t a = allocated();
            if (setjmp(g_skip) == 0) one_case(c, g, mixseed(o.seed, hash_bytes(g.name, strlen(g.name)), id), id);
            size_t a2 = allocated();
            printf("case ok: %s\nheap growth: first %zd second %zd; descriptors left open %d\n", c.text, (ssize_t)(a - b), (ssize_t)(a2 - a), lowest_fd() - fd0);
            return 0;
        }
        fprintf(stderr, "no group %s\n", gn.c_str()); return 2;
    }
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct W { pid_t pid; int restarts; time_t last_change; uint64_t last_case; int last_group; };
    std::vector<W> ws(o.jobs);
    auto spawn = [&](int w, int g, uint64_t cs) {
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_slot = &slots[w]; g_slot->failed = 0; g_slot->active = 0;
            g_scratch = base + fmt("/w%d", w); mkdir(g_scratch.c_str(), 0700);
            int fd = open((base + fmt("/w%d.err", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
            worker(o, groups, w, g, cs, base + fmt("/w%d", w));
        }
        ws[w].pid = pid; ws[w].last_change = time(nullptr); ws[w].last_case = ~0ull; ws[w].last_group = -1;
    };
    o.began = now_s();
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int w = 0; w < o.jobs; ++w) { ws[w].restarts = 0; spawn(w, 0, w); }
    struct Fail { std::string group; uint64_t id; std::string msg, text, err; };
    std::vector<Fail> fails; int alive = o.jobs; time_t first_fail = 0;
    while (alive > 0) {
        // the verdict is settled: gather further failures for a few seconds only
        if (first_fail && !o.keep_going && time(nullptr) - first_fail > 5) { for (auto &w : ws) if (w.pid > 0) { kill(w.pid, SIGKILL); int q; waitpid(w.pid, &q, 0); w.pid = 0; } break; }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            // wall-clock stall monitor (blocked, not burning CPU): generous
            time_t now = time(nullptr);
            for (auto &w : ws) if (w.pid > 0) {
                Slot &s = slots[&w - &ws[0]];
                if (s.case_id != w.last_case || s.group != w.last_group) { w.last_case = s.case_id; w.last_group = s.group; w.last_change = now; }
                else if (now - w.last_change > 300) kill(w.pid, SIGKILL);
            }
            usleep(20000); continue;
        }
        for (int w = 0; w < o.jobs; ++w) if (ws[w].pid == p) {
            ws[w].pid = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slots[w].active) { --alive; break; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && !slots[w].active) { spawn(w, slots[w].group, slots[w].next_case); break; }
            Slot &s = slots[w]; Fail f; f.group = groups[s.group].name; f.id = s.case_id; f.text = std::string(s.text, strnlen(s.text, TEXT_CAP));
            read_file(base + fmt("/w%d.err", w), f.err);
            if (s.failed) f.msg = std::string(s.msg, strnlen(s.msg, sizeof s.msg));
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 86) f.msg = "sanitizer report";
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 87) f.msg = fmt("hang: case used more than %.0f s of CPU", o.case_cpu);
            else if (WIFEXITED(st)) f.msg = fmt("process exited with status %d inside a library call", WEXITSTATUS(st));
            else f.msg = fmt("process killed by signal %d", WTERMSIG(st));
            if (f.msg == "sanitizer report") {
                size_t a = f.err.find("ERROR: AddressSanitizer"); size_t b = f.err.find("runtime error:");
                if (a != std::string::npos) f.msg += ": " + f.err.substr(a + 7, f.err.find('\n', a) - a - 7);
                else if (b != std::string::npos) f.msg += ": " + f.err.substr(b, f.err.find('\n', b) - b);
                if (f.err.size() > 12000) { size_t s0 = a != std::string::npos ? a : b != std::string::npos ? b : 0; if (s0 > 200) s0 -= 200; else s0 = 0; f.err = f.err.substr(s0, 12000); }
            }
            fails.push_back(f); if (!first_fail) first_fail = time(nullptr);
            if (++ws[w].restarts > 6) { --alive; break; }
            spawn(w, s.group, s.next_case);
            break;
        }
    }
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    std::unordered_set<uint64_t> sigs; std::map<std::string, uint64_t> ev; std::vector<std::string> samples; uint64_t done = 0;
    for (int w = 0; w < o.jobs; ++w) {
        done += slots[w].done;
        std::string b; if (read_file(base + fmt("/w%d.sig", w), b)) for (size_t k = 0; k + 8 <= b.size(); k += 8) { uint64_t x; memcpy(&x, &b[k], 8); sigs.insert(x); }
        if (read_file(base + fmt("/w%d.ev", w), b)) { size_t q = 0; while (q < b.size()) { size_t e = b.find('\n', q); std::string l = b.substr(q, e - q); size_t sp = l.rfind(' '); ev[l.substr(0, sp)] += strtoull(l.c_str() + sp + 1, 0, 10); q = e + 1; } }
        if (read_file(base + fmt("/w%d.samples", w), b)) { size_t q = 0; while (q < b.size()) { size_t e = b.find('\n', q); samples.push_back(b.substr(q, e - q)); q = e + 1; } }
    }
    FILE *f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    fprintf(f, "{\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"wall_s\": %.2f,\n \"events\": {", (unsigned long long)done, sigs.size(), (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
    bool first = true; for (auto &p : ev) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n \"samples\": ["); first = true; for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ",\n  ", jstr(s).c_str()); first = false; }
    fprintf(f, "],\n \"failures\": ["); first = true;
    for (auto &x : fails) { fprintf(f, "%s{\"group\": %s, \"case\": %llu, \"msg\": %s, \"text\": %s, \"err\": %s}", first ? "" : ",\n  ", jstr(x.group).c_str(), (unsigned long long)x.id, jstr(x.msg).c_str(), jstr(x.text).c_str(), jstr(x.err.substr(0, 12000)).c_str()); first = false; }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    // remove scratch
    pid_t rp = fork(); if (rp == 0) { execl("/bin/rm", "rm", "-rf", base.c_str(), (char *)nullptr); _exit(1); } int st; waitpid(rp, &st, 0);
    return fails.empty() ? 0 : 1;
}
} // namespace vh
