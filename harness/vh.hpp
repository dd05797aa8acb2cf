// Shared monitor runtime: seeded case generation, forked workers, crash/hang/leak
// observation, event accounting.  Every harness is one translation unit with a
// table of groups; a group is a function that runs ONE case and checks it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csetjmp>
#include <unistd.h>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    // inclusive range
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
    int i(int lo, int hi) { return (int)range(lo, hi); }
    bool coin(int num = 1, int den = 2) { return (int)(next() % (uint64_t)den) < num; }
    double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    int logsize(int lo, int hi) { double a = std::log(lo > 0 ? lo : 1.0), b = std::log((double)hi); int v = (int)std::exp(a + (b - a) * u()); return v > hi ? hi : v; }   // log-uniform
    // sizes biased to small values and boundaries
    int size(int max, int big = 0, int huge = 0) { if (huge > big && next() % 700 == 0) return logsize(big, huge); if (big > max && next() % 80 == 0) return logsize(max, big); switch (next() % 8) { case 0: return 0; case 1: return i(0, std::min(max, 2)); case 2: return i(0, std::min(max, 8)); case 3: return max; case 4: case 5: return i(0, std::min(max, 40)); default: return i(0, max); } }
};

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

struct Ctx {
    Rng rng;
    const char *group = "";
    uint64_t case_id = 0;
    bool thorough = false;
    bool sanitized = false;
    bool noleak = false;        // case legitimately retains memory (e.g. abandoned by a caught fatal)
    bool nontrivial = false;
    uint64_t sig = 0;           // signature of the observed behaviour
    char *text;                 // description of the case (shared memory)
    size_t text_len = 0;
    void desc(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void descbytes(const void *p, size_t n, const char *label = "data"); // escaped into the text
    void ev(const char *name, uint64_t n = 1);   // monitor observation counter
    void mix(uint64_t x) { sig = (sig ^ x) * 1099511628211ull; sig ^= sig >> 29; }
    void mixb(const void *p, size_t n) { mix(hash_bytes(p, n)); }
    void nt() { nontrivial = true; }
    [[noreturn]] void fail(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
    [[noreturn]] void skip();    // abandon the case (not counted)
};

#define REQ(c, cond, ...) do { if (!(cond)) (c).fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)

struct Group { const char *name; void (*fn)(Ctx &); int quick; int thorough; };

// ---- outcomes of possibly fatal calls
enum Kind { RETURNED, FATAL, EXITED, SANITIZER, SIGNALED, HUNG };
struct Outcome { Kind kind; int code; std::string err; std::string out; };
// Runs fn in a forked child, captures stderr/stdout (first 64 KiB).
Outcome fork_run(const std::function<void()> &fn, double cpu_limit_s = 20);
const char *kind_name(Kind k);

// Runs fn with the library's fatal handler replaced by one that unwinds to here.
// Returns true when fn returned, false when it hit a fatal error (message in msg).
bool returns(Ctx &c, const std::function<void()> &fn, std::string *msg = nullptr);

void reinstall_handler();   // after a case replaced the fatal handler
// scratch directory of this worker (removed at exit by the parent)
const std::string &scratch();

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string escape(const std::string &s, size_t max = 400);
bool write_file(const std::string &path, const void *p, size_t n);
bool read_file(const std::string &path, std::string &out);
size_t allocated();   // live heap bytes (0 when not sanitized)

int run_main(int argc, char **argv, const std::vector<Group> &groups);

inline bool near(double a, double b, double tol_abs, double tol_rel = 0) {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= tol_abs + tol_rel * std::max(std::fabs(a), std::fabs(b));
}
} // namespace vh
