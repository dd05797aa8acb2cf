// Summary statistics, comparison and numeric helpers against exact computations.
#include "vh.hpp"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_math.h"
#include "virg/nexus/nx_timing.h"
using namespace vh;
template <class T> static std::vector<T> data(Rng &r, int n) { std::vector<T> v(n); int st = r.i(0, 7); for (auto &x : v) { if constexpr (std::is_same<T, int>::value) switch (st) { case 0: x = r.i(-3, 3); break; case 1: x = (int)r.next(); break; case 2: x = r.coin() ? INT_MAX - r.i(0, 3) : INT_MIN + r.i(0, 3); break; case 3: x = 7; break; case 4: x = INT_MAX - r.i(0, 5); break; case 5: x = INT_MIN + r.i(0, 5); break; default: x = r.i(-1000, 1000); } else switch (st) { case 0: x = r.i(-3, 3); break; case 1: x = r.gauss() * 1e150; break; case 2: x = r.gauss() * 1e-140; break; case 3: x = -4.25; break; case 4: x = 1e9 + r.u(); break; case 5: x = std::ldexp(r.uni(-1, 1), r.i(-60, 60)); break; default: x = r.uni(-100, 100); } } switch (r.i(0, 3)) { case 0: std::sort(v.begin(), v.end()); break; case 1: std::sort(v.rbegin(), v.rend()); break; default: break; } return v; }
static void run(NXStatistics1D *s, int n, int *x) { nx_istatistics_1d(s, n, x); }
static void run(NXStatistics1D *s, int n, double *x) { nx_dstatistics_1d(s, n, x); }
static long double med(const std::vector<long double> &v, size_t a, size_t b) { size_t n = b - a; return n % 2 ? v[a + n / 2] : (v[a + n / 2 - 1] + v[a + n / 2]) / 2; }
template <class T> static void stats(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 8) ? r.i(0, 1) : r.coin(1, 100) ? r.logsize(1500, 60000) : r.coin() ? r.i(0, 24) : r.i(0, 1500); auto v = data<T>(r, n); c.desc("%d values", n); c.mixb(v.data(), n * sizeof(T)); if (n > 2) c.nt(); auto w = v; w.resize(n); std::vector<T> heap(w); NXStatistics1D s; memset(&s, r.i(0, 255), sizeof s); run(&s, n, heap.data()); auto so = v; std::sort(so.begin(), so.end()); auto hs = heap; std::sort(hs.begin(), hs.end()); REQ(c, hs == so, "the values themselves changed"); REQ(c, s.n == n, "count %d of %d", s.n, n); if (n == 0) { REQ(c, s.mean == 0 && s.median == 0 && s.stdev == 0 && s.min == 0 && s.max == 0 && s.lower_quartile == 0 && s.upper_quartile == 0 && s.interquartile_range == 0, "statistics of no values"); return; }
    std::vector<long double> L(so.begin(), so.end()); long double sum = 0, mag = 0, big = 0; for (auto x : L) { sum += x; mag += fabsl(x); big = std::max(big, fabsl(x)); } long double mean = sum / n, var = 0; for (auto x : L) var += (x - mean) * (x - mean); var = n > 1 ? var / (n - 1) : 0; long double h = n / 2, lq = n == 1 ? L[0] : med(L, 0, n / 2), uq = n == 1 ? L[0] : med(L, (n + 1) / 2, n), md = med(L, 0, n); (void)h; double e = 4e-16 * n * (double)(mag / n) + 1e-320;
    REQ(c, s.min == (double)L.front() && s.max == (double)L.back(), "extremes [%.17g,%.17g], data [%.17Lg,%.17Lg]", s.min, s.max, L.front(), L.back()); REQ(c, near(s.median, (double)md, 0, 4e-16) , "median %.17g expected %.17Lg of %d", s.median, md, n); REQ(c, near(s.lower_quartile, (double)lq, 0, 4e-16) && near(s.upper_quartile, (double)uq, 0, 4e-16), "quartiles %.17g %.17g expected %.17Lg %.17Lg of %d", s.lower_quartile, s.upper_quartile, lq, uq, n); REQ(c, near(s.interquartile_range, (double)(uq - lq), 1e-15 * (double)big), "interquartile range %.17g expected %.17Lg", s.interquartile_range, uq - lq); REQ(c, near(s.mean, (double)mean, e), "mean %.17g expected %.17Lg of %d", s.mean, mean, n); double sd = (double)sqrtl(var); REQ(c, near(s.stdev, sd, 2 * e + 1e-320, 1e-12 * n), "standard deviation %.17g expected %.17g of %d", s.stdev, sd, n); c.ev("summaries"); c.ev("values", n);
}
static double dval(Rng &r) { switch (r.i(0, 9)) { case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return DBL_MAX; case 5: return -DBL_MIN; case 6: return 4.9e-324; case 7: return r.i(-3, 3); default: return std::ldexp(r.uni(-1, 1), r.i(-1000, 1000)); } }
static int ival(Rng &r) { switch (r.i(0, 5)) { case 0: return INT_MAX - r.i(0, 2); case 1: return INT_MIN + r.i(0, 2); case 2: return r.i(-2, 2); default: return (int)r.next(); } }
static void helpers(Ctx &c) {
    auto &r = c.rng; c.nt(); for (int t = 0; t < 40; ++t) { int a = ival(r), b = ival(r); double x = dval(r), y = dval(r); float f = (float)r.uni(-9, 9), g = r.coin(1, 4) ? f : r.coin(1, 6) ? INFINITY : (float)r.uni(-9, 9); c.mix(a); c.mixb(&x, 8);
        REQ(c, nx_min_i(a, b) == std::min(a, b) && nx_max_i(a, b) == std::max(a, b), "int min/max of %d %d", a, b); REQ(c, nx_min_d(x, y) == std::min(x, y) && nx_max_d(x, y) == std::max(x, y), "min/max of %g %g", x, y); REQ(c, nx_min_s(f, g) == std::min(f, g) && nx_max_s(f, g) == std::max(f, g), "float min/max of %g %g", f, g); REQ(c, nx_signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign of %g is %d", x, nx_signum(x)); auto sg = [](int q) { return (q > 0) - (q < 0); }; REQ(c, sg(nx_compare_int_incr(&a, &b)) == (a > b) - (a < b), "comparison of %d and %d is %d", a, b, nx_compare_int_incr(&a, &b)); REQ(c, sg(nx_compare_double_incr(&x, &y)) == (x > y) - (x < y), "comparison of %g and %g", x, y);
        double z = r.coin() ? r.uni(-6, 6) : x; double e = nx_erf(z); REQ(c, near(e, std::erf(z), 2e-7), "erf(%.17g) is %.9g expected %.9g", z, e, std::erf(z)); c.ev("helper_calls", 9); c.desc("%d %d %.17g %.17g;", a, b, x, y); }
    int n = 1 + r.size(300); std::vector<int> v(n); for (auto &q : v) q = ival(r); auto w = v; qsort(v.data(), n, sizeof(int), nx_compare_int_incr); std::sort(w.begin(), w.end()); REQ(c, v == w, "sorting %d ints with the comparison helper", n); std::vector<double> d(n); for (auto &q : d) { q = dval(r); if (q == 0) q = 0.0; } auto e = d; qsort(d.data(), n, sizeof(double), nx_compare_double_incr); std::sort(e.begin(), e.end()); REQ(c, d == e, "sorting %d reals with the comparison helper", n); c.ev("sorted", n);
}
static void timing(Ctx &c) {
    auto &r = c.rng; c.nt(); for (int t = 0; t < 30; ++t) { NXTimer q; long ds = r.coin() ? r.i(0, 3) : r.i(0, 100000); q.start.tv_sec = r.i(0, 1000000); q.start.tv_nsec = r.coin(1, 4) ? 999999999 - r.i(0, 3) : r.i(0, 999999999); q.stop.tv_sec = q.start.tv_sec + ds; q.stop.tv_nsec = r.coin(1, 4) ? r.i(0, 3) : r.i(0, 999999999); long double e = (long double)ds * 1000 + ((long double)q.stop.tv_nsec - q.start.tv_nsec) / 1000000; double g = nx_timer_measure_in_msec(&q); c.mix(q.start.tv_nsec * 31 + q.stop.tv_nsec); REQ(c, near(g, (double)e, 1e-6, 1e-12), "elapsed %.12g ms expected %.12Lg", g, e); c.ev("timer_formulas"); }
    NXTimer a, b; nx_timer_start(&a); nx_timer_start(&b); volatile double z = 0; int k = r.i(0, 20000); for (int i = 0; i < k; ++i) z += i; nx_timer_stop(&b); nx_timer_stop(&a); double ea = nx_timer_measure_in_msec(&a), eb = nx_timer_measure_in_msec(&b); REQ(c, eb >= 0 && ea >= eb && ea < 60000, "nested timers measured %g inside %g ms", eb, ea);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"ints", stats<int>, 15000, 300000}, {"reals", stats<double>, 15000, 300000}, {"helpers", helpers, 5000, 100000}, {"timing", timing, 500, 5000}}); }
