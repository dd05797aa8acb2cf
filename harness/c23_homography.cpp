// Homography estimation: definitions, exact recovery, consistency of robust estimates.
#include "vh.hpp"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
using namespace vh; using namespace virg::nexus;
typedef long double L;
typedef std::vector<NXPointMatch2D> Matches;
struct Seeded { Seeded(uint32_t s) { nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), s); } ~Seeded() { nx_uniform_sampler_instance_free(); } };
static void apply(const double *h, L x, L y, L *o) { L w = h[2] * x + h[5] * y + h[8]; o[0] = (h[0] * x + h[3] * y + h[6]) / w; o[1] = (h[1] * x + h[4] * y + h[7]) / w; }
// A plausible homography on [-e,e]^2: similarity with mild shear and perspective, w stays positive.
static void model(Rng &r, double *h, double e) { double s = std::exp(r.uni(-1.2, 1.2)), t = r.uni(-M_PI, M_PI), k = r.uni(-0.3, 0.3), a = r.uni(0.75, 1.3), p = r.coin(1, 3) ? 0 : r.uni(-0.25, 0.25) / e, q = r.coin(1, 3) ? 0 : r.uni(-0.25, 0.25) / e; h[0] = s * cos(t); h[3] = s * (k * cos(t) - a * sin(t)); h[1] = s * sin(t); h[4] = s * (k * sin(t) + a * cos(t)); h[6] = r.uni(-e, e); h[7] = r.uni(-e, e); h[2] = p; h[5] = q; h[8] = 1; }
static NXPointMatch2D match(Rng &r, const double *h, double x, double y, int id) { NXPointMatch2D m; memset(&m, 0, sizeof m); m.x[0] = (float)x; m.x[1] = (float)y; L o[2]; apply(h, m.x[0], m.x[1], o); m.xp[0] = (float)o[0]; m.xp[1] = (float)o[1]; m.sigma_x = (float)r.uni(0.5, 3); m.sigma_xp = (float)r.uni(0.5, 3); m.id = id; m.idp = 1000 + id; m.match_cost = (float)r.uni(0, 20); return m; }
static double extent(const Matches &v) { double e = 0; for (auto &m : v) e = std::max({e, fabs((double)m.xp[0]), fabs((double)m.xp[1])}); return e; }
static double worst(const double *h, const Matches &v) { double w = 0; for (auto &m : v) { L o[2]; apply(h, m.x[0], m.x[1], o); double d = (double)hypotl(o[0] - m.xp[0], o[1] - m.xp[1]); if (!(d <= w)) w = d; } return w; }
static bool sameh(const double *a, const double *b) { return !memcmp(a, b, 72); }
static void descm(Ctx &c, const Matches &v) { for (auto &m : v) c.desc(" (%.9g,%.9g>%.9g,%.9g c%.4g i%d)", m.x[0], m.x[1], m.xp[0], m.xp[1], m.match_cost, (int)m.is_inlier); }
// How close four points come to being degenerate: extent^2 over the smallest triangle they span.
static double flatness(const Matches &v, bool tgt) { double lim = 1e-30, a = 1e300; auto P = [&](int i, int k) { return (double)(tgt ? v[i].xp[k] : v[i].x[k]); }; for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) lim = std::max(lim, fabs(P(i, k))); for (int s = 0; s < 4; ++s) { int t[3], n = 0; for (int i = 0; i < 4; ++i) if (i != s) t[n++] = i; a = std::min(a, fabs((P(t[1], 0) - P(t[0], 0)) * (P(t[2], 1) - P(t[0], 1)) - (P(t[2], 0) - P(t[0], 0)) * (P(t[1], 1) - P(t[0], 1)))); } return lim * lim / std::max(a, 1e-300); }
static void exact(Ctx &c) {
    auto &r = c.rng; c.nt(); double e = r.coin() ? 1 : r.uni(2, 800); double h[9]; model(r, h, e); Matches v; const double qx[4] = {-1, 1, 1, -1}, qy[4] = {-1, -1, 1, 1}; bool mir = r.coin(); for (int i = 0; i < 4; ++i) { int k = mir ? 3 - i : i; v.push_back(match(r, h, e * (qx[k] * 0.65 + r.uni(-0.3, 0.3)), e * (qy[k] * 0.65 + r.uni(-0.3, 0.3)), i)); } int n = r.coin(1, 4) ? 0 : r.coin(1, 60) ? r.logsize(40, 900) : r.i(1, 40); for (int i = 0; i < n; ++i) v.push_back(match(r, h, e * r.uni(-1, 1), e * r.uni(-1, 1), 4 + i)); c.mixb(v.data(), v.size() * sizeof v[0]); c.desc("extent %g, %zu matches:", e, v.size()); descm(c, v); double lim = extent(v);
    { int ids[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(ids[i], ids[r.i(0, i)]); double o[10]; for (auto &q : o) q = 42; Matches four(v.begin(), v.begin() + 4), v0 = v; double det = nx_homography_estimate_4pt(o, ids, v.data()); REQ(c, !memcmp(v.data(), v0.data(), v.size() * sizeof v[0]) && o[9] == 42, "four point estimate changed its input or wrote behind"); L scale = 0; for (int i = 0; i < 9; ++i) scale = std::max(scale, fabsl((L)o[i])); REQ(c, det != 0, "four point estimate failed for points in general position"); double w = worst(o, four); double fl = std::max(flatness(four, false), flatness(four, true)); if (getenv("C23D")) fprintf(stderr, "w/lim %g fl %g\n", w / lim, fl); if (fl < 1000) { REQ(c, w <= (1e-6 + 1e-9 * fl * fl) * lim, "four point estimate misses its own points by %g (extent %g)", w, lim); c.ev("four_point"); } }
    { double o[10]; for (auto &q : o) q = 42; double res = nx_homography_estimate_dlt(o, (int)v.size(), v.data()); REQ(c, o[9] == 42, "wrote behind"); double w = worst(o, v); REQ(c, w <= 1e-4 * lim, "least squares estimate misses exact matches by %g (extent %g)", w, lim); REQ(c, res >= 0 && res <= 1e-2 * (e + 1) * (lim + 1), "residual %g of exact matches", res); L nn = 0; for (int i = 0; i < 9; ++i) nn += (L)o[i] * o[i]; REQ(c, fabsl(nn - 1) < 1e-9, "estimate is not of unit norm"); if (v.size() == 4) REQ(c, res == 0 || res < 1e-9, "residual %g of a minimal set", res); c.ev("least_squares"); }
    { Matches w; for (auto &m : v) { m.is_inlier = NX_TRUE; w.push_back(m); while (r.coin(1, 3)) { auto b = m; b.is_inlier = NX_FALSE; b.xp[0] += 55; b.xp[1] -= 80; w.push_back(b); } } double a[9], b[9]; double ra = nx_homography_estimate_dlt(a, (int)v.size(), v.data()), rb = nx_homography_estimate_dlt_inliers(b, (int)w.size(), w.data()); REQ(c, sameh(a, b) && ra == rb, "estimate from flagged matches differs from the estimate of those matches"); }
    for (int k = 0; k < 4; ++k) { double o[9]; for (auto &q : o) q = 42; REQ(c, nx_homography_estimate_dlt(o, k, v.data()) == DBL_MAX && o[0] == 42 && o[8] == 42, "least squares from %d matches", k); auto w = v; for (size_t i = 0; i < w.size(); ++i) w[i].is_inlier = (int)i < k; REQ(c, nx_homography_estimate_dlt_inliers(o, (int)w.size(), w.data()) == DBL_MAX && o[0] == 42, "least squares from %d flagged matches", k); }
    { double q[8], o[9]; for (int i = 0; i < 4; ++i) { q[2 * i] = v[i].x[0]; q[2 * i + 1] = v[i].x[1]; } double det = nx_homography_estimate_unit(o, q); REQ(c, det != 0, "unit square estimate failed"); const double tx[4] = {0, 1, 1, 0}, ty[4] = {0, 0, 1, 1}; for (int i = 0; i < 4; ++i) { L p[2]; apply(o, q[2 * i], q[2 * i + 1], p); REQ(c, hypotl(p[0] - tx[i], p[1] - ty[i]) < 1e-8, "unit square estimate sends corner %d to (%Lg,%Lg)", i, p[0], p[1]); } c.ev("unit_square"); }
    { // degenerate samples: three collinear points or repeated points, on an integer grid so that the determinant is exact
        Matches d(4); int ids[4] = {0, 1, 2, 3}; for (int i = 0; i < 4; ++i) { memset(&d[i], 0, sizeof d[i]); d[i].xp[0] = (float)(4 * qx[i]); d[i].xp[1] = (float)(4 * qy[i]); } int ax = r.i(-5, 5), ay = r.i(-5, 5), bx = r.i(1, 4), by = r.i(-4, 4); int p[4][2] = {{ax, ay}, {ax + bx, ay + by}, {ax + 2 * bx, ay + 2 * by}, {r.i(-9, 9), r.i(-9, 9)}}; if (r.coin(1, 3)) { p[1][0] = p[0][0]; p[1][1] = p[0][1]; } for (int i = 0; i < 4; ++i) { d[i].x[0] = (float)p[i][0]; d[i].x[1] = (float)p[i][1]; } bool sw = r.coin(); if (sw) for (auto &m : d) { std::swap(m.x[0], m.xp[0]); std::swap(m.x[1], m.xp[1]); } double o[9]; double dd = nx_homography_estimate_4pt(o, ids, d.data()); REQ(c, dd == 0, "degenerate %s points accepted: (%d,%d) (%d,%d) (%d,%d) (%d,%d)", sw ? "target" : "source", p[0][0], p[0][1], p[1][0], p[1][1], p[2][0], p[2][1], p[3][0], p[3][1]); c.ev("degenerate_rejected"); }
}
static void measures(Ctx &c) {
    auto &r = c.rng; c.nt(); double e = r.uni(1, 400), h[9], hi[9]; model(r, h, e); int n = r.size(60, 1500); Matches v; for (int i = 0; i < n; ++i) { auto m = match(r, h, e * r.uni(-1, 1), e * r.uni(-1, 1), i); double d = r.coin(1, 4) ? 0 : r.uni(0, 8), a = r.uni(0, 7); m.xp[0] += (float)(d * cos(a)); m.xp[1] += (float)(d * sin(a)); m.is_inlier = r.coin(); v.push_back(m); } double tol = r.uni(0.5, 6); c.desc("tol %g:", tol); descm(c, v); if (n) c.mixb(v.data(), n * sizeof v[0]);
    { L d = (L)h[0] * ((L)h[4] * h[8] - (L)h[5] * h[7]) - (L)h[3] * ((L)h[1] * h[8] - (L)h[2] * h[7]) + (L)h[6] * ((L)h[1] * h[5] - (L)h[2] * h[4]); auto C = [&](int a, int b, int p, int q) { return (double)(((L)h[a] * h[b] - (L)h[p] * h[q]) / d); }; hi[0] = C(4, 8, 7, 5); hi[1] = C(7, 2, 1, 8); hi[2] = C(1, 5, 4, 2); hi[3] = C(6, 5, 3, 8); hi[4] = C(0, 8, 6, 2); hi[5] = C(3, 2, 0, 5); hi[6] = C(3, 7, 6, 4); hi[7] = C(6, 1, 0, 7); hi[8] = C(0, 4, 3, 1); }
    double slack = 1e-6 * (extent(v) + e) + 1e-9; auto before = v; L sf = 0, sb = 0; int k = 0; for (auto &m : v) if (m.is_inlier) { L o[2]; apply(h, m.x[0], m.x[1], o); sf += hypotl(o[0] - m.xp[0], o[1] - m.xp[1]); apply(hi, m.xp[0], m.xp[1], o); sb += hypotl(o[0] - m.x[0], o[1] - m.x[1]); ++k; } REQ(c, nx_point_match_2d_count_inliers(n, v.data()) == k, "flagged match count");
    if (k) { double f = nx_homography_transfer_error_fwd(h, n, v.data()), b = nx_homography_transfer_error_bwd(h, n, v.data()), s = nx_homography_transfer_error_sym(h, n, v.data()); REQ(c, near(f, (double)(sf / k), slack * 4, 1e-6), "forward error %.9g expected %.9Lg", f, sf / k); REQ(c, near(b, (double)(sb / k), slack * 20, 1e-6), "backward error %.9g expected %.9Lg", b, sb / k); REQ(c, near(s, (f + b) / 2, 1e-12, 1e-12), "symmetric error"); VGHomography H; H.set(h); VGPointCorrespondence2D co; for (auto &m : v) co.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); REQ(c, H.transfer_error_fwd(co) == f && H.transfer_error_bwd(co) == b && H.transfer_error_sym(co) == s, "C++ transfer errors differ"); c.ev("transfer_errors", 3); }
    for (int inv = 0; inv < 2; ++inv) { auto w = before; int cnt = inv ? nx_homography_mark_inliers_inv(hi, n, w.data(), tol) : nx_homography_mark_inliers(h, n, w.data(), tol); int fl = 0; for (int i = 0; i < n; ++i) { auto &m = w[i]; L o[2]; inv ? apply(hi, m.xp[0], m.xp[1], o) : apply(h, m.x[0], m.x[1], o); L d = inv ? hypotl(o[0] - m.x[0], o[1] - m.x[1]) : hypotl(o[0] - m.xp[0], o[1] - m.xp[1]); if (fabsl(d - tol) > slack) REQ(c, (bool)m.is_inlier == (d < tol), "match %d at distance %.9Lg is %sflagged with tolerance %.9g", i, d, m.is_inlier ? "" : "not ", tol); fl += m.is_inlier; auto z = m; z.is_inlier = before[i].is_inlier; REQ(c, !memcmp(&z, &before[i], sizeof z), "marking changed match %d", i); } REQ(c, cnt == fl, "count %d, flags %d", cnt, fl); c.ev("marked", n); }
    for (int i = 0; i < 4; ++i) { float x[2] = {(float)(e * r.uni(-1, 1)), (float)(e * r.uni(-1, 1))}, o[2], o2[2]; double xd[2] = {x[0], x[1]}, od[2]; L q[2]; apply(h, x[0], x[1], q); double s = nx_homography_transfer_fwd(h, o, x); REQ(c, near(s, h[2] * x[0] + h[5] * x[1] + h[8], 1e-12), "transfer scale"); VGHomography H; H.set(h); H.transfer_fwd(o2, x); H.transfer_fwd(od, xd); for (int j = 0; j < 2; ++j) { REQ(c, near(o[j], (double)q[j], slack * 4) && near(o2[j], (double)q[j], slack * 4), "transfer of (%g,%g) element %d is %.9g expected %.9Lg", x[0], x[1], j, o[j], q[j]); REQ(c, near(od[j], (double)q[j], 1e-9 * (e + fabs((double)q[j]))), "double transfer element %d", j); } }
    // plausibility: orientation preserving and diagonals not nearly parallel, at every scale
    { double g[9]; model(r, g, r.coin() ? 1.5 : 300); if (r.coin(1, 3)) { for (int i = 0; i < 3; ++i) g[i] = -g[i]; } double sc = std::ldexp(1, r.i(-6, 6)); for (int i : {0, 1, 3, 4, 6, 7}) g[i] *= sc; if (r.coin(1, 4)) { double f = r.uni(0.01, 1); g[3] = g[0] * 0.2 + g[3] * f; g[4] = g[1] * 0.2 + g[4] * f; } L P[4][2]; const double sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1}; for (int i = 0; i < 4; ++i) apply(g, sx[i], sy[i], P[i]); L acx = P[2][0] - P[0][0], acy = P[2][1] - P[0][1], bdx = P[1][0] - P[3][0], bdy = P[1][1] - P[3][1], la = hypotl(acx, acy), lb = hypotl(bdx, bdy), cs = (acx * bdx + acy * bdy) / (la * lb); auto side = [&](int i) { return (acy * (P[i][0] - P[0][0]) - acx * (P[i][1] - P[0][1])) / la; }; L b = side(1), d = side(3); double lim = cos((r.coin() ? 15.0 : r.uni(5, 60)) * M_PI / 180); if (fabsl(fabsl(cs) - lim) > 1e-6 && fabsl(b) > 1e-6 * lb && fabsl(d) > 1e-6 * lb) { bool want = b > 0 && d < 0 && fabsl(cs) < lim; REQ(c, (bool)nx_homography_check(g, lim) == want, "plausibility of a square with diagonal cosine %.6Lg (limit %.6g), sides %.3Lg %.3Lg at scale %g is %s", cs, lim, b, d, sc, want ? "denied" : "granted"); c.ev(want ? "plausible" : "implausible"); } }
}
// +1 clearly plausible (unmirrored, diagonals at more than 20 degrees), -1 clearly not, 0 in between
static int plausible(const double *g) { L P[4][2]; const double sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1}; for (int i = 0; i < 4; ++i) { apply(g, sx[i], sy[i], P[i]); if ((g[2] * sx[i] + g[5] * sy[i]) * (g[8] < 0 ? -1 : 1) + fabs(g[8]) < 0.05 * fabs(g[8])) return 0; } L ax = P[2][0] - P[0][0], ay = P[2][1] - P[0][1], bx = P[1][0] - P[3][0], by = P[1][1] - P[3][1], la = hypotl(ax, ay), lb = hypotl(bx, by), cs = fabsl(ax * bx + ay * by) / (la * lb), b = (ay * (P[1][0] - P[0][0]) - ax * (P[1][1] - P[0][1])) / la, d = (ay * (P[3][0] - P[0][0]) - ax * (P[3][1] - P[0][1])) / la; if (b > 0.02 * lb && d < -0.02 * lb && cs < cosl(20 * M_PI / 180)) return 1; if (b < -0.02 * lb || d > 0.02 * lb || cs > cosl(4 * M_PI / 180)) return -1; return 0; }
static void robust(Ctx &c) {
    auto &r = c.rng; c.nt(); double e = r.coin(1, 3) ? r.uni(1, 2) : r.uni(20, 500), h[9]; model(r, h, e); bool mirror = r.coin(1, 10); if (mirror) { h[0] = -h[0]; h[3] = -h[3]; h[6] = -h[6]; } double ratio = r.uni(0.55, 1); int n = r.coin(1, 5) ? r.i(0, 8) : r.coin(1, 5) ? r.i(200, 420) : r.i(8, 120); double tol = e * r.uni(0.004, 0.02); int it = r.i(600, 1500); bool small = r.coin(1, 8); if (small) it = r.i(0, 4); double sg = r.coin(1, 3) ? tol * r.uni(0.05, 0.6) : 0; bool cheap_bad = ratio > 0.7 && r.coin(1, 4); Matches v; int nin = 0; double span = 0; for (int i = 0; i < n; ++i) { auto m = match(r, h, e * r.uni(-1, 1), e * r.uni(-1, 1), i); span = std::max({span, fabs((double)m.xp[0]), fabs((double)m.xp[1])}); m.is_inlier = r.coin(); if (r.u() > ratio) { double d = tol * r.uni(30, 90), a = r.uni(0, 7); m.xp[0] += (float)(d * cos(a)); m.xp[1] += (float)(d * sin(a)); m.match_cost = cheap_bad ? (float)r.uni(-2, 0) : m.match_cost + (float)r.uni(0, 15); m.idp = 500000 + i; } else { ++nin; m.xp[0] += (float)(sg * r.gauss()); m.xp[1] += (float)(sg * r.gauss()); } if (r.coin(1, 10) && !cheap_bad) m.match_cost = 5; v.push_back(m); }
    uint32_t seed = (uint32_t)r.next(); int which = r.i(0, 3); static const char *nm[] = {"ransac", "norm_ransac", "usac", "C++ ransac"}; c.desc("%s of %d matches (%d exact), extent %g, tol %g, %d iterations, seed %u:", nm[which], n, nin, e, tol, it, seed); descm(c, v); if (n) c.mixb(v.data(), n * sizeof v[0]); c.mix(seed);
    auto run = [&](Matches &w, double *o) -> int { Seeded s(seed); switch (which) { case 0: return nx_homography_estimate_ransac(o, n, w.data(), tol, it); case 1: return nx_homography_estimate_norm_ransac(o, n, w.data(), tol, it); case 2: return nx_usac_estimate_homography(o, n, w.data(), tol, it); default: { VGHomography H; VGPointCorrespondence2D co; co.reserve(n); for (auto &m : w) co.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); int k = H.estimate_ransac(co, tol, it); for (int i = 0; i < n; ++i) w[i] = co[i]; memcpy(o, H.data(), 72); return k; } } };
    Matches w = v, w2 = v; double o[9], o2[9]; memset(o, 0x55, sizeof o); memcpy(o2, o, sizeof o); int k = run(w, o), k2 = run(w2, o2); REQ(c, k == k2 && (n < 4 || sameh(o, o2)), "%s: same seed, different result (%d and %d inliers)", nm[which], k, k2); for (int i = 0; i < n; ++i) REQ(c, w[i].id == w2[i].id && w[i].is_inlier == w2[i].is_inlier, "%s: same seed, different flags", nm[which]);
    std::vector<int> seen(n, 0); for (auto &m : w) { REQ(c, m.id < (uint64_t)n && !seen[m.id]++, "%s: match list is not a permutation of its input", nm[which]); auto &q = v[m.id]; double ee = which == 1 ? 1e-6 * (span + e + 100 * tol) * 2 : 0; REQ(c, m.idp == q.idp && m.match_cost == q.match_cost, "%s: match %d changed", nm[which], (int)m.id); for (int j = 0; j < 2; ++j) REQ(c, fabs(m.x[j] - q.x[j]) <= ee && fabs(m.xp[j] - q.xp[j]) <= ee, "%s: coordinates of match %d changed", nm[which], (int)m.id); REQ(c, near(m.sigma_x, q.sigma_x, 0, which == 1 ? 1e-6 : 0) && near(m.sigma_xp, q.sigma_xp, 0, which == 1 ? 1e-6 : 0), "%s: scale of match %d changed", nm[which], (int)m.id); }
    if (k == 0) for (auto &m : w) REQ(c, !m.is_inlier, "%s: match %d is flagged, no inliers are reported", nm[which], (int)m.id);
    if (n < 4) { REQ(c, k == 0, "%s: %d inliers from %d matches", nm[which], k, n); c.ev("too_few"); return; } REQ(c, k >= 0 && k <= n, "%s: %d inliers of %d", nm[which], k, n);
    double slack = 3e-6 * (span + e + 100 * tol); if (k > 0) { int fl = 0; for (auto &m : w) { fl += m.is_inlier; L p[2]; apply(o, m.x[0], m.x[1], p); L d = hypotl(p[0] - m.xp[0], p[1] - m.xp[1]); if (!(fabsl(d - tol) <= slack)) REQ(c, (bool)m.is_inlier == (d < tol), "%s: match %d at distance %.6Lg from the model is %sflagged (tolerance %.6g)", nm[which], (int)m.id, d, m.is_inlier ? "" : "not ", tol); } REQ(c, fl == k, "%s: count %d, flags %d", nm[which], k, fl); c.ev("models"); c.ev("flags", n); } else c.ev("no_model");
    auto normed = [&](const double *h, double *hp) { memcpy(hp, h, 72); if (which == 1) { L m[4] = {0, 0, 0, 0}, d = 0, dp = 0; for (auto &q : v) { m[0] += q.x[0]; m[1] += q.x[1]; m[2] += q.xp[0]; m[3] += q.xp[1]; } for (auto &q : m) q /= n; for (auto &q : v) { d += hypotl(q.x[0] - m[0], q.x[1] - m[1]); dp += hypotl(q.xp[0] - m[2], q.xp[1] - m[3]); } d /= n; dp /= n; for (int i = 0; i < 3; ++i) hp[6 + i] = (double)(h[6 + i] + h[i] * m[0] + h[3 + i] * m[1]); for (int i = 0; i < 6; ++i) hp[i] *= (double)d; for (int j = 0; j < 9; j += 3) { hp[j] = (double)((hp[j] - m[2] * hp[j + 2]) / dp); hp[j + 1] = (double)((hp[j + 1] - m[3] * hp[j + 2]) / dp); } } }; double hp[9]; normed(h, hp); if (k > 0) { double op[9]; normed(o, op); REQ(c, plausible(op) != -1, "%s: %d inliers reported for a mirrored or folded model", nm[which], k); if (mirror) c.ev("mirrored_scene_model"); } else if (mirror) c.ev("mirrored_scene_refused");
    if (!small && nin >= 12 && plausible(hp) == 1 && sg > 0) { if (sg <= 0.3 * tol) { REQ(c, k >= nin / 2, "%s: %d flagged of %d matches with noise %.3g, tolerance %.3g", nm[which], k, nin, sg, tol); c.ev("noisy_recovered", k); } }
    else if (!small && nin >= 12 && plausible(hp) == 1) { if (cheap_bad) c.ev("cheap_outliers"); REQ(c, k > 0, "%s: no model from %d exact of %d matches", nm[which], nin, n); for (auto &m : w) if (m.idp < 500000) REQ(c, m.is_inlier, "%s: exact match %d not recovered (%d of %d flagged, %d exact)", nm[which], (int)m.id, k, n, nin); c.ev("recovered", nin); }
}
static void normalise(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 400) ? r.logsize(900, 6000) : r.coin(1, 60) ? r.logsize(50, 900) : r.coin(1, 5) ? r.i(0, 3) : r.i(2, 50); double e = r.uni(1, 900); bool coin = r.coin(1, 12); double h[9]; model(r, h, 1000); Matches v; for (int i = 0; i < n; ++i) { auto m = match(r, h, coin ? 7 : e * r.uni(-0.5, 1), coin ? -3 : e * r.uni(-1, 0.5), i); m.is_inlier = r.coin(); v.push_back(m); } c.desc("%d matches:", n); descm(c, v); if (n) c.mixb(v.data(), n * sizeof v[0]); if (n > 1) c.nt();
    VGPointCorrespondence2D co; for (auto &m : v) { int k = co.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); REQ(c, k == co.size(), "size after adding"); } REQ(c, co.size() == n, "size"); for (int i = 0; i < n; ++i) { auto q = co[i]; auto &m = v[i]; REQ(c, q.x[0] == m.x[0] && q.x[1] == m.x[1] && q.xp[0] == m.xp[0] && q.xp[1] == m.xp[1] && q.id == m.id && q.idp == m.idp && q.sigma_x == m.sigma_x && q.sigma_xp == m.sigma_xp && q.match_cost == m.match_cost && co.is_inlier(i) == (bool)m.is_inlier, "added match %d differs", i); }
    auto dup = co.clone(); co.normalize(); for (int i = 0; i < n; ++i) REQ(c, dup[i].x[0] == v[i].x[0] && dup[i].xp[1] == v[i].xp[1], "a copy changed with the original"); REQ(c, dup.stats()->d == 1 && dup.stats()->m[0] == 0, "the statistics of a copy changed with the original");
    { auto d2 = co.clone(); REQ(c, d2.size() == n && d2.stats() != co.stats() && d2.stats()->d == co.stats()->d && d2.stats()->dp == co.stats()->dp && !memcmp(d2.stats()->m, co.stats()->m, sizeof co.stats()->m) && !memcmp(d2.stats()->mp, co.stats()->mp, sizeof co.stats()->mp), "statistics of a copy of normalised matches"); auto d3 = co.clone(); d2.denormalize(); for (int i = 0; i < n; ++i) REQ(c, co[i].x[0] == d3[i].x[0] && co[i].xp[1] == d3[i].xp[1], "restoring a copy changed the original"); }
    if (n > 0) { L mx = 0, my = 0, px = 0, py = 0, d = 0, dp = 0; double big = 1; for (int i = 0; i < n; ++i) { auto &q = co[i]; for (int j = 0; j < 2; ++j) REQ(c, std::isfinite(q.x[j]) && std::isfinite(q.xp[j]), "normalised coordinates of match %d are not finite", i); mx += q.x[0]; my += q.x[1]; px += q.xp[0]; py += q.xp[1]; d += hypotl(q.x[0], q.x[1]); dp += hypotl(q.xp[0], q.xp[1]); } (void)big; REQ(c, fabsl(mx) / n < 1e-4 * (1 + e / co.stats()->d * 1e-2) && fabsl(my) / n < 1e-4 * (1 + e / co.stats()->d * 1e-2), "normalised mean (%Lg,%Lg)", mx / n, my / n); if (n > 1 && !coin && co.stats()->d > 1e-2 * e && co.stats()->dp > 1e-2 * e * 0.1) REQ(c, fabsl(d / n - 1) < 1e-3 && fabsl(dp / n - 1) < 1e-3, "normalised mean distances %Lg %Lg", d / n, dp / n); }
    if (n >= 1) { double g[9], gn[9]; for (auto &q : g) q = r.uni(-1, 1); memcpy(gn, g, 72); co.denormalize_homography(gn); auto *s = co.stats(); for (int t = 0; t < 4; ++t) { L x = r.uni(-50, 50), y = r.uni(-50, 50), nx = (x - s->m[0]) / s->d, ny = (y - s->m[1]) / s->d, q[2], w = g[2] * nx + g[5] * ny + g[8], wm = fabsl(g[2] * nx) + fabsl(g[5] * ny) + fabsl((L)g[8]); if (fabsl(w) < 0.05 * wm) continue; apply(g, nx, ny, q); q[0] = q[0] * s->dp + s->mp[0]; q[1] = q[1] * s->dp + s->mp[1]; L p[2]; apply(gn, x, y, p); L m = fabsl(q[0]) + fabsl(q[1]) + fabsl((L)s->mp[0]) + fabsl((L)s->mp[1]) + s->dp + 1; REQ(c, fabsl(p[0] - q[0]) + fabsl(p[1] - q[1]) < 1e-7 * m * (1 + (fabsl((L)s->m[0]) + fabsl((L)s->m[1])) / s->d), "denormalised homography maps (%Lg,%Lg) to (%Lg,%Lg) instead of (%Lg,%Lg)", x, y, p[0], p[1], q[0], q[1]); c.ev("denormalised_homographies"); } double f[9], fn[9]; for (auto &q : f) q = r.uni(-1, 1); memcpy(fn, f, 72); co.denormalize_fundamental(fn); for (int t = 0; t < 4; ++t) { L x[3] = {(L)r.uni(-50, 50), (L)r.uni(-50, 50), 1}, y[3] = {(L)r.uni(-50, 50), (L)r.uni(-50, 50), 1}, a[3] = {(x[0] - s->m[0]) / s->d, (x[1] - s->m[1]) / s->d, 1}, b[3] = {(y[0] - s->mp[0]) / s->dp, (y[1] - s->mp[1]) / s->dp, 1}, l = 0, q = 0, mg = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { l += b[i] * f[j * 3 + i] * a[j]; q += y[i] * fn[j * 3 + i] * x[j]; mg += (fabsl(b[i]) + fabsl((L)s->mp[0]) / s->dp + fabsl((L)s->mp[1]) / s->dp) * fabsl((L)f[j * 3 + i]) * (fabsl(a[j]) + fabsl((L)s->m[0]) / s->d + fabsl((L)s->m[1]) / s->d); } REQ(c, fabsl(l - q) <= 1e-12 * mg + 1e-12, "denormalised fundamental matrix: %.12Lg expected %.12Lg", q, l); c.ev("denormalised_fundamentals"); } }
    double s0 = n ? co.stats()->d : 1; (void)s0; co.denormalize(); REQ(c, co.stats()->d == 1 && co.stats()->dp == 1 && co.stats()->m[0] == 0 && co.stats()->mp[1] == 0, "statistics after restoring"); double tolr = 1e-6 * (e + extent(v) + 10) * 2; for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) REQ(c, fabs(co[i].x[j] - v[i].x[j]) <= tolr && fabs(co[i].xp[j] - v[i].xp[j]) <= tolr && near(co[i].sigma_x, v[i].sigma_x, 0, 1e-6) && near(co[i].sigma_xp, v[i].sigma_xp, 0, 1e-6) && co.is_inlier(i) == (bool)v[i].is_inlier, "restored match %d: (%.9g,%.9g) was (%.9g,%.9g)", i, co[i].x[0], co[i].x[1], v[i].x[0], v[i].x[1]);
    dup.sort_by_match_cost(); std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { REQ(c, i == 0 || dup[i - 1].match_cost <= dup[i].match_cost, "not sorted by cost"); REQ(c, dup[i].id < (uint64_t)n && !seen[dup[i].id]++ && dup[i].idp == v[dup[i].id].idp && dup[i].x[0] == v[dup[i].id].x[0], "sorting lost a match"); if (i && r.coin()) { int q = r.i(0, n - 1); bool f = r.coin(); dup.set_inlier(q, f); REQ(c, dup.is_inlier(q) == f, "flag"); } } dup.clear(); REQ(c, dup.size() == 0 && co.size() == n, "clearing"); NXKeypoint a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.x = r.i(0, 500); a.y = r.i(0, 500); b.x = r.i(0, 500); b.y = r.i(0, 500); a.level = r.i(0, 4); a.scale = (float)(1 << a.level); b.scale = 1; a.xs = a.x + 0.25f; a.ys = a.y - 0.25f; b.xs = b.x; b.ys = b.y; a.id = r.next(); b.id = r.next(); float cost = (float)r.u(), sg = (float)r.uni(0.1, 2); dup.add_keypoint_match(&a, &b, sg, cost, true); auto &q = dup[0]; REQ(c, q.x[0] == nx_keypoint_xs0(&a) && q.x[1] == nx_keypoint_ys0(&a) && q.xp[0] == nx_keypoint_xs0(&b) && q.xp[1] == nx_keypoint_ys0(&b) && q.id == a.id && q.idp == b.id && q.match_cost == cost && q.is_inlier && q.sigma_x == sg * a.scale && q.sigma_xp == sg * b.scale, "match of keypoints"); c.ev("histories");
}
// The generic robust driver against a toy problem whose optimum is known.
struct Toy { std::vector<double> x; Rng *r; int iters, max; double tol; int samples = 0, checked = 0, fitted = 0; };
static void generic(Ctx &c) {
    auto &r = c.rng; c.nt(); Toy t; t.r = &r; t.iters = 0; t.max = r.i(0, 40); t.tol = 0.5; int n = r.i(1, 30); for (int i = 0; i < n; ++i) t.x.push_back(r.i(0, 6)); for (auto q : t.x) c.desc(" %g", q); c.desc("; %d rounds", t.max); c.mix(n); c.mixb(t.x.data(), n * 8); static thread_local double best; static thread_local bool refine, global; best = -DBL_MAX; refine = r.coin(); global = r.coin();
    NXUSACConfig k; auto score = [](double *m, const int *, void *d) { Toy *t = (Toy *)d; double s = 0; for (double q : t->x) s += fabs(q - m[0]) < t->tol; if (m[1] != 2 * m[0]) s = -5; if (s > best) best = s; return s; };
    k.sampling_fn = [](int *s, void *d) { Toy *t = (Toy *)d; s[0] = t->r->i(0, (int)t->x.size() - 1); s[1] = t->r->i(0, (int)t->x.size() - 1); ++t->samples; }; k.sample_check_fn = [](const int *s, void *d) -> NXBool { ++((Toy *)d)->checked; return s[0] != s[1] || ((Toy *)d)->x.size() == 1; };
    k.model_fit_fn = [](int *mx, double **m, const int *s, void *d) -> int { Toy *t = (Toy *)d; ++t->fitted; if (*mx < 2) { *m = (double *)nx_xrealloc(*m, 4 * sizeof(double)); *mx = 2; } (*m)[0] = t->x[s[0]]; (*m)[1] = 2 * t->x[s[0]]; (*m)[2] = t->x[s[1]]; (*m)[3] = 2 * t->x[s[1]]; return 2; }; k.model_check_fn = [](double *m, const int *, void *) -> NXBool { return m[0] != 6; }; k.model_score_fn = score; k.degeneracy_check_fn = [](double *m, const int *, void *) -> NXBool { return m[0] != 5; }; k.local_refinement_fn = [](double *o, const double *m, const int *, void *) -> NXBool { if (!refine) return NX_FALSE; o[0] = m[0] + 1; o[1] = 2 * o[0]; return NX_TRUE; }; k.global_refinement_fn = [](double *o, const double *m, void *) { o[0] = global ? m[0] + 2 : m[0]; o[1] = 2 * o[0]; }; k.termination_fn = [](const double *, double, void *d) -> NXBool { Toy *t = (Toy *)d; return t->iters++ >= t->max; };
    double m[3] = {9, 9, 77}; double s = nx_usac(2, m, 2, &k, &t); REQ(c, m[2] == 77, "wrote behind the model"); REQ(c, t.samples == t.max && t.checked == t.max, "%d rounds, %d samples", t.max, t.samples); REQ(c, m[1] == 2 * m[0], "the parts of the model do not belong together"); double real = 0; for (double q : t.x) real += fabs(q - m[0]) < t.tol; REQ(c, s == real, "returned score %g, the returned model scores %g", s, real); bool any = false; (void)any; if (t.max == 0) { double a = 0; double z = global ? 2 : 0; for (double q : t.x) a += fabs(q - z) < t.tol; REQ(c, s == a, "no rounds: score %g expected %g", s, a); } c.ev("generic_rounds", t.max); c.ev("generic_fits", t.fitted);
    // re-run with a recorded decision trace: the best admissible candidate must win
    Toy u; u.x = t.x; Rng r2(12345), r3(12345); u.r = &r2; u.iters = 0; u.max = t.max; u.tol = 0.5; double m2[2]; s = nx_usac(2, m2, 2, &k, &u); double bm = 0, bs = -DBL_MAX; auto sc = [&](double v) { double q = 0; for (double z : t.x) q += fabs(z - v) < 0.5; return q; }; for (int i = 0; i < t.max; ++i) { int a = r3.i(0, n - 1), b = r3.i(0, n - 1); if (a == b && n > 1) continue; for (int q : {a, b}) { double v = t.x[q]; if (v == 6) continue; double z = sc(v); if (z > bs) { if (v == 5) continue; double lr = refine ? sc(v + 1) : -1; if (refine && lr > z) { bm = v + 1; bs = lr; } else { bm = v; bs = z; } } } } double gm = global ? bm + 2 : bm, gs = sc(gm); if (gs > bs) { bm = gm; bs = gs; } REQ(c, s == bs && m2[0] == bm, "robust driver returned model %g score %g, the best admissible candidate is %g with score %g", m2[0], s, bm, bs);
}
static void from_flagged(Ctx &c) { // the C++ model estimated from the flagged matches, which then flags everything within tolerance
    auto &r = c.rng; c.nt(); double e = r.coin() ? 1 : r.uni(10, 500), h[9] = {1 + 0.3 * r.gauss(), 0.3 * r.gauss(), 0.1 * r.gauss() / e, 0.3 * r.gauss(), 1 + 0.3 * r.gauss(), 0.1 * r.gauss() / e, e * r.gauss(), e * r.gauss(), 1}; VGPointCorrespondence2D co; int n = r.i(8, 60), good = 0; std::vector<int> kind; for (int i = 0; i < n; ++i) { double x[2] = {e * r.uni(-1, 1), e * r.uni(-1, 1)}, w = h[2] * x[0] + h[5] * x[1] + h[8]; if (std::fabs(w) < 0.3) { --i; continue; } float fx[2] = {(float)x[0], (float)x[1]}; L q[2]; apply(h, fx[0], fx[1], q); int k = i < 8 ? 0 : r.i(0, 2); if (k == 2) { q[0] += e * (0.4 + r.u()); q[1] -= e * r.u(); } kind.push_back(k); good += k == 0; co.add_match(r.next(), fx[0], fx[1], 1, r.next(), (float)q[0], (float)q[1], 1, (float)r.u(), k == 0); c.mixb(fx, 8); }
    double tol = 0.02 * e, g[9]; std::vector<NXPointMatch2D> w(co.matches(), co.matches() + n); double m = nx_homography_estimate_dlt_inliers(g, n, w.data()); (void)m; VGHomography H; { const VGHomography &K = H; for (int i = 0; i < 9; ++i) REQ(c, K.data()[i] == (i % 4 ? 0 : 1), "a new homography is not the identity"); } H.set(h); c.desc("%d matches, %d flagged, extent %g", n, good, e); int cnt = H.estimate_from_inliers(co, tol), fl = 0; for (int i = 0; i < 9; ++i) REQ(c, near(H.data()[i], g[i], 1e-9 * (std::fabs(g[i]) + 1e-3)), "model element %d is %.9g expected %.9g", i, H.data()[i], g[i]);
    for (int i = 0; i < n; ++i) { L q[2]; apply(H.data(), co[i].x[0], co[i].x[1], q); L d = hypotl(q[0] - co[i].xp[0], q[1] - co[i].xp[1]); if (fabsl(d - tol) > 1e-4 * e) REQ(c, co.is_inlier(i) == (d < tol), "match %d at %.4Lg from the model, tolerance %.4g, %sflagged", i, d, tol, co.is_inlier(i) ? "" : "not "); if (kind[i] < 2) REQ(c, co.is_inlier(i), "exact match %d is not flagged", i); fl += co.is_inlier(i); } REQ(c, cnt == fl, "count %d, flags %d", cnt, fl); c.ev("estimates_from_flagged"); }
static void pieces(Ctx &c) { // a match made from two keypoints, counting and clearing flags, ordering by cost
    auto &r = c.rng; int n = r.size(40, 400); std::vector<NXPointMatch2D> v; c.nt(); int in = 0; for (int i = 0; i < n; ++i) { NXKeypoint k[2]; memset(k, 0, sizeof k); for (auto &q : k) { q.level = r.i(0, 5); q.scale = (float)std::pow(2.0, r.i(0, 5)); q.x = r.i(-3000, 3000); q.y = r.i(-3000, 3000); q.xs = (float)q.x + (float)r.uni(-0.5, 0.5); q.ys = (float)q.y + (float)r.uni(-0.5, 0.5); q.sigma = (float)r.uni(0.5, 9); q.id = r.next(); } float s0 = (float)r.uni(0.3, 5), mc = r.coin(1, 4) ? (float)r.i(0, 3) : (float)r.gauss(); NXBool f = r.coin() ? NX_TRUE : NX_FALSE; in += f ? 1 : 0; NXPointMatch2D m = nx_point_match_2d_from_keypoints(&k[0], &k[1], s0, mc, f); auto near1 = [](float g, double e) { return std::fabs(g - e) <= 1e-5 * (std::fabs(e) + 1e-3); };
        REQ(c, near1(m.x[0], (double)k[0].xs * k[0].scale) && near1(m.x[1], (double)k[0].ys * k[0].scale) && near1(m.xp[0], (double)k[1].xs * k[1].scale) && near1(m.xp[1], (double)k[1].ys * k[1].scale), "match positions (%g,%g)-(%g,%g) of keypoints (%g,%g)x%g and (%g,%g)x%g", m.x[0], m.x[1], m.xp[0], m.xp[1], k[0].xs, k[0].ys, k[0].scale, k[1].xs, k[1].ys, k[1].scale); REQ(c, near1(m.sigma_x, (double)s0 * k[0].scale) && near1(m.sigma_xp, (double)s0 * k[1].scale) && m.match_cost == mc && m.id == k[0].id && m.idp == k[1].id && !m.is_inlier == !f, "match deviation, cost, identifiers or flag"); v.push_back(m); c.mixb(k, sizeof k); c.ev("matches_made"); }
    REQ(c, nx_point_match_2d_count_inliers(n, v.data()) == in, "%d of %d inliers counted", nx_point_match_2d_count_inliers(n, v.data()), in); for (int t = 0; t < 20 && n; ++t) { auto &a = r.pick(v), &b = r.pick(v); int g = nx_point_match_2d_cmp_match_cost(&a, &b); REQ(c, (g > 0) == (a.match_cost > b.match_cost) && (g < 0) == (a.match_cost < b.match_cost), "comparison %d of costs %g and %g", g, a.match_cost, b.match_cost); }
    int k = n ? r.i(0, n) : 0; int rest = 0; for (int i = k; i < n; ++i) rest += v[i].is_inlier ? 1 : 0; nx_point_match_2d_clear_inliers(k, v.data()); REQ(c, nx_point_match_2d_count_inliers(n, v.data()) == rest && nx_point_match_2d_count_inliers(k, v.data()) == 0, "flags after clearing the first %d", k); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"exact", exact, 4000, 80000}, {"measures", measures, 5000, 100000}, {"pieces", pieces, 1500, 20000}, {"from_flagged", from_flagged, 1500, 20000}, {"robust", robust, 500, 8000}, {"normalise", normalise, 5000, 100000}, {"generic", generic, 3000, 60000}}); }
