// Two-view and camera geometry against long double definitions.
#include "vh.hpp"
#include <cfloat>
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_pinhole.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/vg_fundamental_matrix.hpp"
#include "virg/nexus/GL/nx_gl_projection.h"
using namespace vh; using namespace virg::nexus;
typedef long double L;
typedef std::vector<NXPointMatch2D> Matches;
struct Seeded { Seeded(uint32_t s) { nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), s); } ~Seeded() { nx_uniform_sampler_instance_free(); } };
// Eigenvectors of a symmetric matrix by cyclic Jacobi rotations, ascending eigenvalues; V's column k is V[i*n+k].
static void jacobi(int n, std::vector<L> A, std::vector<L> &w, std::vector<L> &V) {
    V.assign(n * n, 0); for (int i = 0; i < n; ++i) V[i * n + i] = 1;
    for (int sweep = 0; sweep < 100; ++sweep) { L off = 0, dg = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (i == j ? dg : off) += A[i * n + j] * A[i * n + j]; if (off <= 1e-44L * dg) break; for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { L a = A[p * n + q]; if (a == 0) continue; L th = (A[q * n + q] - A[p * n + p]) / (2 * a), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c; for (int k = 0; k < n; ++k) { L x = A[k * n + p], y = A[k * n + q]; A[k * n + p] = c * x - s * y; A[k * n + q] = s * x + c * y; } for (int k = 0; k < n; ++k) { L x = A[p * n + k], y = A[q * n + k]; A[p * n + k] = c * x - s * y; A[q * n + k] = s * x + c * y; } for (int k = 0; k < n; ++k) { L x = V[k * n + p], y = V[k * n + q]; V[k * n + p] = c * x - s * y; V[k * n + q] = s * x + c * y; } } }
    std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return A[a * n + a] < A[b * n + b]; }); auto U = V; w.resize(n); for (int k = 0; k < n; ++k) { w[k] = A[o[k] * n + o[k]]; for (int i = 0; i < n; ++i) V[i * n + k] = U[i * n + o[k]]; }
}
static void rot(Rng &r, double ang, double *R) { L a[3], n = 0; for (auto &q : a) { q = r.gauss(); n += q * q; } n = sqrtl(n); for (auto &q : a) q /= n; L c = cosl(ang), s = sinl(ang), k = 1 - c; L M[3][3] = {{c + a[0] * a[0] * k, a[0] * a[1] * k - a[2] * s, a[0] * a[2] * k + a[1] * s}, {a[1] * a[0] * k + a[2] * s, c + a[1] * a[1] * k, a[1] * a[2] * k - a[0] * s}, {a[2] * a[0] * k - a[1] * s, a[2] * a[1] * k + a[0] * s, c + a[2] * a[2] * k}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[3 * j + i] = (double)M[i][j]; }
static void cam(Rng &r, double *K, bool pix) { for (int i = 0; i < 9; ++i) K[i] = i % 4 == 0; if (!pix) return; double f = r.uni(200, 900); K[0] = f; K[4] = f * r.uni(0.8, 1.25); K[3] = r.coin() ? 0 : r.uni(-20, 20); K[6] = r.uni(100, 500); K[7] = r.uni(100, 500); }
static L dot3(const double *A, int i, const L *x) { return A[i] * x[0] + A[3 + i] * x[1] + A[6 + i] * x[2]; }   // row i of a column-major matrix
struct Scene { double R[9], t[3], K[9], Kp[9]; std::vector<std::array<double, 3>> X; Matches m; bool pix; double ext; };
// n points in front of both cameras, with parallax
static Scene scene(Rng &r, int n, bool pix) {
    Scene s; s.pix = pix; s.ext = pix ? 500 : 1; rot(r, r.coin(1, 6) ? 0 : r.uni(0.02, 0.5), s.R); L nn = 0; for (auto &q : s.t) q = r.gauss(); for (auto q : s.t) nn += q * q; double b = r.uni(0.4, 1.5) / sqrt((double)nn); for (auto &q : s.t) q *= b; cam(r, s.K, pix); cam(r, s.Kp, pix);
    int guard = 0; while ((int)s.X.size() < n && ++guard < 100000) { double z = r.uni(2, 9); L X[3] = {z * r.uni(-0.5, 0.5), z * r.uni(-0.5, 0.5), z}, Y[3]; for (auto &q : X) q = (double)q; for (int i = 0; i < 3; ++i) Y[i] = dot3(s.R, i, X) + s.t[i]; if (Y[2] < 1 || fabsl(Y[0]) > Y[2] || fabsl(Y[1]) > Y[2]) continue; L V[3] = {0, 0, 0}; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) V[j] += s.R[3 * j + i] * Y[i]; L cx = X[1] * V[2] - X[2] * V[1], cy = X[2] * V[0] - X[0] * V[2], cz = X[0] * V[1] - X[1] * V[0]; if (sqrtl(cx * cx + cy * cy + cz * cz) < 0.02L * sqrtl((X[0] * X[0] + X[1] * X[1] + X[2] * X[2]) * (V[0] * V[0] + V[1] * V[1] + V[2] * V[2]))) continue;
        NXPointMatch2D m; memset(&m, 0, sizeof m); L u[3], v[3]; for (int i = 0; i < 3; ++i) { u[i] = dot3(s.K, i, X); v[i] = dot3(s.Kp, i, Y); } m.x[0] = (float)(u[0] / u[2]); m.x[1] = (float)(u[1] / u[2]); m.xp[0] = (float)(v[0] / v[2]); m.xp[1] = (float)(v[1] / v[2]); m.sigma_x = (float)r.uni(0.5, 3); m.sigma_xp = (float)r.uni(0.5, 3); m.match_cost = (float)r.uni(0, 20); m.id = s.X.size(); m.idp = 1000 + m.id; s.m.push_back(m); s.X.push_back({(double)X[0], (double)X[1], (double)X[2]}); }
    return s;
}
static void descm(Ctx &c, const Matches &v) { for (auto &m : v) c.desc(" (%.9g,%.9g>%.9g,%.9g c%.4g i%d)", m.x[0], m.x[1], m.xp[0], m.xp[1], m.match_cost, (int)m.is_inlier); }
static void descp(Ctx &c, const char *n, const double *p, int k) { c.desc(" %s=[", n); for (int i = 0; i < k; ++i) c.desc("%.17g ", p[i]); c.desc("]"); }
// Distance of a match to its epipolar line; num/grad bounds the rounding error of the double computation (times epsilon).
static L epi(const double *F, const NXPointMatch2D &m, L *num = 0, L *grad = 0) { L x[3] = {m.x[0], m.x[1], 1}, l[3], mg[3]; for (int i = 0; i < 3; ++i) { l[i] = dot3(F, i, x); mg[i] = fabsl(F[i] * x[0]) + fabsl(F[3 + i] * x[1]) + fabsl((L)F[6 + i]); } L a = fabsl(l[0] * m.xp[0] + l[1] * m.xp[1] + l[2]), g = hypotl(l[0], l[1]); if (num) *num = mg[0] * fabsl((L)m.xp[0]) + mg[1] * fabsl((L)m.xp[1]) + mg[2] + (mg[0] + mg[1]) * a / g; if (grad) *grad = g; return a / g; }
static void row(const NXPointMatch2D &m, L *a) { L x[3] = {m.x[0], m.x[1], 1}, y[3] = {m.xp[0], m.xp[1], 1}; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) a[3 * j + i] = y[i] * x[j]; }
// The definition: the unit vector minimising the algebraic error, then the nearest matrix of rank two.  Returns false when it is not well determined.
static bool reference(const Matches &v, L *F, L *sval, L *sens) {
    // one-sided Jacobi on the columns of the constraint matrix: singular values to full relative accuracy
    int m = (int)v.size(); std::vector<std::vector<L>> C(9, std::vector<L>(m)), Q(9, std::vector<L>(9, 0)); for (int i = 0; i < 9; ++i) Q[i][i] = 1; for (int k = 0; k < m; ++k) { L a[9]; row(v[k], a); for (int i = 0; i < 9; ++i) C[i][k] = a[i]; }
    for (int sweep = 0; sweep < 60; ++sweep) { bool done = true; for (int p = 0; p < 9; ++p) for (int q = p + 1; q < 9; ++q) { L x = 0, y = 0, z = 0; for (int k = 0; k < m; ++k) { x += C[p][k] * C[p][k]; y += C[q][k] * C[q][k]; z += C[p][k] * C[q][k]; } if (fabsl(z) <= 1e-18L * sqrtl(x * y) || z == 0) continue; done = false; L th = (y - x) / (2 * z), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), cs = 1 / sqrtl(t * t + 1), sn = t * cs; for (int k = 0; k < m; ++k) { L a = C[p][k], b = C[q][k]; C[p][k] = cs * a - sn * b; C[q][k] = sn * a + cs * b; } for (int k = 0; k < 9; ++k) { L a = Q[p][k], b = Q[q][k]; Q[p][k] = cs * a - sn * b; Q[q][k] = sn * a + cs * b; } } if (done) break; }
    std::vector<std::pair<L, int>> sg; for (int i = 0; i < 9; ++i) { L n = 0; for (L z : C[i]) n += z * z; sg.push_back({sqrtl(n), i}); } std::sort(sg.begin(), sg.end()); *sval = sg[0].first; L top = sg[8].first, gap = sg[1].first - sg[0].first; *sens = top / std::max(gap, (L)1e-300); L G[9]; for (int i = 0; i < 9; ++i) G[i] = Q[sg[0].second][i]; std::vector<L> B(9, 0), w3, V3; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) B[i * 3 + j] += G[3 * i + k] * G[3 * j + k]; jacobi(3, B, w3, V3); L n[3]; for (int i = 0; i < 3; ++i) n[i] = V3[i * 3]; /* smallest right singular vector: F - (F n) n^T */ for (int k = 0; k < 3; ++k) { L f = 0; for (int j = 0; j < 3; ++j) f += G[3 * j + k] * n[j]; for (int j = 0; j < 3; ++j) F[3 * j + k] = G[3 * j + k] - f * n[j]; } L s1 = sqrtl(std::max((L)0, w3[1])), s0 = sqrtl(std::max((L)0, w3[0])); *sens += *sens / std::max(s1 - s0, (L)1e-300) * 0; if (s1 - s0 < 1e-3) { if (s1 - s0 < 1e-7) return false; *sens *= 1e-2L / (s1 - s0); } return true; }
static L detF(const double *F) { return (L)F[0] * ((L)F[4] * F[8] - (L)F[5] * F[7]) - (L)F[3] * ((L)F[1] * F[8] - (L)F[2] * F[7]) + (L)F[6] * ((L)F[1] * F[5] - (L)F[2] * F[4]); }
static void judge(Ctx &c, const char *what, const Matches &v, const double *F, double s) {
    L R[9], sv, sens; L fn = 0; for (int i = 0; i < 9; ++i) { REQ(c, std::isfinite(F[i]), "%s: entry %d is not finite", what, i); fn += (L)F[i] * F[i]; } fn = sqrtl(fn); REQ(c, fn < 1 + 1e-9 && fn > 0.5, "%s: norm %Lg", what, fn); REQ(c, fabsl(detF(F)) < 1e-13, "%s: determinant %Lg, not of rank two", what, detF(F));
    bool ok = reference(v, R, &sv, &sens); L big = 0; for (auto &m : v) { L a[9]; row(m, a); for (L q : a) big += q * q; } big = sqrtl(big); if (v.size() == 8) REQ(c, s <= 1e-9 * (double)big && s >= 0, "%s: residual %g of eight matches", what, s); else REQ(c, near(s, (double)sv, 1e-13 * (double)big, 1e-7), "%s: residual %.12g expected %.12Lg", what, s, sv);
    L tol = 1e-12L * sens + 1e-12L; if (!ok || tol > 1e-3) { c.ev("ill_conditioned"); return; } L dp = 0, dm = 0; for (int i = 0; i < 9; ++i) { dp = std::max(dp, fabsl(F[i] - R[i])); dm = std::max(dm, fabsl(F[i] + R[i])); } if (getenv("C24D")) fprintf(stderr, "ratio %Lg\n", std::min(dp, dm) / tol); REQ(c, std::min(dp, dm) <= tol, "%s: differs from the least squares rank two matrix by %Lg (allowed %Lg)", what, std::min(dp, dm), tol); c.ev("estimates_compared");
}
static void fundamental(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 4) ? 8 : r.coin(1, 50) ? r.logsize(70, 500) : r.i(8, 70); Scene s = scene(r, n, r.coin()); if ((int)s.X.size() < n) { c.skip(); return; } c.nt(); auto &v = s.m; double noise = r.coin() ? 0 : s.ext * pow(10, r.uni(-5, -1.5)); if (noise > 0) for (auto &m : v) for (int k = 0; k < 2; ++k) { m.x[k] += (float)(noise * r.gauss()); m.xp[k] += (float)(noise * r.gauss()); } c.desc("%s, noise %g:", s.pix ? "pixels" : "normalised", noise); descm(c, v); c.mixb(v.data(), v.size() * sizeof v[0]);
    double F[10]; for (auto &q : F) q = 42; auto v0 = v; double res = nx_fundamental_estimate(F, n, v.data()); REQ(c, F[9] == 42 && !memcmp(v.data(), v0.data(), n * sizeof v[0]), "estimation changed its input or wrote behind"); judge(c, "estimate", v, F, res);
    if (noise == 0 && n >= 14) { for (auto &m : v) { L d = epi(F, m); REQ(c, d < (s.pix ? 0.05 * s.ext : 2e-3), "exact match at %Lg from its epipolar line", d); } L Rf[9], sv, sens; if (reference(v, Rf, &sv, &sens) && sens < (s.pix ? 3e7 : 3e4)) for (auto &m : v) { L d = epi(F, m); REQ(c, d < (s.pix ? 0.01 * s.ext : 1e-4), "exact match at %Lg from its epipolar line (sensitivity %Lg)", d, sens); c.ev("exact_matches"); } }
    { int ids[8]; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.i(0, i)]); Matches e; int keep[8]; for (int i = 0; i < 8; ++i) { keep[i] = ids[i] = p[i]; e.push_back(v[p[i]]); } double G[10]; for (auto &q : G) q = 42; double q = nx_fundamental_estimate_8pt(G, ids, v.data()); REQ(c, G[9] == 42 && !memcmp(keep, ids, sizeof ids), "eight point estimate wrote outside its result"); judge(c, "eight points", e, G, q); c.ev("eight_point"); }
    { Matches w; for (auto &m : v) { m.is_inlier = NX_TRUE; w.push_back(m); while (r.coin(1, 3)) { auto b = m; b.is_inlier = NX_FALSE; b.xp[0] += 0.3f * s.ext; b.xp[1] -= 0.7f * s.ext; w.push_back(b); } } double G[9]; double q = nx_fundamental_estimate_inliers(G, (int)w.size(), w.data()); judge(c, "flagged matches", v, G, q); VGFundamentalMatrix M; VGPointCorrespondence2D co; for (auto &m : w) co.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); double tol = s.ext * 1e-2; int k = M.estimate_from_inliers(co, tol); int fl = 0; for (int i = 0; i < (int)w.size(); ++i) { L nm, g, d = epi(M.data(), co[i], &nm, &g); if (fabsl(d - tol) > 1e-10L * nm / g) REQ(c, (bool)co[i].is_inlier == (d < tol), "C++ estimate from flagged matches: flag of match %d", i); fl += co[i].is_inlier; } REQ(c, k == fl, "count %d, flags %d", k, fl); judge(c, "C++ flagged matches", v, M.data(), q); }
    for (int k : {0, 1, 7}) { double G[9]; for (auto &q : G) q = 42; REQ(c, nx_fundamental_estimate(G, k, v.data()) == DBL_MAX && G[0] == 42 && G[8] == 42, "estimate from %d matches", k); auto w = v; for (size_t i = 0; i < w.size(); ++i) w[i].is_inlier = (int)i < k; REQ(c, nx_fundamental_estimate_inliers(G, (int)w.size(), w.data()) == DBL_MAX && G[0] == 42, "estimate from %d flagged matches", k); REQ(c, nx_fundamental_estimate_ransac(G, k, w.data(), 1, 10) == 0, "robust estimate from %d matches", k); c.ev("too_few"); }
}
static void marks(Ctx &c) {
    auto &r = c.rng; c.nt(); int n = r.size(60, 1000); double F[9]; for (auto &q : F) q = r.uni(-1, 1); double e = r.coin() ? 1 : r.uni(10, 600); Matches v; for (int i = 0; i < n; ++i) { NXPointMatch2D m; memset(&m, 0, sizeof m); for (int k = 0; k < 2; ++k) { m.x[k] = (float)(e * r.uni(-1, 1)); m.xp[k] = (float)(e * r.uni(-1, 1)); } if (r.coin(1, 3)) { L x[3] = {m.x[0], m.x[1], 1}, l[3]; for (int j = 0; j < 3; ++j) l[j] = dot3(F, j, x); m.xp[1] = (float)(-(l[0] * m.xp[0] + l[2]) / l[1]); if (!(fabsf(m.xp[1]) < 1e6f)) m.xp[1] = 1; } m.is_inlier = r.coin(); m.id = i; m.match_cost = (float)r.u(); v.push_back(m); } double tol = r.coin(1, 8) ? 0 : e * r.uni(0.001, 0.8); descp(c, "F", F, 9); c.desc(" tol %g:", tol); descm(c, v); c.mixb(F, 72); auto w = v; int k = nx_fundamental_mark_inliers(F, n, w.data(), tol), fl = 0; VGFundamentalMatrix M; { const double *d = M.data(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(c, d[3 * i + j] == -d[3 * j + i], "initial fundamental matrix is not skew-symmetric"); double rows = 0; for (int i = 0; i < 9; ++i) rows += fabs(d[i]); REQ(c, rows > 0 && d[1] == 0 && d[2] == 0 && fabs(d[5]) == 1, "initial fundamental matrix is not that of a horizontal translation"); } M.set(F);
    for (int i = 0; i < n; ++i) { L nm, g, d = epi(F, v[i], &nm, &g), sl = 1e-12L * nm / g; double got = nx_fundamental_epipolar_distance_fwd(F, &v[i]), cpp = M.epipolar_distance_fwd(&v[i]); REQ(c, fabsl(got - d) <= sl && fabsl(cpp - d) <= sl, "distance %.12g expected %.12Lg", got, d); if (fabsl(d - tol) > sl) REQ(c, (bool)w[i].is_inlier == (d < tol), "match %d at %.9Lg is %sflagged with tolerance %.9g", i, d, w[i].is_inlier ? "" : "not ", tol); fl += w[i].is_inlier; auto z = w[i]; z.is_inlier = v[i].is_inlier; REQ(c, !memcmp(&z, &v[i], sizeof z), "marking changed match %d", i); double x[2] = {v[i].x[0], v[i].x[1]}, l[3]; M.epipolar_line_fwd(l, x); L X[3] = {x[0], x[1], 1}; for (int j = 0; j < 3; ++j) { L q = dot3(F, j, X); REQ(c, fabsl(l[j] - q) <= 1e-12L * (1 + e), "epipolar line coefficient %d", j); } c.ev("marked"); } REQ(c, k == fl, "count %d, flags %d", k, fl);
}
static void robust(Ctx &c) {
    auto &r = c.rng; double ratio = r.uni(0.78, 1); int n = r.coin(1, 60) ? r.logsize(95, 600) : r.coin(1, 6) ? r.i(0, 12) : r.i(20, 95); bool pix = r.coin(); Scene s = scene(r, n, pix); if ((int)s.X.size() < n) { c.skip(); return; } c.nt(); auto &v = s.m; double tol = s.ext * r.uni(0.004, 0.02); bool small = r.coin(1, 8); int it = small ? r.i(0, 5) : r.i(500, 900), nin = 0; double span = 0; for (auto &m : v) { m.is_inlier = r.coin(); if (r.u() > ratio) { m.idp = 500000; for (int k = 0; k < 2; ++k) m.xp[k] += (float)(s.ext * r.uni(-0.6, 0.6)); m.match_cost += (float)r.uni(0, 10); } else ++nin; span = std::max({span, fabs((double)m.x[0]), fabs((double)m.x[1]), fabs((double)m.xp[0]), fabs((double)m.xp[1])}); }
    uint32_t seed = (uint32_t)r.next(); int which = r.i(0, 2); static const char *nm[] = {"ransac", "norm_ransac", "C++ ransac"}; c.desc("%s of %d matches (%d exact) %s, tol %g, %d iterations, seed %u:", nm[which], n, nin, pix ? "pixels" : "normalised", tol, it, seed); descm(c, v); if (n) c.mixb(v.data(), n * sizeof v[0]); c.mix(seed);
    auto run = [&](Matches &w, double *o) -> int { Seeded sd(seed); switch (which) { case 0: return nx_fundamental_estimate_ransac(o, n, w.data(), tol, it); case 1: return nx_fundamental_estimate_norm_ransac(o, n, w.data(), tol, it); default: { VGFundamentalMatrix M; VGPointCorrespondence2D co; for (auto &m : w) co.add_match(m.id, m.x[0], m.x[1], m.sigma_x, m.idp, m.xp[0], m.xp[1], m.sigma_xp, m.match_cost, m.is_inlier); int k = M.estimate_ransac(co, tol, it); for (int i = 0; i < n; ++i) w[i] = co[i]; memcpy(o, M.data(), 72); return k; } } };
    Matches w = v, w2 = v; w.reserve(1); w2.reserve(1); double o[9], o2[9]; memset(o, 0x55, sizeof o); memcpy(o2, o, sizeof o); int k = run(w, o), k2 = run(w2, o2); REQ(c, k == k2 && (n < 8 || !memcmp(o, o2, sizeof o)), "%s: same seed, different result (%d and %d inliers)", nm[which], k, k2);
    std::vector<int> seen(n, 0); for (auto &m : w) { REQ(c, m.id < (uint64_t)n && !seen[m.id]++, "%s: match list is not a permutation of its input", nm[which]); auto &q = v[m.id]; double ee = which == 1 ? 2e-6 * (span + s.ext) : 0; REQ(c, m.idp == q.idp && m.match_cost == q.match_cost, "%s: match %d changed", nm[which], (int)m.id); for (int j = 0; j < 2; ++j) REQ(c, fabs(m.x[j] - q.x[j]) <= ee && fabs(m.xp[j] - q.xp[j]) <= ee, "%s: coordinates of match %d changed", nm[which], (int)m.id); }
    if (k == 0) for (auto &m : w) REQ(c, !m.is_inlier, "%s: match %d is flagged, no inliers are reported", nm[which], (int)m.id);
    if (n < 8) { REQ(c, k == 0, "%s: %d inliers from %d matches", nm[which], k, n); c.ev("too_few"); return; } REQ(c, k >= 0 && k <= n, "%s: %d inliers of %d", nm[which], k, n);
    if (k > 0) { L fn = 0; for (double q : o) { REQ(c, std::isfinite(q), "%s: matrix is not finite", nm[which]); fn += (L)q * q; } int fl = 0; for (auto &m : w) { fl += m.is_inlier; L mg, g, d = epi(o, m, &mg, &g), sl = (which == 1 ? 2e-6L : 1e-10L) * mg / g + 1e-6 * tol; if (fabsl(d - tol) > sl) REQ(c, (bool)m.is_inlier == (d < tol), "%s: match %d at %.9Lg from its line is %sflagged (tolerance %.9g)", nm[which], (int)m.id, d, m.is_inlier ? "" : "not ", tol); } REQ(c, fl == k, "%s: count %d, flags %d", nm[which], k, fl); c.ev("models"); c.ev("flags", n); } else c.ev("no_model");
    if (!small && nin >= 30 && (which == 1 || !pix)) { int got = 0; for (auto &m : w) got += m.is_inlier && m.idp < 500000; if (getenv("C24D")) fprintf(stderr, "got %d nin %d\n", got, nin); REQ(c, got * 10 >= nin * 6, "%s: %d of %d exact matches recovered (%d flagged)", nm[which], got, nin, k); c.ev("recovered", got); c.ev("recoverable", nin); }
}
static void cross(const L *t, const double *R, L *E) { for (int j = 0; j < 3; ++j) { const double *q = R + 3 * j; E[3 * j] = t[1] * q[2] - t[2] * q[1]; E[3 * j + 1] = t[2] * q[0] - t[0] * q[2]; E[3 * j + 2] = t[0] * q[1] - t[1] * q[0]; } }
static void essential(Ctx &c) {
    auto &r = c.rng; int n = r.i(1, 40); Scene s = scene(r, n, false); if ((int)s.X.size() < n) { c.skip(); return; } c.nt(); if (r.coin(1, 5)) { rot(r, r.coin() ? M_PI : r.uni(0, M_PI), s.R); n = 0; } descp(c, "R", s.R, 9); descp(c, "t", s.t, 3); c.mixb(s.R, 72); c.mixb(s.t, 24); double E[10]; E[9] = 42; nx_essential_from_Rt(E, s.R, s.t); L T[3] = {s.t[0], s.t[1], s.t[2]}, X[9]; cross(T, s.R, X); for (int i = 0; i < 9; ++i) REQ(c, fabsl(E[i] - X[i]) < 1e-14, "E[%d] = %.17g expected %.17Lg", i, E[i], X[i]); REQ(c, E[9] == 42, "wrote behind");
    { double K[9], Kp[9], F[9], G[9]; cam(r, K, true); cam(r, Kp, true); for (auto &q : F) q = r.uni(-1, 1); nx_essential_from_fundamental(G, F, K, Kp); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L e = 0, mg = 0; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { L z = (L)Kp[3 * i + p] * F[3 * q + p] * K[3 * j + q]; e += z; mg += fabsl(z); } REQ(c, fabsl(G[3 * j + i] - e) <= 1e-13L * mg + 1e-300L, "essential matrix entry (%d,%d) is %.15g expected %.15Lg", i, j, G[3 * j + i], e); } c.ev("essential_from_fundamental"); }
    double sc = r.coin() ? 1 : (r.coin() ? -1 : 1) * pow(10, r.uni(-4, 4)); double Es[9], Ek[9]; for (int i = 0; i < 9; ++i) Ek[i] = Es[i] = sc * E[i]; double Rb[4][10], tb[4][4]; double *R[4], *t[4]; for (int i = 0; i < 4; ++i) { R[i] = Rb[i]; t[i] = tb[i]; Rb[i][9] = tb[i][3] = 42; } double s2 = nx_essential_decompose_to_Rt(Es, R, t); L en = 0; for (double q : E) if (&q != &E[9]) en += (L)q * q; en = sqrtl(en); REQ(c, !memcmp(Es, Ek, sizeof Es), "decomposition changed its input"); REQ(c, s2 >= 0 && s2 <= 1e-12 * fabs(sc) * (double)en, "smallest singular value %g", s2);
    L tn = sqrtl(T[0] * T[0] + T[1] * T[1] + T[2] * T[2]); int truth = -1, hits = 0; for (int k = 0; k < 4; ++k) { REQ(c, Rb[k][9] == 42 && tb[k][3] == 42, "wrote behind"); L dn = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L q = 0; for (int p = 0; p < 3; ++p) q += (L)R[k][3 * i + p] * R[k][3 * j + p]; REQ(c, fabsl(q - (i == j)) < 1e-12, "rotation %d is not orthonormal", k); } REQ(c, fabsl(detF(R[k]) - 1) < 1e-12, "rotation %d has determinant %Lg", k, detF(R[k])); for (int i = 0; i < 3; ++i) dn += (L)t[k][i] * t[k][i]; REQ(c, fabsl(dn - 1) < 1e-12, "translation %d has length %Lg", k, sqrtl(dn)); L tk[3] = {t[k][0], t[k][1], t[k][2]}, Y[9], a = 0, b = 0; cross(tk, R[k], Y); for (int i = 0; i < 9; ++i) { a = std::max(a, fabsl(Y[i] - E[i] / tn)); b = std::max(b, fabsl(Y[i] + E[i] / tn)); } REQ(c, std::min(a, b) < 1e-11, "decomposition %d does not reproduce the matrix (%Lg)", k, std::min(a, b)); L dr = 0, dt = 0; for (int i = 0; i < 9; ++i) dr = std::max(dr, fabsl((L)R[k][i] - s.R[i])); for (int i = 0; i < 3; ++i) dt = std::max(dt, fabsl(t[k][i] - T[i] / tn)); if (dr < 1e-9 && dt < 1e-9) { truth = k; ++hits; } for (int q = 0; q < k; ++q) { L df = 0; for (int i = 0; i < 9; ++i) df = std::max(df, fabsl((L)R[k][i] - R[q][i])); for (int i = 0; i < 3; ++i) df = std::max(df, fabsl((L)t[k][i] - t[q][i])); REQ(c, df > 1e-3, "decompositions %d and %d coincide", q, k); } } REQ(c, hits == 1, "%d of four decompositions give the camera motion", hits); c.ev("decompositions");
    if (n > 0) { int perm[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(perm[i], perm[r.i(0, i)]); const double *Rs[4], *ts[4]; for (int i = 0; i < 4; ++i) { Rs[i] = R[perm[i]]; ts[i] = t[perm[i]]; } int z = -12345; int k = nx_epipolar_pick_best_Rt(Rs, ts, n, s.m.data(), r.coin(1, 4) ? NULL : &z); REQ(c, perm[k] == truth, "picked pose %d instead of %d for %d exact matches", perm[k], truth, n); REQ(c, z == -12345 || z == 2 * n, "%d points in front of both cameras, sign sum %d", n, z); c.ev("poses_picked"); }
}
static void pinhole(Ctx &c) {
    auto &r = c.rng; int n = r.i(1, 40); Scene s = scene(r, n, r.coin()); if ((int)s.X.size() < n) { c.skip(); return; } c.nt(); double I[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, Z[3] = {0, 0, 0}; bool nk = r.coin(1, 3), nr = r.coin(1, 3), nt = r.coin(1, 3); double K[9]; cam(r, K, true); descp(c, "K", s.K, 9); descp(c, "Kp", s.Kp, 9); descp(c, "R", s.R, 9); descp(c, "t", s.t, 3); c.mixb(s.R, 72); c.mixb(s.t, 24); c.mixb(K, 72);
    double P[13]; P[12] = 42; nx_pinhole_projection_from_krt(P, nk ? NULL : K, nr ? NULL : s.R, nt ? NULL : s.t); const double *k = nk ? I : K, *R = nr ? I : s.R, *t = nt ? Z : s.t; REQ(c, P[12] == 42, "wrote behind"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { L e = 0, m = 0; for (int q = 0; q < 3; ++q) { L z = (L)k[3 * q + i] * (j < 3 ? R[3 * j + q] : t[q]); e += z; m += fabsl(z); } REQ(c, fabsl(P[3 * j + i] - e) <= 1e-14L * m, "projection entry (%d,%d) is %.15g expected %.15Lg", i, j, P[3 * j + i], e); } c.ev("projections");
    std::vector<float> X, Xh, x(2 * n + 1, 42.f), xh(3 * n + 1, 42.f); for (int i = 0; i < n; ++i) { double sg = r.coin(1, 6) ? -1 : 1; for (double q : s.X[i]) X.push_back((float)(sg * q)); float w = (float)r.uni(-2, 2); for (double q : s.X[i]) Xh.push_back((float)(sg * q)); Xh.push_back(w); } double ms = nx_pinhole_project(P, n, X.data(), x.data()); nx_pinhole_project_h(P, n, Xh.data(), xh.data()); L mn = 1e300L; for (int i = 0; i < n; ++i) { L h[3], q[3], mg[3]; for (int a = 0; a < 3; ++a) { h[a] = P[9 + a]; q[a] = (L)P[9 + a] * Xh[4 * i + 3]; mg[a] = fabsl(h[a]) * 3; for (int b = 0; b < 3; ++b) { h[a] += (L)P[3 * b + a] * X[3 * i + b]; q[a] += (L)P[3 * b + a] * Xh[4 * i + b]; mg[a] += fabsl((L)P[3 * b + a] * X[3 * i + b]); } } mn = std::min(mn, fabsl(h[2])); for (int a = 0; a < 2; ++a) if (fabsl(h[2]) > 1e-3) REQ(c, fabsl(x[2 * i + a] - h[a] / h[2]) <= 1e-6L * (mg[a] / fabsl(h[2]) + fabsl(h[a] / h[2])), "point %d projects to %.9g expected %.9Lg", i, x[2 * i + a], h[a] / h[2]); for (int a = 0; a < 3; ++a) REQ(c, fabsl(xh[3 * i + a] - q[a]) <= 1e-6L * mg[a], "homogeneous projection of point %d", i); c.ev("projected_points"); } REQ(c, x[2 * n] == 42 && xh[3 * n] == 42, "wrote behind"); REQ(c, fabsl(ms - mn) <= 1e-12L * (1 + mn), "smallest depth %.12g expected %.12Lg", ms, mn);
    // triangulation
    double P0[12], P1[12]; double K0[9]; memcpy(K0, s.K, 72); nx_pinhole_projection_from_krt(P0, K0, NULL, NULL); nx_pinhole_projection_from_krt(P1, s.Kp, s.R, s.t); double W[12] = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; bool moved = r.coin(); if (moved) { // the first camera does not have to be the world frame
        double q[4]; double nq = 0; for (auto &z : q) { z = r.gauss(); nq += z * z; } nq = std::sqrt(nq); for (auto &z : q) z /= nq; double a = q[0], b = q[1], d = q[2], e = q[3]; double Q[9] = {a * a + b * b - d * d - e * e, 2 * (b * d + a * e), 2 * (b * e - a * d), 2 * (b * d - a * e), a * a - b * b + d * d - e * e, 2 * (d * e + a * b), 2 * (b * e + a * d), 2 * (d * e - a * b), a * a - b * b - d * d + e * e}; memcpy(W, Q, sizeof Q); for (int z = 9; z < 12; ++z) W[z] = r.uni(-2, 2); for (double *P : {P0, P1}) { double O[12]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { O[j * 3 + i] = j == 3 ? P[9 + i] : 0; for (int z = 0; z < 3; ++z) O[j * 3 + i] += P[z * 3 + i] * W[j * 3 + z]; } memcpy(P, O, sizeof O); } c.ev("triangulated_in_moved_frame"); } int fl = 0; for (auto &m : s.m) { m.is_inlier = r.coin(2, 3); fl += m.is_inlier; } int want = r.coin(1, 3) ? r.i(0, n) : r.coin() ? fl : n + r.i(0, 3), exp = std::min(want, fl); std::vector<float> T(3 * want + 4, 42.f); std::vector<int> id(want + 1, 42); auto m0 = s.m; int got = nx_pinhole_triangulate(want, T.data(), id.data(), n, s.m.data(), P0, P1); REQ(c, got == exp, "%d points triangulated from %d flagged matches when %d were requested", got, fl, want); REQ(c, !memcmp(m0.data(), s.m.data(), n * sizeof m0[0]), "triangulation changed the matches"); for (int i = 3 * exp; i < 3 * want + 4; ++i) REQ(c, T[i] == 42, "wrote behind the points"); for (int i = exp; i <= want; ++i) REQ(c, id[i] == 42, "wrote behind the ids"); int at = 0; for (int i = 0; i < n && at < exp; ++i) if (s.m[i].is_inlier) { REQ(c, id[at] == i, "point %d comes from match %d instead of %d", at, id[at], i); L d = 0, len = 0; for (int k2 = 0; k2 < 3; ++k2) { { L xw = 0; for (int z = 0; z < 3; ++z) xw += (L)W[k2 * 3 + z] * ((L)s.X[i][z] - W[9 + z]); d = std::max(d, fabsl((L)T[3 * at + k2] - xw)); len = std::max(len, (L)fabs(s.X[i][k2]) + (moved ? 4 : 0)); } } if (getenv("C24D")) fprintf(stderr, "tri %Lg %Lg\n", d / len, len); REQ(c, d <= 2e-4 * len, "point (%.9g,%.9g,%.9g) triangulated to (%.9g,%.9g,%.9g)", s.X[i][0], s.X[i][1], s.X[i][2], T[3 * at], T[3 * at + 1], T[3 * at + 2]); ++at; c.ev("triangulated"); }
}
static void glproj(Ctx &c) {
    auto &r = c.rng; c.nt(); double fx = r.uni(50, 2000), fy = r.uni(50, 2000), nr = r.uni(0.01, 5), fr = nr + r.uni(0.5, 500), w = r.i(1, 2000), h = r.i(1, 2000); double P[17]; for (auto &q : P) q = 42; c.desc("fx %g fy %g near %g far %g viewport %gx%g", fx, fy, nr, fr, w, h); c.mixb(&fx, 8); nx_gl_projection_sym_perspective_from_camera(P, fx, fy, nr, fr, w, h); REQ(c, P[16] == 42, "wrote behind"); auto map = [&](L x, L y, L z, L *o) { for (int i = 0; i < 4; ++i) o[i] = P[i] * x + P[4 + i] * y + P[8 + i] * z + P[12 + i]; }; L o[4]; for (int k = 0; k < 6; ++k) { L z = k == 0 ? nr : k == 1 ? fr : r.uni(nr, fr), x = r.uni(-2, 2) * z, y = r.uni(-2, 2) * z; map(x, y, -z, o); REQ(c, fabsl(o[3] - z) <= 1e-12 * z, "clip w %Lg at depth %Lg", o[3], z); REQ(c, fabsl(o[0] / o[3] - (fx * x / z) / (w / 2)) < 1e-10 * (1 + fx * 4 / w) && fabsl(o[1] / o[3] - (fy * y / z) / (h / 2)) < 1e-10 * (1 + fy * 4 / h), "clip position"); L e = (fr + nr) / (fr - nr) - 2 * (L)fr * nr / ((fr - nr) * z); REQ(c, fabsl(o[2] / o[3] - e) < 1e-10 * (fr / nr), "clip depth %.9Lg expected %.9Lg", o[2] / o[3], e); } map(0, 0, -nr, o); REQ(c, fabsl(o[2] / o[3] + 1) < 1e-9, "near plane at %Lg", o[2] / o[3]); map(0, 0, -fr, o); REQ(c, fabsl(o[2] / o[3] - 1) < 1e-9 * fr / nr, "far plane at %Lg", o[2] / o[3]);
    double M[16], V[16]; for (auto &q : M) q = r.uni(-3, 3); for (auto &q : V) q = r.uni(-3, 3); bool m = r.coin(), v = r.coin(); float out[17]; out[16] = 42; double P0[16]; memcpy(P0, P, sizeof P0); nx_gl_projection_to_mvp(out, m ? M : NULL, v ? V : NULL, P); REQ(c, out[16] == 42 && !memcmp(P, P0, sizeof P0), "wrote outside"); auto mul = [](const std::vector<L> &a, const double *b) { std::vector<L> o(16, 0); for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) o[4 * j + i] += a[4 * k + i] * b[4 * j + k]; return o; }; std::vector<L> A(P, P + 16); if (v) A = mul(A, V); if (m) A = mul(A, M); L big = 0; for (L q : A) big = std::max(big, fabsl(q)); for (int i = 0; i < 16; ++i) REQ(c, fabsl(out[i] - A[i]) <= 1e-6L * fabsl(A[i]) + 1e-12L * big * 100, "mvp[%d] = %.9g expected %.9Lg (model %d view %d)", i, out[i], A[i], m, v); c.ev("gl_projections");
}
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"fundamental", fundamental, 4000, 40000}, {"marks", marks, 6000, 80000}, {"robust", robust, 1500, 12000}, {"essential", essential, 20000, 300000}, {"pinhole", pinhole, 15000, 200000}, {"glproj", glproj, 10000, 100000}}); }
