// Rotations and planar transforms: every representation against long double definitions.
#include "vh.hpp"
#include "virg/nexus/nx_quaternion.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_transform_2d.h"
using namespace vh;
typedef long double L;
struct M3 { L a[9]; L &operator()(int r, int c) { return a[c * 3 + r]; } L operator()(int r, int c) const { return a[c * 3 + r]; } };
static M3 eye() { M3 m{}; m(0, 0) = m(1, 1) = m(2, 2) = 1; return m; }
static M3 operator*(const M3 &A, const M3 &B) { M3 C{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) C(i, j) += A(i, k) * B(k, j); return C; }
static M3 rot(int ax, L t) { M3 m = eye(); int p = (ax + 1) % 3, q = (ax + 2) % 3; m(p, p) = m(q, q) = cosl(t); m(q, p) = sinl(t); m(p, q) = -sinl(t); return m; }
// Rodrigues via the cross product matrix
static M3 axang(const L *n, L t) { M3 K{}; K(0, 1) = -n[2]; K(0, 2) = n[1]; K(1, 0) = n[2]; K(1, 2) = -n[0]; K(2, 0) = -n[1]; K(2, 1) = n[0]; M3 K2 = K * K, R = eye(); for (int i = 0; i < 9; ++i) R.a[i] += sinl(t) * K.a[i] + (1 - cosl(t)) * K2.a[i]; return R; }
template <class T> static void same(Ctx &c, const T *R, const M3 &E, double eps, const char *w) { for (int i = 0; i < 9; ++i) REQ(c, fabsl(R[i] - E.a[i]) <= eps, "%s: element (%d,%d) is %.17g expected %.17Lg", w, i % 3, i / 3, (double)R[i], E.a[i]); }
static void is_rotation(Ctx &c, const double *R, const char *w) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L d = 0; for (int k = 0; k < 3; ++k) d += (L)R[i * 3 + k] * R[j * 3 + k]; REQ(c, fabsl(d - (i == j)) <= 1e-14, "%s: columns %d,%d have product %.17Lg", w, i, j, d); } L d = (L)R[0] * ((L)R[4] * R[8] - (L)R[5] * R[7]) - (L)R[3] * ((L)R[1] * R[8] - (L)R[2] * R[7]) + (L)R[6] * ((L)R[1] * R[5] - (L)R[2] * R[4]); REQ(c, fabsl(d - 1) <= 1e-14, "%s: determinant %.17Lg", w, d); }
static double angle(Rng &r) { switch (r.i(0, 8)) { case 0: return 0; case 1: return M_PI * r.i(-4, 4); case 2: return M_PI / 2 * r.i(-9, 9); case 3: return r.uni(-1, 1) * 1e-8; case 4: return M_PI + r.uni(-1, 1) * 1e-7; case 5: return r.uni(-1e6, 1e6); case 6: return 2 * M_PI / 3 * r.i(-3, 3); default: return r.uni(-M_PI, M_PI); } }
static void axis(Rng &r, double *v) { L n; do { for (int i = 0; i < 3; ++i) v[i] = r.coin(1, 4) ? 0 : r.coin(1, 5) ? 1 : r.gauss(); n = (L)v[0] * v[0] + (L)v[1] * v[1] + (L)v[2] * v[2]; } while (n == 0); double s = r.coin() ? 1 : std::ldexp(1, r.i(-30, 30)); if (r.coin(1, 5)) s = 1 / sqrt((double)n); for (int i = 0; i < 3; ++i) v[i] *= s; }
static void unitl(const double *v, L *n) { L s = sqrtl((L)v[0] * v[0] + (L)v[1] * v[1] + (L)v[2] * v[2]); for (int i = 0; i < 3; ++i) n[i] = v[i] / s; }
static void qprod(L *o, const double *a, const double *b) { o[0] = (L)a[0] * b[0] - (L)a[1] * b[1] - (L)a[2] * b[2] - (L)a[3] * b[3]; o[1] = (L)a[0] * b[1] + (L)b[0] * a[1] + (L)a[2] * b[3] - (L)a[3] * b[2]; o[2] = (L)a[0] * b[2] + (L)b[0] * a[2] + (L)a[3] * b[1] - (L)a[1] * b[3]; o[3] = (L)a[0] * b[3] + (L)b[0] * a[3] + (L)a[1] * b[2] - (L)a[2] * b[1]; }
static void spoil(double *p, int n) { for (int i = 0; i < n; ++i) p[i] = NAN; } // nothing of an earlier result may survive in an output
static void rotations(Ctx &c) {
    auto &r = c.rng; c.nt(); double v[4] = {0, 0, 0, 42}, th = angle(r), R[10]; R[9] = 42; axis(r, v); double v0[4]; memcpy(v0, v, sizeof v); c.desc("axis %.17g %.17g %.17g angle %.17g", v[0], v[1], v[2], th); c.mixb(v, 24); c.mixb(&th, 8); L n[3]; unitl(v, n); M3 E = axang(n, th);
    nx_rotation_3d_axis_angle(R, v, th); REQ(c, !memcmp(v, v0, sizeof v) && R[9] == 42, "axis changed or memory behind written"); same(c, R, E, 4e-15, "axis angle matrix"); is_rotation(c, R, "axis angle matrix");
    double q[8]; for (auto &x : q) x = 42; nx_quaternion_from_axis_angle(q, v, th); REQ(c, q[4] == 42 && !memcmp(v, v0, sizeof v), "quaternion wrote behind"); L qe[4] = {cosl((L)th / 2), n[0] * sinl((L)th / 2), n[1] * sinl((L)th / 2), n[2] * sinl((L)th / 2)}; for (int i = 0; i < 4; ++i) REQ(c, fabsl(q[i] - qe[i]) <= 2e-15, "quaternion element %d is %.17g expected %.17Lg", i, q[i], qe[i]);
    double Q[10]; Q[9] = 42; spoil(Q, 9); nx_quaternion_to_R(q, Q); REQ(c, Q[9] == 42, "wrote behind"); same(c, Q, E, 6e-15, "quaternion matrix"); is_rotation(c, Q, "quaternion matrix"); q[4] = 5; q[5] = 6; q[6] = 7; double t[3], RR[9]; spoil(RR, 9); spoil(t, 3); nx_quaternion_to_Rt(q, RR, t); REQ(c, !memcmp(RR, Q, 72) && t[0] == 5 && t[1] == 6 && t[2] == 7, "rotation and translation");
    double p[5] = {0, 0, 0, 0, 42}; spoil(p, 4); nx_quaternion_from_R(p, R); REQ(c, p[4] == 42, "wrote behind"); L dp = 0; for (int i = 0; i < 4; ++i) dp += p[i] * qe[i]; for (int i = 0; i < 4; ++i) REQ(c, fabsl(p[i] - (dp < 0 ? -1 : 1) * qe[i]) <= 2e-14, "quaternion from matrix: element %d is %.17g expected %.17Lg", i, p[i], (dp < 0 ? -1 : 1) * qe[i]);
    double x[3], y[3], w[3]; for (int i = 0; i < 3; ++i) x[i] = y[i] = w[i] = r.uni(-10, 10); nx_quaternion_rotate(q, y); for (int i = 0; i < 3; ++i) { L e = 0; for (int k = 0; k < 3; ++k) e += E(i, k) * x[k]; REQ(c, fabsl(e - y[i]) <= 1e-13, "rotated vector element %d is %.17g expected %.17Lg", i, y[i], e); }
    nx_quaternion_conj(q); nx_quaternion_rotate(q, y); for (int i = 0; i < 3; ++i) REQ(c, near(y[i], x[i], 3e-13), "inverse rotation does not restore element %d", i); double Ri[9]; memcpy(Ri, R, 72); nx_rotation_3d_invert(Ri); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(c, Ri[i * 3 + j] == R[j * 3 + i], "inverse matrix (%d,%d)", j, i);
    // composition
    double v2[3], th2 = angle(r), q2[4], q1[4]; axis(r, v2); L n2[3]; unitl(v2, n2); nx_quaternion_from_axis_angle(q1, v, th); nx_quaternion_from_axis_angle(q2, v2, th2); double pr[4], ml[4]; nx_quaternion_prod(pr, q1, q2); memcpy(ml, q1, 32); nx_quaternion_mul(ml, q2); REQ(c, !memcmp(pr, ml, 32), "product and in-place product differ"); spoil(Q, 9); nx_quaternion_to_R(pr, Q); same(c, Q, E * axang(n2, th2), 2e-14, "composed rotation"); memcpy(ml, q1, 32); nx_quaternion_mul(ml, ml); spoil(Q, 9); nx_quaternion_to_R(ml, Q); same(c, Q, E * E, 2e-14, "rotation composed with itself");
    double a = angle(r), b = angle(r), g = angle(r); c.desc(" euler %.17g %.17g %.17g", a, b, g); spoil(R, 9); nx_rotation_3d_RzRyRx(R, a, b, g); same(c, R, rot(2, g) * rot(1, b) * rot(0, a), 4e-15, "RzRyRx"); is_rotation(c, R, "RzRyRx"); spoil(p, 4); nx_quaternion_from_R(p, R); spoil(Q, 9); nx_quaternion_to_R(p, Q); for (int i = 0; i < 9; ++i) REQ(c, near(Q[i], R[i], 3e-14), "RzRyRx through a quaternion: element %d is %.17g expected %.17g", i, Q[i], R[i]); spoil(R, 9); nx_rotation_3d_RxRyRz(R, a, b, g); same(c, R, rot(0, a) * rot(1, b) * rot(2, g), 4e-15, "RxRyRz"); is_rotation(c, R, "RxRyRz"); spoil(p, 4); nx_quaternion_from_R(p, R); L np = 0; for (int i = 0; i < 4; ++i) np += (L)p[i] * p[i]; REQ(c, fabsl(np - 1) < 1e-13, "quaternion from matrix is not unit"); spoil(Q, 9); nx_quaternion_to_R(p, Q); for (int i = 0; i < 9; ++i) REQ(c, near(Q[i], R[i], 3e-14), "RxRyRz through a quaternion: element %d is %.17g expected %.17g", i, Q[i], R[i]); c.ev("rotations", 5);
}
static void quaternions(Ctx &c) {
    auto &r = c.rng; c.nt(); double q[5], s[5], o[5]; for (int i = 0; i < 5; ++i) { q[i] = std::ldexp(r.uni(-1, 1), r.i(-20, 20)); s[i] = r.coin(1, 6) ? 0 : r.gauss(); o[i] = 42; } double q0[5]; memcpy(q0, q, 40); c.mixb(q, 40); c.desc("q %.17g %.17g %.17g %.17g", q[0], q[1], q[2], q[3]); L e[4]; qprod(e, q, s); L mag = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) mag += fabsl((L)q[i] * s[j]);
    nx_quaternion_prod(o, q, s); for (int i = 0; i < 4; ++i) REQ(c, fabsl(o[i] - e[i]) <= 1e-15 * mag, "product element %d is %.17g expected %.17Lg", i, o[i], e[i]); REQ(c, o[4] == 42, "wrote behind"); nx_quaternion_mul(q, s); for (int i = 0; i < 4; ++i) REQ(c, fabsl(q[i] - e[i]) <= 1e-15 * mag, "in-place product element %d", i); REQ(c, q[4] == q0[4], "wrote behind"); memcpy(q, q0, 40); spoil(o, 4); nx_quaternion_sum(o, q, s); nx_quaternion_add(q, s); for (int i = 0; i < 4; ++i) REQ(c, o[i] == q0[i] + s[i] && q[i] == o[i], "sum element %d", i); memcpy(q, q0, 40); double k = r.uni(-4, 4); nx_quaternion_scale(q, k); for (int i = 0; i < 4; ++i) REQ(c, q[i] == q0[i] * k, "scaled element %d", i); memcpy(q, q0, 40); nx_quaternion_conj(q); for (int i = 0; i < 4; ++i) REQ(c, q[i] == (i ? -q0[i] : q0[i]), "conjugate element %d", i);
    L d = 0, g = 0, nn = 0; for (int i = 0; i < 4; ++i) { d += (L)q0[i] * s[i]; g += fabsl((L)q0[i] * s[i]); nn += (L)q0[i] * q0[i]; } REQ(c, fabsl(d - nx_quaternion_dot(q0, s)) <= 1e-15 * g, "dot product"); memcpy(q, q0, 40); double nr = nx_quaternion_to_unit(q); REQ(c, near(nr, (double)sqrtl(nn), 0, 1e-15 * 4), "norm"); for (int i = 0; i < 4; ++i) REQ(c, near(q[i], (double)(q0[i] / sqrtl(nn)), 0, 1e-15 * 4), "unit element %d", i); REQ(c, q[4] == q0[4], "wrote behind"); double I[3] = {1, 2, 3}; double z[4]; spoil(z, 4); nx_quaternion_from_axis_angle(z, I, 0); REQ(c, z[0] == 1 && z[1] == 0 && z[2] == 0 && z[3] == 0, "zero angle"); spoil(z, 4); nx_quaternion_from_axis_angle(z, NULL, 0); REQ(c, z[0] == 1 && z[1] == 0 && z[2] == 0 && z[3] == 0, "zero angle without an axis"); c.ev("quaternion_ops", 9);
}
static M3 tr(L x, L y) { M3 m = eye(); m(0, 2) = x; m(1, 2) = y; return m; }
static M3 sc(L x, L y) { M3 m = eye(); m(0, 0) = x; m(1, 1) = y; return m; }
template <class T> static void planar(Ctx &c, const char *nm, void (*sim)(T *, T, T, T, T, T, T), void (*aff)(T *, T, T, T, T, T, T, T, T), T (*persp)(T *, const T *), double eps) {
    auto &r = c.rng; T a = (T)r.uni(-50, 50), b = (T)r.uni(-50, 50), l = r.coin(1, 5) ? 1 : (T)r.uni(0.05, 8), ps = (T)(r.coin() ? angle(r) : r.uni(-4, 4)), ph = (T)r.uni(-4, 4), th = r.coin(1, 5) ? 0 : (T)r.uni(-1.4, 1.4), x = r.coin(1, 4) ? 0 : (T)r.uni(-50, 50), y = (T)r.uni(-50, 50); if (fabs((double)ps) > 100) ps = (T)fmod((double)ps, 7); c.desc("%s: %g %g %g %g %g %g %g %g;", nm, (double)a, (double)b, (double)l, (double)ps, (double)th, (double)ph, (double)x, (double)y); c.mixb(&a, sizeof a); c.mixb(&ps, sizeof ps); T t[10]; for (auto &q : t) q = 42; sim(t, a, b, l, ps, x, y); REQ(c, t[9] == 42, "wrote behind the matrix"); double e = eps * (1 + (fabs((double)a) + fabs((double)b) + fabs((double)x) + fabs((double)y) + 1) * (l + 1)); same(c, t, tr(a, b) * sc(l, l) * rot(2, ps) * tr(x, y), e, "similarity"); REQ(c, t[2] == 0 && t[5] == 0 && t[8] == 1, "similarity: last row");
    for (auto &q : t) q = 42; aff(t, a, b, l, ps, th, ph, x, y); REQ(c, t[9] == 42, "wrote behind the matrix"); L ct = 1 / cosl((L)th); same(c, t, tr(a, b) * sc(l, l) * rot(2, ps) * sc(ct, 1) * rot(2, ph) * tr(x, y), e * 4 * (double)ct, "affine"); REQ(c, t[2] == 0 && t[5] == 0 && t[8] == 1, "affine: last row");
    // a convex quadrilateral around the unit square, far enough from degenerate
    L H[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; (void)H; double cx = r.uni(-3, 3), cy = r.uni(-3, 3), s = r.uni(0.7, 4), w = r.uni(-3, 3); T q[8], q0[8]; double ux[4] = {-1, 1, 1, -1}, uy[4] = {-1, -1, 1, 1}; for (int i = 0; i < 4; ++i) { double px = ux[i] + r.uni(-0.35, 0.35), py = uy[i] + r.uni(-0.35, 0.35); q[2 * i] = (T)(cx + s * (cos(w) * px - sin(w) * py)); q[2 * i + 1] = (T)(cy + s * (sin(w) * px + cos(w) * py)); } T lam = std::ldexp((T)1, r.coin() ? 0 : r.i(-8, 8)); for (auto &z : q) z *= lam; memcpy(q0, q, sizeof q); for (auto &z : t) z = 42; double det = persp(t, q); REQ(c, !memcmp(q, q0, sizeof q) && t[9] == 42, "corners changed or wrote behind"); for (auto &z : q) z /= lam; for (int i : {0, 1, 2, 3, 4, 5}) t[i] *= lam; c.desc(" corners"); for (auto z : q) c.desc(" %.9g", (double)z);
    // the matrix is normalised by its last element: only comparable when that is not near zero
    L big = 0; for (int i = 0; i < 9; ++i) big = std::max(big, fabsl((L)t[i])); if (!(big < 20)) { c.ev("near_degenerate_normalisation"); return; } REQ(c, det != 0, "zero determinant for a proper quadrilateral"); REQ(c, t[8] == 1, "last element"); static const double tx[4] = {0, 1, 1, 0}, ty[4] = {0, 0, 1, 1}; double lim = (sizeof(T) == 4 ? 3e-2 : 1e-9); L ws[4]; for (int i = 0; i < 4; ++i) ws[i] = (L)t[2] * q[2 * i] + (L)t[5] * q[2 * i + 1] + t[8]; for (int i = 0; i < 4; ++i) { if (fabsl(ws[i]) < 0.05) { c.ev("small_denominator"); return; } L X = ((L)t[0] * q[2 * i] + (L)t[3] * q[2 * i + 1] + t[6]) / ws[i], Y = ((L)t[1] * q[2 * i] + (L)t[4] * q[2 * i + 1] + t[7]) / ws[i]; REQ(c, fabsl(X - tx[i]) <= lim && fabsl(Y - ty[i]) <= lim, "perspective maps corner %d to (%.9Lg,%.9Lg) instead of (%g,%g)", i, X, Y, tx[i], ty[i]); } c.ev("perspectives"); c.ev("planar_transforms", 3);
}
static void planes(Ctx &c) { c.nt(); planar<double>(c, "double", nx_transform_2d_fill_similarity_d, nx_transform_2d_fill_affine_d, nx_transform_2d_fill_perspective_d, 4e-15); planar<float>(c, "single", nx_transform_2d_fill_similarity_s, nx_transform_2d_fill_affine_s, nx_transform_2d_fill_perspective_s, 1e-6); }
int main(int argc, char **argv) { return run_main(argc, argv, {{"rotations", rotations, 20000, 500000}, {"quaternions", quaternions, 10000, 200000}, {"planar", planes, 20000, 500000}}); }
