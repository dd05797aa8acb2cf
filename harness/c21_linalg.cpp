// Linear algebra routines against their defining identities (long double references).
#include "vh.hpp"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_linear_solvers.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_log.h"
using namespace vh;
typedef long double L;
// A column-major matrix with a leading dimension larger than its row count; the gap rows and
// the area behind the last column hold a sentinel that must survive.
template <class T> struct M {
    int m, n, ld; std::vector<T> v;
    M(int m_, int n_, int ld_) : m(m_), n(n_), ld(ld_), v((size_t)ld_ * n_ + 3, (T)12345.5) {}
    T &operator()(int r, int c) { return v[(size_t)c * ld + r]; }
    T operator()(int r, int c) const { return v[(size_t)c * ld + r]; }
    bool gaps_ok() const { for (int c = 0; c < n; ++c) for (int r = m; r < ld; ++r) if ((*this)(r, c) != (T)12345.5) return false; for (int k = 0; k < 3; ++k) if (v[(size_t)ld * n + k] != (T)12345.5) return false; return true; }
    T *p() { return v.data(); }
};
template <class T> static T entry(Rng &r, int st) {
    switch (st) { case 0: return (T)r.i(-3, 3); case 1: return (T)r.gauss(); case 2: return (T)(r.gauss() * 1e-12); case 3: return (T)(r.gauss() * 1e9); case 4: return r.coin(3, 4) ? (T)0 : (T)r.uni(-5, 5); default: return (T)std::ldexp(r.uni(-1, 1), r.i(-8, 8)); }
}
template <class T> static M<T> rnd(Rng &r, int m, int n, int st, bool pad) { M<T> A(m, n, m + (pad ? r.i(0, 3) : 0)); for (int c = 0; c < n; ++c) for (int i = 0; i < m; ++i) A(i, c) = entry<T>(r, st); return A; }

// ---- SVD -----------------------------------------------------------------------------------
static void svd_s(double *S, M<double> &A) { nx_dsvd_only_s(S, A.m, A.n, A.p(), A.ld); }
static void svd_s(float *S, M<float> &A) { nx_ssvd_only_s(S, A.m, A.n, A.p(), A.ld); }
static void svd_us(M<double> &U, double *S, M<double> &A) { nx_dsvd_us(U.p(), U.ld, S, A.m, A.n, A.p(), A.ld); }
static void svd_us(M<float> &U, float *S, M<float> &A) { nx_ssvd_us(U.p(), U.ld, S, A.m, A.n, A.p(), A.ld); }
static void svd_sv(double *S, M<double> &V, M<double> &A) { nx_dsvd_svt(S, V.p(), V.ld, A.m, A.n, A.p(), A.ld); }
static void svd_sv(float *S, M<float> &V, M<float> &A) { nx_ssvd_svt(S, V.p(), V.ld, A.m, A.n, A.p(), A.ld); }
static void svd_usv(M<double> &U, double *S, M<double> &V, M<double> &A) { nx_dsvd_usvt(U.p(), U.ld, S, V.p(), V.ld, A.m, A.n, A.p(), A.ld); }
static void svd_usv(M<float> &U, float *S, M<float> &V, M<float> &A) { nx_ssvd_usvt(U.p(), U.ld, S, V.p(), V.ld, A.m, A.n, A.p(), A.ld); }
template <class T> static void ortho(Ctx &c, const M<T> &Q, double eps, const char *what) {
    for (int i = 0; i < Q.n; ++i) for (int j = 0; j <= i; ++j) { L d = 0; for (int k = 0; k < Q.m; ++k) d += (L)Q(k, i) * Q(k, j); REQ(c, fabsl(d - (i == j)) <= eps, "%s: columns %d and %d have product %.9Lg", what, i, j, d); }
}
template <class T> static void svd(Ctx &c) {
    auto &r = c.rng; int m = r.coin(1, 150) ? r.i(41, 120) : r.coin(1, 8) ? r.i(1, 40) : r.i(1, 9), n = r.coin(1, 150) ? r.i(41, 120) : r.coin(1, 8) ? r.i(1, 40) : r.i(1, 9), st = r.i(0, 5); auto A = rnd<T>(r, m, n, st, true); int rank = std::min(m, n);
    if (r.coin(1, 4)) { int k = r.i(0, std::min(m, n) - 1); auto X = rnd<T>(r, m, std::max(k, 1), 1, false), Y = rnd<T>(r, std::max(k, 1), n, 1, false); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { L s = 0; for (int q = 0; q < k; ++q) s += (L)X(i, q) * Y(q, j); A(i, j) = (T)s; } rank = k; c.ev("rank_deficient"); }
    const auto A0 = A; c.desc("%d x %d, ld %d, style %d", m, n, A.ld, st); c.mixb(A.p(), A.v.size() * sizeof(T)); if (m > 1 && n > 1) c.nt();
    int k = std::min(m, n); const T g = (T)777; double eps = (sizeof(T) == 4 ? 6e-7 : 1e-15) * 8 * std::max(m, n);
    M<T> U(m, m, m + (r.coin(1, 10) ? r.i(3, 40) : r.i(0, 2))), V(n, n, n + (r.coin(1, 10) ? r.i(3, 40) : r.i(0, 2))); std::vector<T> S(k + 1, g); svd_usv(U, S.data(), V, A); REQ(c, A.gaps_ok() && U.gaps_ok() && V.gaps_ok() && S[k] == g, "memory outside the matrices was written");
    for (int i = 0; i < k; ++i) REQ(c, S[i] >= 0 && (i == 0 || S[i] <= S[i - 1]), "singular values not ordered: %g after %g", (double)S[i], i ? (double)S[i - 1] : 0.0);
    ortho(c, U, eps, "left vectors"); ortho(c, V, eps, "right vectors"); double s0 = S[0];
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { L s = 0; for (int q = 0; q < k; ++q) s += (L)U(i, q) * S[q] * V(q, j); REQ(c, fabsl(s - A0(i, j)) <= eps * s0 + 1e-37, "product of the factors at (%d,%d) is %.9Lg, matrix has %.9g", i, j, s, (double)A0(i, j)); }
    for (int q = rank; q < k; ++q) REQ(c, S[q] <= eps * s0 + 1e-37, "singular value %d of a matrix of rank %d is %g (largest %g)", q, rank, (double)S[q], s0);
    auto same = [&](const std::vector<T> &X, const char *w) { for (int q = 0; q < k; ++q) REQ(c, fabs((double)X[q] - (double)S[q]) <= eps * s0 + 1e-37, "%s: singular value %d is %g, full decomposition %g", w, q, (double)X[q], (double)S[q]); REQ(c, X[k] == g, "%s wrote behind the singular values", w); };
    { auto B = A0; std::vector<T> X(k + 1, g); svd_s(X.data(), B); same(X, "values only"); REQ(c, B.gaps_ok(), "values only: wrote outside"); }
    { auto B = A0; std::vector<T> X(k + 1, g); M<T> W(m, m, m + (r.coin(1, 10) ? r.i(3, 40) : r.i(0, 2))); svd_us(W, X.data(), B); same(X, "left only"); ortho(c, W, eps, "left only"); REQ(c, B.gaps_ok() && W.gaps_ok(), "left only: wrote outside");
      for (int q = 0; q < m; ++q) { L s = 0; for (int j = 0; j < n; ++j) { L t = 0; for (int i = 0; i < m; ++i) t += (L)W(i, q) * A0(i, j); s += t * t; } REQ(c, fabsl(sqrtl(s) - (q < k ? S[q] : 0)) <= eps * s0 + 1e-37, "left only: vector %d is not a singular vector", q); } }
    { auto B = A0; std::vector<T> X(k + 1, g); M<T> W(n, n, n + (r.coin(1, 10) ? r.i(3, 40) : r.i(0, 2))); svd_sv(X.data(), W, B); same(X, "right only"); ortho(c, W, eps, "right only"); REQ(c, B.gaps_ok() && W.gaps_ok(), "right only: wrote outside");
      for (int q = 0; q < n; ++q) { L s = 0; for (int i = 0; i < m; ++i) { L t = 0; for (int j = 0; j < n; ++j) t += (L)A0(i, j) * W(q, j); s += t * t; } REQ(c, fabsl(sqrtl(s) - (q < k ? S[q] : 0)) <= eps * s0 + 1e-37, "right only: vector %d is not a singular vector (|Av| %.9Lg)", q, sqrtl(s)); } if (n > m) c.ev("null_space_vectors", n - m); }
    c.ev("decompositions", 4);
}
// ---- symmetric systems --------------------------------------------------------------------
static void solve(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 6) ? r.i(1, 40) : r.i(1, 6), k = r.i(1, 4); bool up = r.coin(); double sc = r.coin() ? 1 : std::ldexp(1, r.i(-20, 20)); int kind = r.i(0, 3); std::vector<std::vector<double>> S(n, std::vector<double>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) S[i][j] = S[j][i] = sc * r.uni(-1, 1); for (int i = 0; i < n; ++i) { double d = sc * (n + 1); if (kind == 0) S[i][i] = d; else if (kind == 1) S[i][i] = -d; else if (kind == 2) S[i][i] = r.coin() ? d : -d; }
    if (kind == 3) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S[i][j] *= 0.01 / n; for (int i = 0; i + 1 < n; i += 2) S[i][i + 1] = S[i + 1][i] = sc; if (n % 2) S[n - 1][n - 1] = sc; }   // zero-ish diagonal: needs 2x2 pivots
    M<double> A(n, n, n + r.i(0, 3)), B(n, k, n + r.i(0, 3)); std::vector<std::vector<double>> X(n, std::vector<double>(k)); for (auto &q : X) for (auto &e : q) e = r.uni(-2, 2);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = (up ? i <= j : i >= j) ? S[i][j] : 1e300; // the other triangle must not matter
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { L s = 0; for (int q = 0; q < n; ++q) s += (L)S[i][q] * X[q][j]; B(i, j) = (double)s; }
    c.desc("n %d, %d right sides, %s, kind %d, scale %g", n, k, up ? "upper" : "lower", kind, sc); c.mixb(A.p(), A.v.size() * 8); if (n > 1) c.nt(); std::vector<int> piv(n + 1, 99); bool ok = nx_dsym_solver(up ? NX_SYMMETRIC_UPPER : NX_SYMMETRIC_LOWER, n, k, A.p(), A.ld, B.p(), B.ld, piv.data());
    REQ(c, ok, "regular system reported singular"); REQ(c, A.gaps_ok() && B.gaps_ok() && piv[n] == 99, "memory outside was written"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) REQ(c, fabs(B(i, j) - X[i][j]) <= 1e-11 * n, "solution (%d,%d) is %.15g expected %.15g", i, j, B(i, j), X[i][j]); c.ev("systems"); c.ev("unknowns", n * k);
    if (r.coin(1, 4)) { M<double> Z(n, n, n), b(n, 1, n); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) Z(i, j) = 0; b(i, 0) = 1; } int d = r.i(0, n - 1); for (int i = 0; i < n; ++i) if (i != d) Z(i, i) = 1 + i; REQ(c, !nx_dsym_solver(up ? NX_SYMMETRIC_UPPER : NX_SYMMETRIC_LOWER, n, 1, Z.p(), n, b.p(), n, piv.data()), "singular system (zero row %d of %d) reported solved", d, n); c.ev("singular_systems"); }
    for (int s = 2; s <= 3; ++s) { double a[9], x[3], b[3]; for (int i = 0; i < s; ++i) { x[i] = r.uni(-3, 3); for (int j = 0; j <= i; ++j) a[j * s + i] = a[i * s + j] = r.uni(-1, 1); a[i * s + i] = r.coin() ? 4 : -4; } for (int i = 0; i < s; ++i) { b[i] = 0; for (int j = 0; j < s; ++j) b[i] += a[j * s + i] * x[j]; } double a0[9]; memcpy(a0, a, sizeof(double) * s * s); bool k2 = s == 2 ? nx_dmat2_sym_solve_single(a, b) : nx_dmat3_sym_solve_single(a, b); REQ(c, k2 && !memcmp(a, a0, sizeof(double) * s * s), "%dx%d system: not solved or matrix changed", s, s); for (int i = 0; i < s; ++i) REQ(c, near(b[i], x[i], 1e-12), "%dx%d system: solution %d is %.15g expected %.15g", s, s, i, b[i], x[i]);
        for (int i = 0; i < s * s; ++i) a[i] = 0; b[0] = 1; REQ(c, !(s == 2 ? nx_dmat2_sym_solve_single(a, b) : nx_dmat3_sym_solve_single(a, b)), "zero %dx%d system reported solved", s, s); }
}
// ---- dense products, fills, transposes ------------------------------------------------------
static void dense(Ctx &c) {
    auto &r = c.rng; auto sd = [&] { return r.coin(1, 100) ? r.logsize(12, 150) : r.i(1, 12); }; int m = sd(), n = sd(), k = r.coin(1, 12) ? 0 : sd(), st = r.i(0, 5); auto A = rnd<double>(r, m, std::max(k, 1), st, true), B = rnd<double>(r, std::max(k, 1), n, st, true); M<double> C(m, n, m + r.i(0, 3)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) C(i, j) = NAN; auto A0 = A.v, B0 = B.v; c.desc("%dx%dx%d", m, k, n); c.mixb(A.p(), A.v.size() * 8); if (m * n * k > 1) c.nt();
    nx_dmat_mul(m, n, k, A.p(), A.ld, B.p(), B.ld, C.p(), C.ld); REQ(c, A.v == A0 && B.v == B0 && C.gaps_ok(), "product changed an operand or wrote outside"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { L s = 0, a = 0; for (int q = 0; q < k; ++q) { s += (L)A(i, q) * B(q, j); a += fabsl((L)A(i, q) * B(q, j)); } REQ(c, fabsl(s - C(i, j)) <= 1e-15 * (k + 1) * a, "product at (%d,%d) is %.17g expected %.17Lg", i, j, C(i, j), s); }
    double val = r.uni(-9, 9); auto D = rnd<double>(r, m, n, 1, true); nx_dmat_set(m, n, D.p(), D.ld, val); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) REQ(c, D(i, j) == val, "fill at (%d,%d)", i, j); REQ(c, D.gaps_ok(), "fill wrote outside"); nx_dmat_set_zero(m, n, D.p(), D.ld); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) REQ(c, D(i, j) == 0, "zero fill at (%d,%d)", i, j); REQ(c, D.gaps_ok(), "zero fill wrote outside");
    int a = r.coin(1, 6) ? r.i(1, 90) : r.i(1, 12), b = r.coin(1, 6) ? r.i(1, 90) : r.i(1, 12); std::vector<double> T(a * b + 1); for (auto &x : T) x = r.uni(-1, 1); auto T0 = T; nx_dmat_transpose(a, b, T.data()); c.desc(", transpose %dx%d", a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) REQ(c, T[i * b + j] == T0[j * a + i], "transpose of %dx%d at (%d,%d)", a, b, i, j); REQ(c, T[a * b] == T0[a * b], "transpose wrote behind the matrix"); nx_dmat_transpose(b, a, T.data()); REQ(c, T == T0, "transposing %dx%d twice changed it", a, b); c.ev("products"); c.ev("transposed_elements", a * b);
}
static void text(Ctx &c) {
    auto &r = c.rng; int m = r.coin(1, 8) ? r.i(1, 80) : r.i(1, 8), n = r.coin(1, 8) ? r.i(1, 80) : r.i(1, 8); std::vector<double> A(m * n); for (auto &x : A) switch (r.i(0, 6)) { case 0: x = 0; break; case 1: x = -0.0; break; case 2: x = r.i(-1000, 1000); break; case 3: x = std::ldexp(r.uni(-1, 1), r.i(-1070, 1020)); break; case 4: x = r.coin() ? DBL_MAX : -DBL_MIN; break; default: x = r.gauss(); }
    c.desc("%dx%d text", m, n); c.mixb(A.data(), A.size() * 8); c.nt(); char *buf = NULL; size_t sz = 0; FILE *f = open_memstream(&buf, &sz); nx_dmat_xwrite(f, m, n, A.data()); fclose(f); std::string t(buf, sz); free(buf); if (r.coin(1, 4) && t.size()) t.pop_back(); // a missing final newline
    if (r.coin(1, 3)) { std::string u; for (char ch : t) { if (ch == ' ') u += r.coin() ? "\t" : "   "; else if (ch == '\n' && r.coin()) u += " \n"; else u += ch; } t = u; }
    bool ragged = m > 1 && r.coin(1, 5); if (ragged) { size_t p = t.find('\n'); t.insert(p, " 1.5"); } f = fmemopen((void *)t.data(), t.size(), "r"); int mm = -1, nn = -1; double *B = NULL; c.noleak = ragged; std::string msg; bool ok = returns(c, [&] { B = nx_dmat_xread(f, &mm, &nn); }, &msg); fclose(f); REQ(c, ok == !ragged, "%s matrix text was %s: %s", ragged ? "ragged" : "well formed", ok ? "accepted" : "rejected", msg.c_str()); if (!ok) { c.ev("ragged_rejected"); return; }
    REQ(c, mm == m && nn == n, "read %dx%d, wrote %dx%d", mm, nn, m, n); for (int i = 0; i < m * n; ++i) REQ(c, !memcmp(&A[i], &B[i], 8), "element %d read %.17g wrote %.17g", i, B[i], A[i]); nx_free(B); c.ev("text_elements", m * n);
}
// ---- fixed size kernels --------------------------------------------------------------------
template <int N, class T> static void mulref(L *C, const T *A, const T *B, L *mag) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { C[j * N + i] = 0; mag[j * N + i] = 0; for (int k = 0; k < N; ++k) { C[j * N + i] += (L)A[k * N + i] * B[j * N + k]; mag[j * N + i] += fabsl((L)A[k * N + i] * B[j * N + k]); } } }
static L det3(const L *A) { return A[0] * (A[4] * A[8] - A[5] * A[7]) - A[3] * (A[1] * A[8] - A[2] * A[7]) + A[6] * (A[1] * A[5] - A[2] * A[4]); }
static L per3(const L *A) { return fabsl(A[0] * A[4] * A[8]) + fabsl(A[0] * A[5] * A[7]) + fabsl(A[3] * A[1] * A[8]) + fabsl(A[3] * A[2] * A[7]) + fabsl(A[6] * A[1] * A[5]) + fabsl(A[6] * A[2] * A[4]); }
template <class T> static void inv_ok(Ctx &c, const char *w, const T *A, const T *Ai, double det, double eps) {
    L a[9]; for (int i = 0; i < 9; ++i) a[i] = A[i]; L d = det3(a), p = per3(a); REQ(c, fabsl(det - d) <= eps * p, "%s: determinant %.17g expected %.17Lg", w, det, d); if (d == 0 || fabsl(d) < 1e-3 * p) return; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L s = 0, m = 0; for (int k = 0; k < 3; ++k) { s += (L)A[k * 3 + i] * Ai[j * 3 + k]; m += fabsl((L)A[k * 3 + i] * Ai[j * 3 + k]); } REQ(c, fabsl(s - (i == j)) <= eps * 2000 * (1 + m), "%s: matrix times inverse at (%d,%d) is %.9Lg", w, i, j, s); } c.ev("inverses");
}
static void fixed(Ctx &c) {
    auto &r = c.rng; int st = r.i(0, 5); c.nt(); double A[16], B[16], C[16]; float fA[16], fB[16], fC[16]; for (int i = 0; i < 16; ++i) { A[i] = entry<double>(r, st); B[i] = entry<double>(r, st); fA[i] = (float)A[i]; fB[i] = (float)B[i]; C[i] = 99; fC[i] = 99; } if (r.coin(1, 10)) for (int i = 0; i < 3; ++i) { A[3 + i] = 2 * A[i]; fA[3 + i] = 2 * fA[i]; } c.desc("style %d:", st); for (int i = 0; i < 9; ++i) c.desc(" %.17g", A[i]); c.mixb(A, sizeof A); const double eps = 4e-15; const float feps = 1e-6f; L R[16], G[16];
    auto chk = [&](auto *X, int n, double e, const char *w) { for (int i = 0; i < n; ++i) REQ(c, fabsl((L)X[i] - R[i]) <= e * G[i], "%s: element %d is %.17g expected %.17Lg", w, i, (double)X[i], R[i]); };
    nx_dmat3_mul(C, A, B); mulref<3>(R, A, B, G); chk(C, 9, eps, "3x3 product"); REQ(c, C[9] == 99, "3x3 product wrote behind"); nx_smat3_mul(fC, fA, fB); mulref<3>(R, fA, fB, G); chk(fC, 9, feps, "3x3 float product"); nx_dmat4_mul(C, A, B); mulref<4>(R, A, B, G); chk(C, 16, eps, "4x4 product"); nx_smat4_mul(fC, fA, fB); mulref<4>(R, fA, fB, G); chk(fC, 16, feps, "4x4 float product");
    double U[9]; for (int i = 0; i < 9; ++i) U[i] = A[i]; U[1] = U[2] = U[5] = 0; mulref<3>(R, U, B, G); for (int i : {1, 2, 5}) U[i] = 1e200; nx_dmat3_mul_ua(C, U, B); chk(C, 9, eps, "triangular product");
    { double I[9], d = nx_dmat3_inv(I, A); inv_ok(c, "inverse", A, I, d, 1e-15 * 8); float fI[9]; float fd = nx_smat3_inv(fI, fA); L a[9]; for (int i = 0; i < 9; ++i) a[i] = fA[i]; if (fabsl(det3(a)) > 1e-30L && per3(a) < 1e30L) inv_ok(c, "float inverse", fA, fI, fd, 6e-7 * 2); float gI[9]; double gd = nx_sdmat3_inv(gI, fA); L da = det3(a); REQ(c, fabsl(gd - da) <= 1e-14 * per3(a), "mixed determinant %.17g expected %.17Lg", gd, da); if (fabsl(da) > 1e-3 * per3(a)) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L s = 0, m = 0; for (int k = 0; k < 3; ++k) { s += (L)fA[k * 3 + i] * gI[j * 3 + k]; m += fabsl((L)fA[k * 3 + i] * gI[j * 3 + k]); } REQ(c, fabsl(s - (i == j)) <= 1e-6 * (1 + m), "mixed inverse at (%d,%d): %.9Lg", i, j, s); }
      double Z[9], q[9]; for (auto &x : q) x = 7; nx_dmat3_set_zero(Z); REQ(c, nx_dmat3_inv(q, Z) == 0, "determinant of the zero matrix"); for (auto x : q) REQ(c, x == 0, "inverse of the zero matrix");
      float S[9], w[9], w2[9]; for (int i = 0; i < 9; ++i) { S[i] = (float)c.rng.i(-9, 9); w[i] = w2[i] = 7; } int dead = c.rng.i(0, 2); bool col = c.rng.coin(); for (int i = 0; i < 3; ++i) S[col ? 3 * dead + i : 3 * i + dead] = 0; REQ(c, nx_smat3_inv(w, S) == 0 && nx_sdmat3_inv(w2, S) == 0, "determinant of a singular matrix"); for (auto x : w) REQ(c, x == 0, "float inverse of a singular matrix"); for (auto x : w2) REQ(c, x == 0, "mixed inverse of a singular matrix"); c.ev("singular"); }
    { L a[9]; for (int i = 0; i < 9; ++i) a[i] = A[i]; REQ(c, fabsl(nx_dmat3_det(A) - det3(a)) <= 8e-15 * per3(a), "determinant %.17g expected %.17Lg", nx_dmat3_det(A), det3(a)); L s = 0; for (int i = 0; i < 9; ++i) s += a[i] * a[i]; REQ(c, near(nx_dmat3_frob_norm(A), (double)sqrtl(s), 0, 1e-14), "Frobenius norm"); double v[3] = {B[0], B[1], B[2]}, v0[3] = {B[0], B[1], B[2]}; nx_dmat3_transform(A, v); for (int i = 0; i < 3; ++i) { L t = 0, g = 0; for (int k = 0; k < 3; ++k) { t += a[k * 3 + i] * v0[k]; g += fabsl(a[k * 3 + i] * v0[k]); } REQ(c, fabsl(t - v[i]) <= eps * g, "transform element %d: %.17g expected %.17Lg", i, v[i], t); }
      L x[3] = {B[3], B[4], 1}, xp[3] = {B[5], B[6], 1}, t = 0, g = 0; double xd[2] = {B[3], B[4]}, xpd[2] = {B[5], B[6]}; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { t += xp[i] * a[k * 3 + i] * x[k]; g += fabsl(xp[i] * a[k * 3 + i] * x[k]); } REQ(c, fabsl(t - nx_dmat3_xptFx(A, xd, xpd)) <= eps * g, "bilinear form %.17g expected %.17Lg", nx_dmat3_xptFx(A, xd, xpd), t);
      double D[9]; nx_dmat3_copy(D, A); REQ(c, !memcmp(D, A, 72), "copy"); nx_dmat3_sub(D, B); for (int i = 0; i < 9; ++i) REQ(c, D[i] == A[i] - B[i], "difference"); nx_dmat3_eye(D); for (int i = 0; i < 9; ++i) REQ(c, D[i] == (i % 4 == 0), "identity"); nx_dmat3_set_zero(D); for (auto q : D) REQ(c, q == 0, "zero"); nx_smat3_set_zero(fC); for (int i = 0; i < 9; ++i) REQ(c, fC[i] == 0, "float zero"); nx_dmat4_eye(C); for (int i = 0; i < 16; ++i) REQ(c, C[i] == (i % 5 == 0), "4x4 identity"); nx_dmat4_to_s(fC, B); for (int i = 0; i < 16; ++i) REQ(c, fC[i] == (float)B[i], "single precision copy");
      double Q[16]; memcpy(Q, B, sizeof Q); nx_dmat4_set_rotation(Q, A); double tr[3] = {5, 6, 7}; nx_dmat4_set_translation(Q, tr); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double e = i < 3 && j < 3 ? A[j * 3 + i] : i < 3 ? tr[i] : B[j * 4 + i]; REQ(c, Q[j * 4 + i] == e, "rotation/translation block at (%d,%d)", i, j); } }
    { double UU[9], S[3], Vt[9], A0[9]; memcpy(A0, A, 72); nx_dmat3_svd(A, UU, S, Vt); REQ(c, !memcmp(A, A0, 72), "3x3 decomposition changed its input"); REQ(c, S[0] >= S[1] && S[1] >= S[2] && S[2] >= 0, "3x3 singular values"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L s = 0; for (int k = 0; k < 3; ++k) s += (L)UU[k * 3 + i] * S[k] * Vt[j * 3 + k]; REQ(c, fabsl(s - A[j * 3 + i]) <= 2e-14 * S[0], "3x3 factors at (%d,%d)", i, j); } }
    { double cr[3]; nx_dvec3_cross(cr, A, B); for (int i = 0; i < 3; ++i) { int p = (i + 1) % 3, q = (i + 2) % 3; L e = (L)A[p] * B[q] - (L)A[q] * B[p], g = fabsl((L)A[p] * B[q]) + fabsl((L)A[q] * B[p]); REQ(c, fabsl(e - cr[i]) <= eps * g, "cross product element %d", i); } L d = 0, g = 0, ns = 0, fd = 0, fg = 0, fn = 0, fq = 0; for (int i = 0; i < 3; ++i) { d += (L)A[i] * B[i]; g += fabsl((L)A[i] * B[i]); ns += (L)A[i] * A[i]; fd += (L)fA[i] * fB[i]; fg += fabsl((L)fA[i] * fB[i]); fn += (L)fA[i] * fA[i]; fq += ((L)fA[i] - fB[i]) * ((L)fA[i] - fB[i]); }
      REQ(c, fabsl(d - nx_dvec3_dot(A, B)) <= eps * g, "dot product"); REQ(c, near(nx_dvec3_norm_sq(A), (double)ns, 0, 1e-14) && near(nx_dvec3_norm(A), (double)sqrtl(ns), 0, 1e-14), "norm"); REQ(c, fabsl(fd - nx_svec3_dot(fA, fB)) <= feps * fg, "float dot product"); REQ(c, near(nx_svec3_norm_sq(fA), (double)fn, 1e-37, 1e-6), "float norm"); REQ(c, near(nx_svec3_dist_sq(fA, fB), (double)fq, 1e-37 , 1e-5), "float distance %g expected %Lg", nx_svec3_dist_sq(fA, fB), fq); double u[3] = {A[0], A[1], A[2]}; double nn = nx_dvec3_to_unit(u); REQ(c, near(nn, (double)sqrtl(ns), 0, 1e-14), "unit vector: returned norm"); for (int i = 0; i < 3; ++i) REQ(c, ns > 0 ? near(u[i], A[i] / nn, 0, 1e-14) : u[i] == A[i], "unit vector element %d", i); float h[4] = {fA[0], fA[1], fA[2], (float)r.uni(0.1, 5) * (r.coin() ? 1 : -1)}; float w = h[3]; REQ(c, nx_svec4h_to_euclidean(h) == w && h[3] == 1, "homogeneous scale"); for (int i = 0; i < 3; ++i) REQ(c, near(h[i], fA[i] / w, 1e-37, 1e-6), "homogeneous element %d", i); double q[4] = {0, 0, 0, 8}; nx_dvec3_copy(q, B); REQ(c, !memcmp(q, B, 24) && q[3] == 8, "vector copy"); }
    c.ev("fixed_size_rounds");
}
static void vectors(Ctx &c) {
    auto &r = c.rng; int n = 1 + r.size(60, 3000), st = r.i(0, 5); c.desc("n %d style %d", n, st); std::vector<double> x(n + 1), y(n + 1); std::vector<float> f(n + 1); std::vector<int> v(n + 1); std::vector<uchar> a(n), b(n); for (int i = 0; i <= n; ++i) { x[i] = entry<double>(r, st); y[i] = entry<double>(r, st); f[i] = (float)x[i]; v[i] = st == 0 ? r.i(-2, 2) : st == 1 ? INT_MIN + r.i(0, 1) : (int)r.next(); } for (auto &q : a) q = r.coin() ? r.i(0, 255) : 255; for (auto &q : b) q = r.coin() ? r.i(0, 255) : 0; if (r.coin(1, 20)) std::fill(f.begin(), f.end(), -FLT_MAX); c.mixb(x.data(), n * 8); if (n > 1) c.nt();
    L s = 0, fs = 0; for (int i = 0; i < n; ++i) { s += (L)x[i] * x[i]; fs += (L)f[i] * f[i]; } REQ(c, near(nx_dvec_norm_sq(n, x.data()), (double)s, 0, 1e-15 * (n + 4)) && near(nx_dvec_norm(n, x.data()), (double)sqrtl(s), 0, 1e-15 * (n + 4)), "norm"); if (fs < 1e30L) REQ(c, near(nx_svec_norm_sq(n, f.data()), (double)fs, 1e-37, 1e-7 * (n + 9)) && near(nx_svec_norm(n, f.data()), (double)sqrtl(fs), 1e-18, 1e-7 * (n + 9)), "float norm");
    int mi = 0; for (int i = 1; i < n; ++i) if (f[i] > f[mi]) mi = i; REQ(c, nx_svec_max_idx(n, f.data()) == mi, "largest of %d floats at %d expected %d", n, nx_svec_max_idx(n, f.data()), mi); REQ(c, nx_svec_max_val(n, f.data()) == f[mi], "largest float"); int vi = 0; for (int i = 1; i < n; ++i) if (v[i] > v[vi]) vi = i; REQ(c, nx_ivec_max_idx(n, v.data()) == vi, "largest of %d ints at %d expected %d", n, nx_ivec_max_idx(n, v.data()), vi); REQ(c, nx_svec_max_idx(0, f.data()) == -1 && nx_ivec_max_idx(0, v.data()) == -1, "largest of nothing");
    int d = 0; for (int i = 0; i < n; ++i) d += ((int)a[i] - b[i]) * ((int)a[i] - b[i]); REQ(c, nx_ucvec_dist_sq(n, a.data(), b.data()) == d, "octet distance %d expected %d", nx_ucvec_dist_sq(n, a.data(), b.data()), d);
    double al = r.uni(-3, 3); auto y0 = y; nx_dvec_axpy(n, y.data(), al, x.data()); for (int i = 0; i < n; ++i) REQ(c, fabsl((L)y0[i] + (L)al * x[i] - y[i]) <= 4e-16 * (fabs(y0[i]) + fabs(al * x[i])), "axpy element %d", i); REQ(c, y[n] == y0[n], "axpy wrote behind"); nx_dvec_copy(n, y.data(), x.data()); REQ(c, !memcmp(y.data(), x.data(), n * 8) && y[n] == y0[n], "copy"); nx_dvec_set(n, y.data(), al); for (int i = 0; i < n; ++i) REQ(c, y[i] == al, "fill"); REQ(c, y[n] == y0[n], "fill wrote behind"); nx_dvec_set_zero(n, y.data()); for (int i = 0; i < n; ++i) REQ(c, y[i] == 0, "zero"); REQ(c, y[n] == y0[n], "zero wrote behind");
    auto f0 = f; if (fs > 1e-30L && fs < 1e30L) { float nn = nx_svec_to_unit(n, f.data()); REQ(c, near(nn, (double)sqrtl(fs), 1e-18, 1e-6 * (n + 4)), "returned norm"); for (int i = 0; i < n; ++i) REQ(c, near(f[i], f0[i] / nn, 1e-37, 1e-6), "unit vector element %d", i); } REQ(c, f[n] == f0[n], "unit vector wrote behind"); nx_svec_set_zero(n, f.data()); for (int i = 0; i < n; ++i) REQ(c, f[i] == 0, "float zero"); REQ(c, nx_svec_to_unit(n, f.data()) == 0, "norm of zero"); for (int i = 0; i < n; ++i) REQ(c, f[i] == 0, "normalised zero vector"); REQ(c, f[n] == f0[n], "float zero wrote behind"); int vn = v[n]; nx_ivec_set_zero(n, v.data()); for (int i = 0; i < n; ++i) REQ(c, v[i] == 0, "int zero"); REQ(c, v[n] == vn, "int zero wrote behind"); c.ev("vector_rounds");
}
static void printing(Ctx &c) { // matrices shown to people: rows in order, elements from the right places
    auto &r = c.rng; int kind = r.i(0, 4); c.nt(); double A[16]; float S[16]; for (int i = 0; i < 16; ++i) { A[i] = r.coin(1, 5) ? r.i(-3, 3) : r.uni(-999, 999); S[i] = (float)A[i]; } bool lab = kind == 4 || r.coin(); std::string l; for (int i = r.i(1, 12); i > 0; --i) l += (char)r.i('A', 'z'); c.mixb(A, sizeof A); c.mix(kind); c.desc("printing kind %d", kind);
    Outcome o = fork_run([&] { const char *t = lab ? l.c_str() : nullptr; switch (kind) { case 0: nx_smat4_print(S, t); break; case 1: nx_dmat3_print(A, t); break; case 2: nx_dmat34_print(A, t); break; case 3: nx_dmat4_print(A, t); break; default: nx_dvec3_print(A, t); } fflush(stdout); }); REQ(c, o.kind == RETURNED, "printing ended as %s", kind_name(o.kind));
    int rows = kind == 0 || kind == 3 ? 4 : kind == 4 ? 1 : 3, cols = kind == 0 || kind == 2 || kind == 3 ? 4 : 3; if (lab) REQ(c, o.out.compare(0, l.size(), l) == 0, "label %s is not first in %s", l.c_str(), escape(o.out).c_str()); size_t p = lab ? l.size() : 0; for (int i = 0; i < rows; ++i) { size_t b = o.out.find('[', p), e = b == std::string::npos ? b : o.out.find(']', b); REQ(c, e != std::string::npos, "row %d is missing in %s", i, escape(o.out).c_str()); std::string row = o.out.substr(b + 1, e - b - 1); for (auto &ch : row) if (ch == '|') ch = ' '; const char *q = row.c_str(); for (int j = 0; j < cols; ++j) { char *z; double g = strtod(q, &z), w = kind == 0 ? S[i + 4 * j] : kind == 4 ? A[j] : A[i + rows * j]; REQ(c, z != q && std::fabs(g - w) <= 6e-5, "printed element %d,%d is %s expected %.6f", i, j, q, w); q = z; } REQ(c, strspn(q, " ") == strlen(q), "more elements in row %d", i); p = e + 1; } REQ(c, o.out.find('[', p) == std::string::npos, "more rows"); c.ev("printed"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"dsvd", svd<double>, 3000, 60000}, {"ssvd", svd<float>, 3000, 60000}, {"printing", printing, 200, 3000}, {"solve", solve, 4000, 80000}, {"dense", dense, 4000, 80000}, {"text", text, 3000, 60000}, {"fixed", fixed, 20000, 400000}, {"vectors", vectors, 8000, 160000}}); }
