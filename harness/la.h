// Reference linear algebra in long double, independent of the library, and conversions.
#pragma once
#include "pbt.h"
#include "wrappers/matrix/matrix_wrapper.h"
#include "wrappers/matrix/vector_wrapper.h"
#include "wrappers/rng/rng.h"

typedef long double R;
using pbt::Gen; using pbt::str; using pbt::fail;
namespace MW = MatrixWrapper;

struct Vec {
  std::vector<R> v; Vec() {} explicit Vec(int n, R x = 0) : v(n, x) {}
  int n() const { return (int)v.size(); }
  R& operator[](int i) { return v[i]; } R operator[](int i) const { return v[i]; }
};
struct Mat {
  int r, c; std::vector<R> a; Mat() : r(0), c(0) {} Mat(int r_, int c_, R x = 0) : r(r_), c(c_), a(r_ * c_, x) {}
  R& operator()(int i, int j) { return a[i * c + j]; } R operator()(int i, int j) const { return a[i * c + j]; }
  static Mat I(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
};
inline Mat operator*(const Mat& x, const Mat& y) { Mat m(x.r, y.c); for (int i = 0; i < x.r; i++) for (int k = 0; k < x.c; k++) for (int j = 0; j < y.c; j++) m(i, j) += x(i, k) * y(k, j); return m; }
inline Vec operator*(const Mat& x, const Vec& y) { Vec m(x.r); for (int i = 0; i < x.r; i++) for (int k = 0; k < x.c; k++) m[i] += x(i, k) * y[k]; return m; }
inline Mat operator+(const Mat& x, const Mat& y) { Mat m(x); for (size_t i = 0; i < m.a.size(); i++) m.a[i] += y.a[i]; return m; }
inline Mat operator-(const Mat& x, const Mat& y) { Mat m(x); for (size_t i = 0; i < m.a.size(); i++) m.a[i] -= y.a[i]; return m; }
inline Mat operator*(R s, const Mat& y) { Mat m(y); for (auto& e : m.a) e *= s; return m; }
inline Vec operator+(const Vec& x, const Vec& y) { Vec m(x); for (int i = 0; i < m.n(); i++) m[i] += y[i]; return m; }
inline Vec operator-(const Vec& x, const Vec& y) { Vec m(x); for (int i = 0; i < m.n(); i++) m[i] -= y[i]; return m; }
inline Vec operator*(R s, const Vec& y) { Vec m(y); for (auto& e : m.v) e *= s; return m; }
inline Mat T(const Mat& x) { Mat m(x.c, x.r); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) m(j, i) = x(i, j); return m; }
inline R dot(const Vec& x, const Vec& y) { R s = 0; for (int i = 0; i < x.n(); i++) s += x[i] * y[i]; return s; }
inline Mat outer(const Vec& x, const Vec& y) { Mat m(x.n(), y.n()); for (int i = 0; i < x.n(); i++) for (int j = 0; j < y.n(); j++) m(i, j) = x[i] * y[j]; return m; }
inline R maxabs(const Mat& x) { R s = 0; for (R e : x.a) s = std::max(s, (R)fabsl(e)); return s; }
inline R maxabs(const Vec& x) { R s = 0; for (R e : x.v) s = std::max(s, (R)fabsl(e)); return s; }
inline Mat symmetrize(const Mat& m) { return (R)0.5 * (m + T(m)); }
// Gauss elimination with full row pivoting; det and inverse
inline R det_inv(const Mat& A, Mat* inv) {
  int n = A.r; Mat m(A), v = Mat::I(n); R det = 1;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (fabsl(m(i, k)) > fabsl(m(p, k))) p = i;
    if (m(p, k) == 0) return 0;
    if (p != k) { det = -det; for (int j = 0; j < n; j++) { std::swap(m(p, j), m(k, j)); std::swap(v(p, j), v(k, j)); } }
    R d = m(k, k); det *= d;
    for (int j = 0; j < n; j++) { m(k, j) /= d; v(k, j) /= d; }
    for (int i = 0; i < n; i++) if (i != k) { R f = m(i, k); if (f != 0) for (int j = 0; j < n; j++) { m(i, j) -= f * m(k, j); v(i, j) -= f * v(k, j); } }
  }
  if (inv) *inv = v;
  return det;
}
inline Mat inv(const Mat& A) { Mat v; if (det_inv(A, &v) == 0) { v = Mat(A.r, A.r); for (auto& e : v.a) e = NAN; } return v; }
inline R det(const Mat& A) { return det_inv(A, 0); }
// Jacobi eigenvalues of a symmetric matrix
inline std::vector<R> eigs(Mat A) {
  int n = A.r;
  for (int sweep = 0; sweep < 60; sweep++) {
    R off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A(i, j) * A(i, j);
    if (off <= 1e-34L * maxabs(A) * maxabs(A)) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (A(p, q) == 0) continue;
      R th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { R x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
      for (int k = 0; k < n; k++) { R x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
    }
  }
  std::vector<R> e(n); for (int i = 0; i < n; i++) e[i] = A(i, i); std::sort(e.begin(), e.end()); return e;
}
inline R cond_sym(const Mat& A) { std::vector<R> e = eigs(A); if (e.empty()) return 1; for (R x : e) if (!std::isfinite(x)) return 1e300L; R lo = fabsl(e[0]), hi = 0; for (R x : e) { lo = std::min(lo, (R)fabsl(x)); hi = std::max(hi, (R)fabsl(x)); } return lo == 0 ? 1e300L : hi / lo; }

// ---- conversions ----
inline MW::Matrix toM(const Mat& m) { MW::Matrix o(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i + 1, j + 1) = (double)m(i, j); return o; }
inline MW::SymmetricMatrix toS(const Mat& m) { MW::SymmetricMatrix o(m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i + 1, j + 1) = (double)m(i, j); return o; }
inline MW::ColumnVector toC(const Vec& v) { MW::ColumnVector o(v.n()); for (int i = 0; i < v.n(); i++) o(i + 1) = (double)v[i]; return o; }
inline MW::RowVector toRv(const Vec& v) { MW::RowVector o(v.n()); for (int i = 0; i < v.n(); i++) o(i + 1) = (double)v[i]; return o; }
inline Mat fromM(const MW::Matrix& m) { Mat o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }
inline Mat fromS(const MW::SymmetricMatrix& m) { Mat o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }
inline Vec fromC(const MW::ColumnVector& v) { Vec o(v.rows()); for (int i = 0; i < o.n(); i++) o[i] = v(i + 1); return o; }
inline Vec fromRv(const MW::RowVector& v) { Vec o(v.columns()); for (int i = 0; i < o.n(); i++) o[i] = v(i + 1); return o; }

inline std::string show(const Vec& v) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < v.n(); i++) o << (i ? " " : "") << (double)v[i]; o << "]"; return o.str(); }
inline std::string show(const Mat& m) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < m.r; i++) { if (i) o << "; "; for (int j = 0; j < m.c; j++) o << (j ? " " : "") << (double)m(i, j); } o << "]"; return o.str(); }

// ---- comparison: |got - want| <= tol * (scale) elementwise, NaN fails ----
inline bool close(R got, R want, R tol, R scale) { return fabsl(got - want) <= tol * scale; }
inline void same(const char* what, const Vec& got, const Vec& want, R tol = 1e-9L, R scale = -1) {
  if (got.n() != want.n()) fail(str(what, ": size ", got.n(), " instead of ", want.n()));
  R s = scale >= 0 ? scale : std::max((R)1e-300L, maxabs(want));
  for (int i = 0; i < got.n(); i++) if (!close(got[i], want[i], tol, s)) fail(str(what, ": element ", i + 1, " got ", show(got), " expected ", show(want)));
}
inline void same(const char* what, const Mat& got, const Mat& want, R tol = 1e-9L, R scale = -1) {
  if (got.r != want.r || got.c != want.c) fail(str(what, ": shape ", got.r, "x", got.c, " instead of ", want.r, "x", want.c));
  R s = scale >= 0 ? scale : std::max((R)1e-300L, maxabs(want));
  for (int i = 0; i < got.r; i++) for (int j = 0; j < got.c; j++) if (!close(got(i, j), want(i, j), tol, s)) fail(str(what, ": element (", i + 1, ",", j + 1, ") got ", show(got), " expected ", show(want)));
}
inline void same(const char* what, R got, R want, R tol = 1e-9L, R scale = -1) {
  R s = scale >= 0 ? scale : std::max((R)1e-300L, (R)fabsl(want));
  if (!close(got, want, tol, s)) fail(str(what, ": got ", (double)got, " expected ", (double)want));
}

// ---- generators (values on dyadic grids so that products stay nearly exact) ----
inline Vec genVec(Gen& g, int n, double a = 4) { Vec v(n); for (int i = 0; i < n; i++) v[i] = g.real(a); return v; }
inline Mat genMat(Gen& g, int r, int c, double a = 4) { Mat m(r, c); for (auto& e : m.a) e = g.real(a); return m; }
inline Mat roundD(const Mat& m) { Mat o(m); for (auto& e : o.a) e = (double)e; return o; }
inline Vec roundD(const Vec& m) { Vec o(m); for (auto& e : o.v) e = (double)e; return o; }
// symmetric positive definite, condition number moderate
inline Mat genSPD(Gen& g, int n, double scale = 1) {
  Mat L(n, n);
  bool diag = g.chance(1, 6);
  for (int i = 0; i < n; i++) { L(i, i) = 0.5 + g.pos(1.5); if (!diag) for (int j = 0; j < i; j++) L(i, j) = g.real(1.0); }
  return roundD(symmetrize((R)scale * (L * T(L))));
}
inline double genScale(Gen& g) { switch (g.raw(8)) { case 5: return 1e-4; case 6: return 1e4; case 7: return std::pow(10.0, g.range(-6, 6)); default: return 1; } }
// now and then larger than usual, for defects that only show from some size on
inline int genDim(Gen& g, int hi) { if (g.chance(1, 30)) return g.range(1, hi + 5); return g.range(1, hi); }
// new values related to the old ones: equal, one entry changed, sign or order changed, otherwise fresh
inline Vec mutVec(Gen& g, const Vec& o, double a = 4) {
  Vec v(o); int n = o.n();
  switch (g.raw(8)) { case 0: case 1: case 2: case 3: return genVec(g, n, a); case 4: if (n) v[g.raw(n)] = g.real(a); return v; case 5: for (auto& e : v.v) e = -e; return v; case 6: std::reverse(v.v.begin(), v.v.end()); return v; default: return v; }
}
inline Mat mutMat(Gen& g, const Mat& o, double a = 4) {
  Mat v(o);
  switch (g.raw(8)) { case 0: case 1: case 2: case 3: return genMat(g, o.r, o.c, a); case 4: if (v.a.size()) v.a[g.raw(v.a.size())] = g.real(a); return v; case 5: for (auto& e : v.a) e = -e; return v; case 6: if (o.r == o.c) return T(o); return v; default: return v; }
}
// stays positive definite: equal, same diagonal, same determinant, same trace, scaled
inline Mat mutSPD(Gen& g, const Mat& o, double scale = 1) {
  int n = o.r; Mat v(o);
  switch (g.raw(10)) {
    case 0: case 1: case 2: case 3: return genSPD(g, n, scale);
    case 4: { std::vector<int> s(n); for (auto& x : s) x = g.chance(1, 2) ? -1 : 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v(i, j) *= s[i] * s[j]; return v; }
    case 5: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) v(i, j) *= 0.5L; return v;
    case 6: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v(i, j) = o(n - 1 - i, n - 1 - j); return v;
    case 7: { int i = (int)g.raw(n); v(i, i) = (double)(v(i, i) * 2); return v; }
    case 8: return (R)(g.chance(1, 2) ? 0.25 : 4) * o;
    default: return v; }
}
