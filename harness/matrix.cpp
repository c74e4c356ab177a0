// P01: matrix / vector algebra.  P02: inverse, determinant, Cholesky, SVD, pseudo-inverse.
#include "la.h"
using namespace pbt;
using MW::Matrix; using MW::SymmetricMatrix; using MW::ColumnVector; using MW::RowVector;

static Mat addS(const Mat& a, R s) { Mat m(a); for (auto& e : m.a) e += s; return m; }
static Vec addS(const Vec& a, R s) { Vec m(a); for (auto& e : m.v) e += s; return m; }
static Mat absM(const Mat& a) { Mat m(a); for (auto& e : m.a) e = fabsl(e); return m; }
static Vec absV(const Vec& a) { Vec m(a); for (auto& e : m.v) e = fabsl(e); return m; }
static const R EPS = 1e-14L;
static Mat genSym(Gen& g, int n, double a) { Mat m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = g.real(a); return m; }
static Mat blk(const Mat& m, int i0, int i1, int j0, int j1) { Mat o(i1 - i0 + 1, j1 - j0 + 1); for (int i = i0; i <= i1; i++) for (int j = j0; j <= j1; j++) o(i - i0, j - j0) = m(i - 1, j - 1); return o; }
static Vec seg(const Vec& m, int i0, int i1) { Vec o(i1 - i0 + 1); for (int i = i0; i <= i1; i++) o[i - i0] = m[i - 1]; return o; }
static R nudge(Gen& g) { return powl(10.0L, -g.range(1, 10)) * (g.chance(1, 2) ? -1 : 1); } // far above rounding
static R big(const Mat& a, const Mat& b) { return 1e-290L + maxabs(absM(a) * absM(b)); }

// a register machine over matrices: random operations, mirrored in long double
static void p01_matrix(Gen& g) {
  double sc = genScale(g);
  int r = genDim(g, 6), c = genDim(g, 6);
  Mat a = roundD((R)sc * genMat(g, r, c)); Matrix A = toM(a);
  g.note("A ", r, "x", c, " = ", show(a));
  int ops = g.count(1, 8, 40);
  for (int k = 0; k < ops; k++) {
    R sa = 1e-290L + maxabs(a);
    int op = g.range(0, 24);
    g.label(str("op", op)); g.note("op ", op);
    switch (op) {
      case 23: { // assignment over objects of another size, conversions from a symmetric matrix
        int n = genDim(g, 5); Mat b = roundD((R)sc * genSym(g, n, 4)); SymmetricMatrix S = toS(b); Matrix D, E(genDim(g, 5), genDim(g, 5)); E = 0.0; g.note("symmetric ", show(b));
        D = A; same("assigned to a default-constructed matrix", fromM(D), a, 0, 1); E = A; same("assigned over another size", fromM(E), a, 0, 1); same("A unchanged by assignment", fromM(A), a, 0, 1);
        Mat q = genMat(g, a.r, n, 2); Matrix P = toM(q) * (Matrix)S; same("matrix*symmetric", fromM(P), q * b, EPS, big(q, b));
        A = S; a = b; same("symmetric operand unchanged", fromS(S), b, 0, 1); S(1, 1) = S(1, 1) + std::max((double)maxabs(b), 1.0); g.mark(); break; }
      case 24: { bool keep = g.chance(1, 2); int i = genDim(g, 6), j = genDim(g, 6); g.note("resize ", i, "x", j, " copy=", keep); A.resize(i, j, keep, g.chance(1, 2)); REQUIRE((int)A.rows() == i && (int)A.columns() == j, "resize gives ", A.rows(), "x", A.columns());
        Mat b(i, j); for (int x = 0; x < i; x++) for (int y = 0; y < j; y++) if (keep && x < a.r && y < a.c) b(x, y) = a(x, y); else { double v = g.real(sc); A(x + 1, y + 1) = v; b(x, y) = v; }
        a = b; break; }
      case 22: { // operand and result are the same object
        int w = g.range(0, a.r == a.c ? 5 : 4); g.note("aliased ", w); int i = g.range(1, a.r), j = g.range(1, a.c); R e = a(i - 1, j - 1); Matrix& B = A;
        switch (w) { case 0: A += B; a = a + a; break; case 1: A -= B; a = a - a; break; case 2: A = B; break; case 3: if (fabsl(e) < 1e3L) { A *= A(i, j); a = e * a; } break; case 4: A += A(i, j); a = addS(a, e); break; case 5: { if (sa > 1e3L) break; Mat p = a * a; A = A * B; same("square", fromM(A), p, EPS, big(a, a)); a = fromM(A); break; } } break; }
      case 0: { int i = g.range(1, a.r), j = g.range(1, a.c); double v = g.real(sc); A(i, j) = v; a(i - 1, j - 1) = v; break; }
      case 1: { double s = g.real(sc); A += s; a = addS(a, s); break; }
      case 2: { double s = g.real(sc); A -= s; a = addS(a, -s); break; }
      case 3: { double s = g.real(2); A *= s; a = (R)s * a; break; }
      case 4: { double s = g.nonzero(2); A /= s; a = (1 / (R)s) * a; break; }
      case 5: { double s = g.real(sc); Matrix B = A + s; same("A unchanged by A+s", fromM(A), a, 0, 1); A = B; a = addS(a, s); break; }
      case 6: { double s = g.real(sc); A = A - s; a = addS(a, -s); break; }
      case 7: { double s = g.real(2); A = A * s; a = (R)s * a; break; }
      case 8: { double s = g.nonzero(2); A = A / s; a = (1 / (R)s) * a; break; }
      case 9: { Mat b = roundD((R)sc * genMat(g, a.r, a.c)); Matrix B = toM(b); A += B; same("B unchanged", fromM(B), b, 0, 1); a = a + b; break; }
      case 10: { Mat b = roundD((R)sc * genMat(g, a.r, a.c)); A -= toM(b); a = a - b; break; }
      case 11: { Mat b = roundD((R)sc * genMat(g, a.r, a.c)); Matrix Cc = A + toM(b); same("A unchanged", fromM(A), a, 0, 1); A = Cc; a = a + b; break; }
      case 12: { Mat b = roundD((R)sc * genMat(g, a.r, a.c)); A = A - toM(b); a = a - b; break; }
      case 13: { int n = genDim(g, 6); Mat b = genMat(g, a.c, n, 2); Matrix B = toM(b), P = A * B; Mat p = a * b; g.note("B=", show(b)); same("product", fromM(P), p, EPS, big(a, b)); same("A unchanged by product", fromM(A), a, 0, 1); A = P; a = p; if (a.r != a.c || n > 1) g.mark(); break; }
      case 14: { Vec b = genVec(g, a.c); ColumnVector p = A * toC(b); same("matrix*vector", fromC(p), a * b, EPS, 1e-290L + maxabs(absM(a) * absV(b))); break; }
      case 15: { Matrix B = A.transpose(); same("A unchanged by transpose", fromM(A), a, 0, 1); A = B; a = T(a); break; }
      case 16: { int i = g.range(1, a.r); RowVector v = A.rowCopy(i); Vec w(a.c); for (int j = 0; j < a.c; j++) w[j] = a(i - 1, j); g.note("row ", i); same("rowCopy", fromRv(v), w, 0, 1); same("row by index", fromRv(A[i]), w, 0, 1); v(1) = v(1) + 1; same("A independent of row copy", fromM(A), a, 0, 1); break; }
      case 17: { int j = g.range(1, a.c); ColumnVector v = A.columnCopy(j); Vec w(a.r); for (int i = 0; i < a.r; i++) w[i] = a(i, j - 1); g.note("column ", j); same("columnCopy", fromC(v), w, 0, 1); break; }
      case 18: { int i0 = g.range(1, a.r), i1 = g.range(i0, a.r), j0 = g.range(1, a.c), j1 = g.range(j0, a.c); g.note("sub ", i0, " ", i1, " ", j0, " ", j1); A = A.sub(i0, i1, j0, j1); a = blk(a, i0, i1, j0, j1); g.mark(); break; }
      case 19: { int i = genDim(g, 6), j = genDim(g, 6); g.note("resize ", i, "x", j); A.resize(i, j); REQUIRE((int)A.rows() == i && (int)A.columns() == j, "resize gives ", A.rows(), "x", A.columns());
                 Mat b(i, j); for (int x = 0; x < i; x++) for (int y = 0; y < j; y++) if (x < a.r && y < a.c) { b(x, y) = a(x, y); REQUIRE(A(x + 1, y + 1) == (double)a(x, y), "resize with copy lost element (", x + 1, ",", y + 1, ")"); } else { double v = g.real(sc); A(x + 1, y + 1) = v; b(x, y) = v; }
                 a = b; break; }
      case 20: { double s = g.real(sc); A = s; for (auto& e : a.a) e = s; break; }
      case 21: { // comparison and copies
        Matrix B(A); REQUIRE(A == B, "copy not equal");
        int i = g.range(1, a.r), j = g.range(1, a.c); B(i, j) = B(i, j) + std::max((double)sa, 1.0); REQUIRE(!(A == B), "matrices differing at (", i, ",", j, ") compare equal");
        Matrix N(A); N(i, j) = N(i, j) + (double)(sa * nudge(g)); REQUIRE(!(A == N), "matrices differing slightly at (", i, ",", j, ") compare equal");
        same("A independent of its copy", fromM(A), a, 0, 1);
        Matrix Cc(a.c + 1, a.r); Cc = 0; REQUIRE(!(A == Cc), "matrices of different shape compare equal"); break; }
    }
    REQUIRE((int)A.rows() == a.r && (int)A.columns() == a.c && (int)A.size() == a.r && (int)A.capacity() == a.r, "rows ", A.rows(), " columns ", A.columns(), " size ", A.size(), " of a ", a.r, "x", a.c, " matrix");
    same("matrix", fromM(A), a, 1e-13L, std::max(sa, (R)(1e-290L + maxabs(a))));
    a = fromM(A);
  }
  if (ops > 2) g.mark();
}
static void p01_sym(Gen& g) {
  double sc = genScale(g); int n = genDim(g, 6);
  Mat a = roundD((R)sc * genSym(g, n, 4)); SymmetricMatrix A(n);
  bool lower = g.chance(1, 2); // filling one triangle defines the matrix
  for (int i = 1; i <= n; i++) for (int j = 1; j <= i; j++) { double v = (double)a(i - 1, j - 1); A(i, j) = v; A(j, i) = v; (void)lower; }
  g.note("S n=", n, " = ", show(a));
  int ops = g.count(1, 8, 40);
  for (int k = 0; k < ops; k++) {
    R sa = 1e-290L + maxabs(a); n = a.r;
    int op = g.range(0, 27); g.label(str("op", op)); g.note("op ", op);
    switch (op) {
      case 27: { double s = g.real(sc); SymmetricMatrix D, E(genDim(g, 5)); E = 0.0; D = A; same("assigned to a default-constructed symmetric matrix", fromS(D), a, 0, 1); E = A; same("assigned over another size", fromS(E), a, 0, 1); D = s; same("symmetric matrix set to a scalar", fromS(D), Mat(n, n) + addS(Mat(n, n), s), 0, 1); same("S independent of its copies", fromS(A), a, 0, 1);
        int m = genDim(g, 5); E.resize(m, false); REQUIRE((int)E.rows() == m && (int)E.columns() == m, "resize gives ", E.rows(), "x", E.columns()); E = A; same("assigned after a resize", fromS(E), a, 0, 1);
        Matrix M(genDim(g, 5), genDim(g, 5)); M = 0.0; M = A; same("matrix of another size from symmetric", fromM(M), a, 0, 1); M(1, n) = M(1, n) + std::max((double)sa, 1.0); same("S independent of the matrix", fromS(A), a, 0, 1); same("symmetric as matrix", fromM((Matrix)A), a, 0, 1);
        if (g.chance(1, 2)) { A = s; a = addS(Mat(n, n), s); } break; }
      case 26: { // operand and result are the same object
        int w = g.range(0, 5); g.note("aliased ", w); int i = g.range(1, n), j = g.range(1, n); R e = a(i - 1, j - 1); SymmetricMatrix& B = A;
        switch (w) { case 0: A += B; a = a + a; break; case 1: A -= B; a = a - a; break; case 2: A = B; break; case 3: if (fabsl(e) < 1e3L) { A *= A(i, j); a = e * a; } break; case 4: A += A(i, j); a = addS(a, e); break; case 5: { Vec b = genVec(g, n); ColumnVector v = toC(b); A.multiply(v, v); same("multiply into its operand", fromC(v), a * b, EPS, 1e-290L + maxabs(absM(a) * absV(b))); ColumnVector u(genDim(g, 4)); A.multiply(toC(b), u); same("multiply into a vector of another size", fromC(u), a * b, EPS, 1e-290L + maxabs(absM(a) * absV(b))); break; } } break; }
      case 24: { int m = genDim(g, 5); Vec w = genVec(g, m, sc); SymmetricMatrix F(m, toRv(w)); REQUIRE((int)F.rows() == m && (int)F.columns() == m, "size"); A = F; a = Mat(m, m); for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = w[j]; g.note("every row ", show(w)); break; }
      case 25: { int i = g.range(1, n); Vec w(n); for (int j = 0; j < n; j++) w[j] = a(i - 1, j); same("row by index", fromRv(A[i]), w, 0, 1); break; }
      case 0: { int i = g.range(1, n), j = g.range(1, n); double v = g.real(sc); g.note("set ", i, " ", j); A(i, j) = v; A(j, i) = v; a(i - 1, j - 1) = a(j - 1, i - 1) = v; break; }
      case 1: { double s = g.real(sc); A += s; a = addS(a, s); break; }
      case 2: { double s = g.real(sc); A -= s; a = addS(a, -s); break; }
      case 3: { double s = g.real(2); A *= s; a = (R)s * a; break; }
      case 4: { double s = g.nonzero(2); A /= s; a = (1 / (R)s) * a; break; }
      case 5: { double s = g.real(sc); A = A + s; a = addS(a, s); break; }
      case 6: { double s = g.real(sc); A = A - s; a = addS(a, -s); break; }
      case 7: { double s = g.real(2); A = A * s; a = (R)s * a; break; }
      case 8: { double s = g.nonzero(2); A = A / s; a = (1 / (R)s) * a; break; }
      case 9: { Mat b = roundD((R)sc * genSym(g, n, 4)); A += toS(b); a = a + b; break; }
      case 10: { Mat b = roundD((R)sc * genSym(g, n, 4)); A -= toS(b); a = a - b; break; }
      case 11: { Mat b = roundD((R)sc * genSym(g, n, 4)); SymmetricMatrix C = A + toS(b); same("S unchanged", fromS(A), a, 0, 1); A = C; a = a + b; break; }
      case 12: { Mat b = roundD((R)sc * genSym(g, n, 4)); A = A - toS(b); a = a - b; break; }
      case 13: { Mat b = roundD(genSym(g, n, 2)); Matrix P = A * toS(b); same("sym*sym", fromM(P), a * b, EPS, big(a, b)); if (n > 1) g.mark(); break; }
      case 14: { Mat b = genMat(g, n, genDim(g, 5), 2); Matrix P = A * toM(b); same("sym*matrix", fromM(P), a * b, EPS, big(a, b)); if (n > 1) g.mark(); break; }
      case 15: { Mat b = roundD((R)sc * genMat(g, n, n)); same("sym+matrix", fromM(A + toM(b)), a + b, 1e-13L, sa + maxabs(b)); same("sym-matrix", fromM(A - toM(b)), a - b, 1e-13L, sa + maxabs(b)); break; }
      case 16: { Vec b = genVec(g, n); R s = 1e-290L + maxabs(absM(a) * absV(b)); same("sym*vector", fromC(A * toC(b)), a * b, EPS, s); ColumnVector res(n); A.multiply(toC(b), res); same("multiply", fromC(res), a * b, EPS, s); break; }
      case 17: { int i0 = g.range(1, n), i1 = g.range(i0, n), j0 = g.range(1, n), j1 = g.range(j0, n); g.note("sub ", i0, " ", i1, " ", j0, " ", j1); same("sym sub", fromM(A.sub(i0, i1, j0, j1)), blk(a, i0, i1, j0, j1), 0, 1); break; }
      case 18: { same("transpose", fromS(A.transpose()), a, 0, 1); int i = g.range(1, n); Vec w(n); for (int j = 0; j < n; j++) w[j] = a(i - 1, j); same("sym rowCopy", fromRv(A.rowCopy(i)), w, 0, 1); Matrix M; M = A; same("matrix from symmetric", fromM(M), a, 0, 1); break; }
      case 19: { Mat b = roundD((R)sc * genMat(g, n, n)); bool symm = g.chance(1, 2); if (symm) b = symmetrize(b); Matrix B = toM(roundD(b)); SymmetricMatrix S(g.chance(1, 2) ? n : g.range(1, 4)); B.convertToSymmetricMatrix(S);
                 Mat w(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) w(i, j) = w(j, i) = (double)b(i, j);
                 g.note("convert ", show(roundD(b))); same("convertToSymmetricMatrix (lower triangle)", fromS(S), w, 0, 1); A = S; a = w; if (n > 1) g.mark(); break; }
      case 20: { SymmetricMatrix B(A); REQUIRE(A == B, "copy not equal"); int i = g.range(1, n), j = g.range(1, n); double d = std::max((double)sa, 1.0); double v = B(i, j) + d; B(i, j) = v; B(j, i) = v; REQUIRE(!(A == B), "symmetric matrices differing at (", i, ",", j, ") compare equal"); SymmetricMatrix N(A); v = N(i, j) + (double)(sa * nudge(g)); N(i, j) = v; N(j, i) = v; REQUIRE(!(A == N), "symmetric matrices differing slightly at (", i, ",", j, ") compare equal"); break; }
      case 21: { int m = genDim(g, 6); g.note("resize ", m); A.resize(m); REQUIRE((int)A.rows() == m && (int)A.columns() == m, "resize gives ", A.rows(), "x", A.columns()); Mat b(m, m);
                 for (int x = 0; x < m; x++) for (int y = 0; y <= x; y++) if (x < n && y < n) { b(x, y) = b(y, x) = a(x, y); REQUIRE(A(x + 1, y + 1) == (double)a(x, y) && A(y + 1, x + 1) == (double)a(x, y), "resize with copy lost element (", x + 1, ",", y + 1, ")"); } else { double v = g.real(sc); A(x + 1, y + 1) = v; A(y + 1, x + 1) = v; b(x, y) = b(y, x) = v; }
                 a = b; break; }
      case 22: { Mat b = roundD((R)sc * genSym(g, n, 4)); if (g.chance(1, 2)) { A += toM(b); a = a + b; } else { A -= toM(b); a = a - b; } break; }
      case 23: { // writing one of the two mirrored elements
        int i = g.range(1, n), j = g.range(1, n); double v = g.real(sc); g.note("set only (", i, ",", j, ")"); A(i, j) = v; a(i - 1, j - 1) = a(j - 1, i - 1) = v;
#ifdef BACKEND_EIGEN
        if (A(j, i) != v) { g.known.insert("eigen-symmetric-one-sided-write"); A(j, i) = v; }
#endif
        break; }
    }
    REQUIRE((int)A.rows() == a.r && (int)A.columns() == a.r && (int)A.size() == a.r && (int)A.capacity() == a.r, "rows ", A.rows(), " columns ", A.columns(), " size ", A.size(), " of a symmetric matrix of order ", a.r);
    same("symmetric matrix", fromS(A), a, 1e-13L, std::max(sa, (R)(1e-290L + maxabs(a))));
    a = fromS(A);
    for (int i = 0; i < a.r; i++) for (int j = 0; j < i; j++) REQUIRE(a(i, j) == a(j, i), "symmetric matrix lost its symmetry at (", i + 1, ",", j + 1, ")");
  }
  if (ops > 2) g.mark();
}
template <class V> struct VT;
template <> struct VT<ColumnVector> { static ColumnVector to(const Vec& v) { return toC(v); } static Vec from(const ColumnVector& v) { return fromC(v); } static int dim(const ColumnVector& v) { return v.rows(); } };
template <> struct VT<RowVector> { static RowVector to(const Vec& v) { return toRv(v); } static Vec from(const RowVector& v) { return fromRv(v); } static int dim(const RowVector& v) { return v.columns(); } };
template <class V> static void p01_vector(Gen& g) {
  double sc = genScale(g); int n = genDim(g, 8);
  Vec a = roundD((R)sc * genVec(g, n)); V A = VT<V>::to(a);
  g.note("v = ", show(a));
  int ops = g.count(1, 8, 40);
  for (int k = 0; k < ops; k++) {
    R sa = 1e-290L + maxabs(a); n = a.n();
    int op = g.range(0, 20); g.label(str("op", op)); g.note("op ", op);
    switch (op) {
      case 19: { int m = genDim(g, 8); g.note("resize ", m); A.resize(m); REQUIRE(VT<V>::dim(A) == m, "resize gives length ", VT<V>::dim(A)); Vec b(m); for (int q = 0; q < m; q++) { double v = g.real(sc); A(q + 1) = v; b[q] = v; } a = b; break; }
      case 20: { V D, E(genDim(g, 8)); E = 0.0; D = A; same("assigned to a default-constructed vector", VT<V>::from(D), a, 0, 1); E = A; same("assigned over another size", VT<V>::from(E), a, 0, 1); double s = g.real(sc); D = s; same("vector set to a scalar", VT<V>::from(D), Vec(n, s), 0, 1); D = A.sub(1, n); same("whole vector by sub", VT<V>::from(D), a, 0, 1); E(1) = E(1) + std::max((double)sa, 1.0); same("v independent of its copies", VT<V>::from(A), a, 0, 1);
        ColumnVector F = toC(a); int i = g.range(0, n - 1); double v = g.real(sc); F[i] = v; Vec f(a); f[i] = v; same("element written by [] (from 0)", fromC(F), f, 0, 1);
        if (g.chance(1, 2)) { A = s; a = Vec(n, s); } break; }
      case 18: { int w = g.range(0, 5); g.note("aliased ", w); int i = g.range(1, n); R e = a[i - 1]; V& B = A;
        switch (w) { case 0: A += B; a = a + a; break; case 1: A -= B; a = a - a; break; case 2: A = B; break; case 3: if (fabsl(e) < 1e3L) { A *= A(i); a = e * a; } break; case 4: A += A(i); a = addS(a, e); break; case 5: if (n < 20) { A = A.vectorAdd(B); Vec b(a); for (R x : b.v) a.v.push_back(x); } break; } break; }
      case 0: { int i = g.range(1, n); double v = g.real(sc); A(i) = v; a[i - 1] = v; break; }
      case 1: { double s = g.real(sc); A += s; a = addS(a, s); break; }
      case 2: { double s = g.real(sc); A -= s; a = addS(a, -s); break; }
      case 3: { double s = g.real(2); A *= s; a = (R)s * a; break; }
      case 4: { double s = g.nonzero(2); A /= s; a = (1 / (R)s) * a; break; }
      case 5: { double s = g.real(sc); A = A + s; a = addS(a, s); break; }
      case 6: { double s = g.real(sc); A = A - s; a = addS(a, -s); break; }
      case 7: { double s = g.real(2); A = A * s; a = (R)s * a; break; }
      case 8: { double s = g.nonzero(2); A = A / s; a = (1 / (R)s) * a; break; }
      case 9: { Vec b = roundD((R)sc * genVec(g, n)); A += VT<V>::to(b); a = a + b; break; }
      case 10: { Vec b = roundD((R)sc * genVec(g, n)); A -= VT<V>::to(b); a = a - b; break; }
      case 11: { Vec b = roundD((R)sc * genVec(g, n)); V C = A + VT<V>::to(b); same("v unchanged", VT<V>::from(A), a, 0, 1); A = C; a = a + b; break; }
      case 12: { Vec b = roundD((R)sc * genVec(g, n)); A = A - VT<V>::to(b); a = a - b; break; }
      case 13: { int m = genDim(g, 4); Vec b = roundD((R)sc * genVec(g, m)); g.note("join ", show(b)); A = A.vectorAdd(VT<V>::to(b)); for (int i = 0; i < m; i++) a.v.push_back(b[i]); g.mark(); break; }
      case 14: { int i = g.range(1, n), j = g.range(i, n); g.note("sub ", i, " ", j); A = A.sub(i, j); a = seg(a, i, j); g.mark(); break; }
      case 15: { int m = genDim(g, 8); double v = g.real(sc); g.note("assign ", m, " ", v); A.assign(m, v); a = Vec(m, v); break; }
      case 16: { Vec b = roundD((R)sc * genVec(g, n)); R s = 1e-290L + dot(absV(a), absV(b)); double d = toRv(a) * toC(b); same("row*column", (R)d, dot(a, b), EPS, s);
                 int m = genDim(g, 4); Vec c = genVec(g, m); same("column*row", fromM(toC(a) * toRv(c)), outer(a, c), 1e-15L, 1e-290L + sa * maxabs(c));
                 same("transpose", fromRv(toC(a).transpose()), a, 0, 1); same("transpose", fromC(toRv(a).transpose()), a, 0, 1); break; }
      case 17: { V B(A); REQUIRE(A == B, "copy not equal"); int i = g.range(1, n); B(i) = B(i) + std::max((double)sa, 1.0); REQUIRE(!(A == B), "vectors differing at ", i, " compare equal"); V N(A); N(i) = N(i) + (double)(sa * nudge(g)); REQUIRE(!(A == N), "vectors differing slightly at ", i, " compare equal"); V Cc(n + 1); Cc = 0.0; REQUIRE(!(A == Cc), "vectors of different length equal"); V D(n, 2.5); for (int q = 1; q <= n; q++) REQUIRE(D(q) == 2.5, "filled constructor"); D = A; same("assigned", VT<V>::from(D), a, 0, 1);
                 int rr = g.range(1, 3); Matrix Mr(rr, toRv(a)); Mat w(rr, n); for (int x = 0; x < rr; x++) for (int y = 0; y < n; y++) w(x, y) = a[y]; same("matrix from repeated row", fromM(Mr), w, 0, 1);
                 Vec b2 = genVec(g, genDim(g, 3)); ColumnVector J(toC(a), toC(b2)); Vec jw(a); for (R x : b2.v) jw.v.push_back(x); same("joined column vector", fromC(J), jw, 0, 1); for (int q = 0; q < jw.n(); q++) REQUIRE(J[q] == (double)jw[q], "element [", q, "]");
                 break; }
    }
    REQUIRE((int)(A.rows() * A.columns()) == a.n() && (int)A.capacity() == a.n(), "shape ", A.rows(), "x", A.columns(), " capacity ", A.capacity(), " of a vector of length ", a.n());
    REQUIRE(VT<V>::dim(A) == a.n(), "length ", VT<V>::dim(A), " instead of ", a.n());
    same("vector", VT<V>::from(A), a, 1e-13L, std::max(sa, (R)(1e-290L + maxabs(a))));
    a = VT<V>::from(A);
  }
  if (ops > 2) g.mark();
}
static Reg r1({"P01", "matrix: at least 3 operations, or a non-square product, or a submatrix", p01_matrix, false, "matrix", 3});
static Reg r2({"P01", "symmetric: at least 3 operations or a product with n>1", p01_sym, false, "symmetric", 3});
static Reg r3({"P01", "column vector: at least 3 operations or a join/slice", p01_vector<ColumnVector>, false, "column", 1});
static Reg r4({"P01", "row vector: at least 3 operations or a join/slice", p01_vector<RowVector>, false, "row", 1});

// ------------------------------------------------------------------ P02
static Mat genOrth(Gen& g, int n) { // product of Householder reflections
  Mat q = Mat::I(n); int k = g.range(0, 3);
  for (int t = 0; t < k; t++) { Vec v(n); for (int i = 0; i < n; i++) v[i] = g.real(2); R s = dot(v, v); if (s < 1e-6) continue; q = q - (2 / s) * outer(q * v, v); }
  return q;
}
static Mat genInvertible(Gen& g, int n, R& cond) {
  Mat a;
  switch (g.range(0, 3)) {
    case 0: { a = genMat(g, n, n, 2); for (int i = 0; i < n; i++) a(i, i) += 4 * n; break; } // diagonally dominant
    case 1: { a = Mat(n, n); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[g.range(0, i)]); // permuted upper triangular: needs row exchanges
              for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a(p[i], j) = i == j ? g.nonzero(4) : (R)g.real(2); break; }
    case 2: { Mat u = genOrth(g, n), v = genOrth(g, n), d(n, n); for (int i = 0; i < n; i++) d(i, i) = std::pow(10.0, g.range(-2, 2)); a = u * d * v; break; }
    default: a = genMat(g, n, n, 4);
  }
  a = roundD((R)genScale(g) * a);
  Mat v; R d = det_inv(a, &v);
  if (d == 0 || v.r == 0) g.discard();
  cond = n * maxabs(a) * maxabs(v) * n;
  if (!(cond < 1e7L)) g.discard();
  return a;
}
static void p02_inverse(Gen& g) {
  int n = g.chance(1, 40) ? g.range(1, 14) : genDim(g, 6); R cond; bool sym = g.chance(1, 2);
  Mat a; if (sym) { a = genSPD(g, n, genScale(g)); if (g.chance(1, 3)) { a = symmetrize(genInvertible(g, n, cond)); a = roundD(a); Mat v; if (det_inv(a, &v) == 0) g.discard(); if (n * n * maxabs(a) * maxabs(v) > 1e7L) g.discard(); } cond = n * maxabs(a) * maxabs(inv(a)) * n; }
  else a = genInvertible(g, n, cond);
  g.note(sym ? "sym " : "general ", show(a)); g.label(str(sym ? "sym" : "gen", n));
  if (n > 1) g.mark();
  Mat ref; R d = det_inv(a, &ref); R s = maxabs(ref);
  Mat got; double dd;
  if (sym) { SymmetricMatrix S = toS(a); got = fromS(S.inverse()); dd = S.determinant(); same("operand unchanged", fromS(S), a, 0, 1); }
  else { Matrix M = toM(a); got = fromM(M.inverse()); dd = M.determinant(); same("operand unchanged", fromM(M), a, 0, 1); }
  same("inverse", got, ref, 1e-14L * cond * n, s);
  same("determinant", (R)dd, d, 1e-14L * cond * n);
  if (sym) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) REQUIRE(fabsl(got(i, j) - got(j, i)) <= 1e-14L * cond * n * s, "inverse of symmetric matrix not symmetric");
}
static void p02_singular_det(Gen& g) { // exactly singular integer matrices have determinant 0 (within rounding)
  int n = g.range(2, 5); Mat a(n, n);
  for (auto& e : a.a) e = g.range(-3, 3);
  int i = g.range(0, n - 1), j = (i + g.range(1, n - 1)) % n; R f = g.range(-2, 2);
  for (int k = 0; k < n; k++) a(i, k) = f * a(j, k);
  bool sym = g.chance(1, 2);
  if (sym) a = T(a) * a; // rank deficient Gram matrix
  g.note(show(a)); g.mark();
  double d = sym ? toS(a).determinant() : toM(a).determinant();
  R h = 1; for (int r = 0; r < n; r++) { R s = 0; for (int c = 0; c < n; c++) s += a(r, c) * a(r, c); h *= 1 + sqrtl(s); }
  REQUIRE(fabs(d) <= 1e-12L * h, "determinant of a singular matrix: ", d);
}
static void p02_chol(Gen& g) {
  int n = genDim(g, 6); int kind = g.range(0, 3); Mat a, L(n, n);
  if (kind == 0) a = genSPD(g, n, genScale(g));
  else if (kind == 3) { // very different or very small scales of the coordinates, all pivots well above the zero threshold
    a = genSPD(g, n); R lo = g.range(-12, -1); for (int i = 0; i < n; i++) L(i, i) = powl(10.0L, (R)g.range((int)lo, g.chance(1, 2) ? 6 : (int)lo) / 2); a = roundD(symmetrize(L * a * L)); L = Mat(n, n); }
  else if (kind == 1) { // exactly representable semidefinite: integer factor with zero columns
    for (int k = 0; k < n; k++) { if (g.chance(1, 3)) continue; L(k, k) = g.range(1, 4); for (int i = k + 1; i < n; i++) L(i, k) = g.range(-3, 3); }
    a = L * T(L);
  } else { // clearly indefinite: L D L' with a negative pivot
    Mat D(n, n); int neg = g.range(0, n - 1); for (int k = 0; k < n; k++) { L(k, k) = 1; for (int i = k + 1; i < n; i++) L(i, k) = g.range(-2, 2); D(k, k) = k == neg ? -g.range(1, 4) : (g.range(1, 2) == 1 ? 1 : 4); }
    a = L * D * T(L);
  }
  g.note("kind ", kind, " ", show(a)); g.label(str("kind", kind)); if (n > 1) g.mark();
  Matrix m(g.range(1, 3), g.range(1, 3)); SymmetricMatrix S = toS(a); bool ok = S.cholesky_semidefinite(m);
  same("operand unchanged", fromS(S), a, 0, 1);
  if (kind == 2) { REQUIRE(!ok, "Cholesky factorisation of an indefinite matrix reported success"); return; }
  REQUIRE(ok, "Cholesky factorisation failed on a positive semidefinite matrix");
  Mat l = fromM(m); REQUIRE(l.r == n && l.c == n, "Cholesky factor has wrong shape");
  for (int i = 0; i < n; i++) { REQUIRE(l(i, i) >= 0, "negative diagonal in Cholesky factor"); for (int j = i + 1; j < n; j++) REQUIRE(l(i, j) == 0, "Cholesky factor not lower triangular"); }
  same("L*L'", l * T(l), a, 1e-13L * n);
  if (kind == 0 || kind == 3) { Mat p = l * T(l); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(close(p(i, j), a(i, j), 1e-13L * n, sqrtl(a(i, i) * a(j, j))), "L*L': element (", i + 1, ",", j + 1, ") got ", (double)p(i, j), " expected ", (double)a(i, j)); }
}
static void p02_svd(Gen& g) {
  int r = genDim(g, 6), c = genDim(g, 6); if (g.chance(1, 60)) { r = g.range(1, 20); c = g.range(1, 20); } int k = std::min(r, c); Mat a; std::vector<double> s;
  bool structured = g.chance(2, 3); Mat u, v;
  double sc = std::pow(10.0, g.range(-1, 2));
  if (structured) {
    u = genOrth(g, r); v = genOrth(g, c); Mat d(r, c);
    for (int i = 0; i < k; i++) { double x = g.chance(1, 4) ? 0.0 : (g.chance(1, 4) ? 1.0 : 0.1 * g.range(1, 50)); s.push_back(x * sc); d(i, i) = x * sc; }
    a = u * d * T(v);
  } else a = (R)sc * genMat(g, r, c, 4);
  if (g.chance(1, 8)) { for (auto& e : a.a) e = roundl(e); structured = false; }
  a = roundD(a);
  g.note("A=", show(a)); g.label(str(r < c ? "wide" : r > c ? "tall" : "square")); if (r > 1 || c > 1) g.mark();
  Matrix A = toM(a), U, V; ColumnVector w; bool ok = A.SVD(w, U, V);
  REQUIRE(ok, "SVD did not converge"); same("operand unchanged", fromM(A), a, 0, 1);
  Mat mu = fromM(U), mv = fromM(V), D(c, c); Vec vw = fromC(w); R tol = 1e-12L * (1 + maxabs(a));
  REQUIRE(mu.r == r && mu.c == c && mv.r == c && mv.c == c && vw.n() == c, "SVD shapes");
  for (int i = 0; i < c; i++) { REQUIRE(vw[i] >= 0, "negative singular value"); D(i, i) = vw[i]; }
  same("U*D*V'", mu * D * T(mv), a, 1, tol);
  same("V orthonormal", T(mv) * mv, Mat::I(c), 1e-12L, 1);
  Mat uu = T(mu) * mu; for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) if (vw[i] > 1e-6 * sc && vw[j] > 1e-6 * sc) REQUIRE(fabsl(uu(i, j) - (i == j)) < 1e-9L, "columns of U not orthonormal");
  if (structured) {
    std::vector<R> got(vw.v); std::sort(got.rbegin(), got.rend()); std::vector<double> want(s); std::sort(want.rbegin(), want.rend()); want.resize(c, 0.0);
    for (int i = 0; i < c; i++) REQUIRE(fabsl(got[i] - want[i]) <= 1e-9L * (1 + sc * 5), "singular value ", (double)got[i], " expected ", want[i]);
    // pseudo-inverse with truncation at epsilon
    double eps; bool def = g.chance(1, 2); if (def) eps = 0.01; else eps = sc * 0.1 * (g.range(0, 30) + 0.5);
    bool ambiguous = false; for (double x : s) if (fabs(x - eps) < 1e-6 * sc) ambiguous = true;
    if (sc * 0.1 < eps * 1.0000001 && def) ambiguous = true;
    if (!ambiguous) {
      Mat di(c, r); int kept = 0; for (int i = 0; i < k; i++) if (s[i] >= eps) { di(i, i) = 1 / (R)s[i]; kept++; }
      Mat want2 = v * di * T(u); Mat got2 = fromM(def ? A.pseudoinverse() : A.pseudoinverse(eps));
      g.label(str("pinv rank ", kept, " of ", k)); g.note("pseudoinverse eps=", eps);
      same("pseudoinverse", got2, want2, 1e-9L, 1 / (R)sc * 100);
    }
  }
}
static Reg q1({"P02", "inverse/determinant: dimension > 1", p02_inverse, false, "inverse", 3});
static Reg q2({"P02", "determinant of exactly singular matrices", p02_singular_det, false, "singular", 1});
static Reg q3({"P02", "Cholesky: dimension > 1", p02_chol, false, "cholesky", 2});
static Reg q4({"P02", "SVD and pseudo-inverse: not 1x1", p02_svd, false, "svd", 3});
