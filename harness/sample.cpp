// P06 samples, weighted samples and probabilities; P26 the random source.
#include "la.h"
#include "sample/sample.h"
#include "sample/weightedsample.h"
#include "bfl_constants.h"
#include "wrappers/rng/rng.h"
#include <memory>
using namespace pbt; using namespace BFL;
typedef MW::ColumnVector CV;

// ------------------------------------------------ P06
template <class T> struct K;
template <> struct K<int> { static int gen(Gen& g) { return g.chance(1, 8) ? (g.chance(1, 2) ? 2147483647 : -2147483647 - 1) : g.range(-1000, 1000); } static bool eq(int a, int b) { return a == b; } static unsigned dim(int) { return 1; } static std::string show(int a) { return str(a); } static const char* name() { return "int"; } };
template <> struct K<double> { static double gen(Gen& g) { double x = g.real(100); return g.chance(1, 6) ? x * 1e300 : g.chance(1, 6) ? x * 1e-300 : x; } static bool eq(double a, double b) { return a == b; } static unsigned dim(double) { return 1; } static std::string show(double a) { return str(a); } static const char* name() { return "double"; } };
template <> struct K<unsigned> { static unsigned gen(Gen& g) { return g.range(0, 100000); } static bool eq(unsigned a, unsigned b) { return a == b; } static unsigned dim(unsigned) { return 0; } static std::string show(unsigned a) { return str(a); } static const char* name() { return "unsigned"; } };
template <> struct K<CV> {
  static CV gen(Gen& g) { CV v(g.count(1, 5, 20)); for (unsigned i = 1; i <= v.rows(); i++) v(i) = g.real(100); return v; }
  static bool eq(const CV& a, const CV& b) { if (a.rows() != b.rows()) return false; for (unsigned i = 1; i <= a.rows(); i++) if (a(i) != b(i)) return false; return true; }
  static unsigned dim(const CV& v) { return v.rows(); }
  static std::string show(const CV& v) { std::string s = "("; for (unsigned i = 1; i <= v.rows(); i++) s += str(v(i), " "); return s + ")"; }
  static const char* name() { return "vector"; }
};
template <class T> void poke(T& v, Gen& g) { v = K<T>::gen(g); }
template <> void poke<CV>(CV& v, Gen& g) { if (g.chance(1, 2)) v(g.range(1, v.rows())) = g.real(50); else v = K<CV>::gen(g); }
template <class T> void roundTrip(Gen& g, Sample<T>& s, const T& m) {
  std::stringstream o; o.precision(17); o << s; Sample<T> t(1); o >> t; REQUIRE(!o.fail() && t.ValueGet() == m, "a sample ", K<T>::show(m), " printed and read back is ", K<T>::show(t.ValueGet()));
}
template <> void roundTrip<CV>(Gen&, Sample<CV>&, const CV&) {}
template <class T> void history(Gen& g) {
  typedef Sample<T> S; typedef WeightedSample<T> W; g.label(K<T>::name());
  std::vector<std::unique_ptr<S>> a; std::vector<T> av; std::vector<std::unique_ptr<W>> b; std::vector<T> bv; std::vector<double> bw;
  auto newS = [&] { T v = K<T>::gen(g); a.emplace_back(new S(g.chance(1, 2) ? K<T>::dim(v) : g.range(1, 6))); a.back()->ValueSet(v); av.push_back(v); };
  auto newW = [&] { T v = K<T>::gen(g); b.emplace_back(new W(g.chance(1, 2) ? K<T>::dim(v) : g.range(1, 6))); b.back()->ValueSet(v); bv.push_back(v); double w = g.chance(1, 5) ? 0 : g.pos(1000); b.back()->WeightSet(w); bw.push_back(w); };
  newS(); newW(); int ops = g.count(1, 16, 60), copies = 0;
  for (int k = 0; k < ops; k++) {
    int i = g.range(0, (int)a.size() - 1), j = g.range(0, (int)b.size() - 1), i2 = g.range(0, (int)a.size() - 1), j2 = g.range(0, (int)b.size() - 1), op = g.range(0, 13); g.note(K<T>::name(), " op ", op, " ", i, " ", j, " ", i2, " ", j2);
    switch (op) {
      case 0: newS(); break;
      case 1: newW(); break;
      case 2: { T v = K<T>::gen(g); a[i]->ValueSet(v); av[i] = v; break; }
      case 3: { T v = K<T>::gen(g); b[j]->ValueSet(v); bv[j] = v; break; }
      case 4: { double w = g.pos(10) * std::pow(10.0, g.range(-30, 30)); b[j]->WeightSet(w); bw[j] = w; break; }
      case 5: poke(a[i]->ValueGet(), g); { const S& c = *a[i]; av[i] = c.ValueGet(); } break;
      case 6: poke(b[j]->ValueGet(), g); { const W& c = *b[j]; bv[j] = c.ValueGet(); } break;
      case 7: a.emplace_back(new S(*a[i])); { T v = av[i]; av.push_back(v); } copies++; break;
      case 8: b.emplace_back(new W(*b[j])); { T v = bv[j]; bv.push_back(v); double w = bw[j]; bw.push_back(w); } copies++; break;
      case 9: { S& r = (*a[i] = *a[i2]); REQUIRE(&r == a[i].get(), "assignment does not return the sample"); T v = av[i2]; av[i] = v; copies++; break; }
      case 10: { W& r = (*b[j] = *b[j2]); REQUIRE(&r == b[j].get(), "assignment does not return the sample"); T v = bv[j2]; bv[j] = v; bw[j] = bw[j2]; copies++; break; }
      case 11: { *b[j] = *a[i]; T v = av[i]; bv[j] = v; bw[j] = 1; copies++; break; }
      case 12: { const S& s = *b[j]; *a[i] = s; T v = bv[j]; av[i] = v; copies++; break; }
      case 13: { const S& s = *b[j2]; *b[j] = s; T v = bv[j2]; bv[j] = v; bw[j] = 1; copies++; break; }
    }
    for (size_t q = 0; q < a.size(); q++) { const S& s = *a[q]; REQUIRE(K<T>::eq(s.ValueGet(), av[q]), "sample ", q, " is ", K<T>::show(s.ValueGet()), " expected ", K<T>::show(av[q])); REQUIRE(s.DimensionGet() == K<T>::dim(av[q]), "dimension ", s.DimensionGet()); }
    for (size_t q = 0; q < b.size(); q++) { const W& s = *b[q]; REQUIRE(K<T>::eq(s.ValueGet(), bv[q]), "weighted sample ", q, " is ", K<T>::show(s.ValueGet()), " expected ", K<T>::show(bv[q])); REQUIRE(s.WeightGet() == bw[q], "weight ", s.WeightGet(), " expected ", bw[q]); REQUIRE(s.DimensionGet() == K<T>::dim(bv[q]), "dimension ", s.DimensionGet()); }
    int rt = g.range(0, (int)a.size() - 1); roundTrip<T>(g, *a[rt], av[rt]);
    if (a.size() > 4) { a.erase(a.begin()); av.erase(av.begin()); } if (b.size() > 4) { b.erase(b.begin()); bv.erase(bv.begin()); bw.erase(bw.begin()); }
  }
  if (copies > 1) g.mark();
}
// a user defined state: samples carry whatever the user defines, with deep copies of its own
struct Pose { std::vector<double> q; int tag; Pose() : tag(0) {} };
template <> struct K<Pose> { static Pose gen(Gen& g) { Pose p; p.tag = g.range(0, 99); int n = g.range(0, 4); for (int i = 0; i < n; i++) p.q.push_back(g.real()); return p; } static bool eq(const Pose& a, const Pose& b) { return a.tag == b.tag && a.q == b.q; } static unsigned dim(const Pose&) { return 0; } static std::string show(const Pose& p) { return str("pose ", p.tag, "/", p.q.size()); } static const char* name() { return "user type"; } };
template <> void poke<Pose>(Pose& p, Gen& g) { p.tag++; p.q.push_back(g.real()); }
template <> void roundTrip<Pose>(Gen&, Sample<Pose>&, const Pose&) {}
static void p06(Gen& g) { switch (g.range(0, 4)) { case 0: history<int>(g); break; case 1: history<double>(g); break; case 2: history<CV>(g); break; case 3: history<unsigned>(g); break; default: history<Pose>(g); } }
static Reg s1({"P06", "a history with at least two copies or assignments", p06, false, "samples", 4});
static void p06dim(Gen& g) {
  int n = g.range(1, 6), m = g.range(1, 6); g.note("dim ", n, " -> ", m); Sample<CV> s(n); REQUIRE(s.DimensionGet() == (unsigned)n && s.ValueGet().rows() == (unsigned)n, "new sample of dimension ", n, " has ", s.DimensionGet());
  // WeightedSample(dimension) constructs its virtual base itself
  WeightedSample<CV> w(n); REQUIRE(w.DimensionGet() == (unsigned)n, "new weighted sample of dimension ", n, " has ", w.DimensionGet());
  for (int i = 1; i <= n; i++) s.ValueGet()(i) = i; Sample<CV> t(s); t.DimensionSet(m); REQUIRE(t.DimensionGet() == (unsigned)m && t.ValueGet().rows() == (unsigned)m, "dimension after DimensionSet"); REQUIRE(s.DimensionGet() == (unsigned)n, "dimension of the original changed");
  for (int i = 1; i <= n; i++) REQUIRE(s.ValueGet()(i) == i, "value of the original changed");
  w.DimensionSet(m); REQUIRE(w.DimensionGet() == (unsigned)m, "dimension after DimensionSet"); if (m != n) g.mark();
}
static Reg s2({"P06", "a change of dimension", p06dim, false, "dimension", 1});
static void p06prob(Gen& g) {
  auto val = [&] { return g.chance(1, 6) ? 0.0 : g.chance(1, 6) ? 1.0 : g.pos(1) * std::pow(10.0, g.range(-20, 3)); };
  std::vector<Probability> p; std::vector<double> m; int n = g.range(2, 4), ops = g.range(1, 10), ar = 0; for (int i = 0; i < n; i++) { m.push_back(val()); p.push_back(Probability(m[i])); }
  auto near = [](double x, long double y) { return fabsl(x - y) <= 1e-15L * fabsl(y) + 1e-320L; };
  for (int k = 0; k < ops; k++) {
    int i = g.range(0, n - 1), j = g.range(0, n - 1), op = g.range(0, 5); g.note("op ", op, " ", i, " ", j, " values ", m[i], " ", m[j]);
    if (op == 0) { double v = val(); p[i].getValue() = v; m[i] = v; }
    else if (op == 1) { p[i] = p[j]; m[i] = m[j]; }
    else if (op == 2) { Probability r = p[i] * p[j]; long double e = (long double)m[i] * m[j]; REQUIRE(near((double)r, e), "product ", (double)r); ar++; if (m[i] * m[j] < 1e100) { m[i] = (double)r; p[i] = r; } }
    else if (op == 3) { if (m[j] < 1e-150 || m[i] > 1e150) continue; Probability r = p[i] / p[j]; long double e = (long double)m[i] / m[j]; REQUIRE(near((double)r, e), "quotient ", (double)r); ar++; if (r.getValue() < 1e100) { m[i] = (double)r; p[i] = r; } }
    else if (op == 4) { double v = val(); p[i] = v; m[i] = v; }
    else { Probability c(p[i]); c.getValue() = 0.125; REQUIRE((double)p[i] == m[i], "a copy is not independent"); }
    for (int q = 0; q < n; q++) { const Probability& c = p[q]; REQUIRE(c.getValue() == m[q] && (double)p[q] == m[q] && p[q].getValue() == m[q], "probability ", q, " is ", c.getValue(), " expected ", m[q]); }
  }
  if (ar) g.mark();
}
static Reg s3({"P06", "a product or quotient", p06prob, false, "probability", 2});

// ------------------------------------------------ P26
static double phi(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
// v holds probability integral transforms: uniform on [0,1) and independent
static void uniformTest(std::vector<double> v, const char* what) {
  int n = v.size(); if (n < 200) return; double s = 0, s2 = 0; for (double x : v) { s += x - 0.5; s2 += (x - 0.5) * (x - 0.5); }
  REQUIRE(fabs(s / n) < 6.8 * sqrt(1.0 / 12 / n), what, ": mean of the transforms of ", n, " draws is ", 0.5 + s / n); REQUIRE(fabs(s2 / n - 1.0 / 12) < 6.8 * sqrt(1.0 / 180 / n), what, ": variance of the transforms of ", n, " draws is ", s2 / n, " expected ", 1.0 / 12);
  for (int lag = 1; lag <= 4; lag++) { double c = 0; for (int i = 0; i + lag < n; i++) c += (v[i] - 0.5) * (v[i + lag] - 0.5); REQUIRE(fabs(c) < 6.8 * sqrt((double)n) / 12, what, ": draws ", lag, " apart are correlated: ", c / n * 12); }
  // turning points: for independent draws 2/3 of the inner points
  int tp = 0; for (int i = 1; i + 1 < n; i++) if ((v[i] > v[i - 1]) == (v[i] > v[i + 1])) tp++; REQUIRE(fabs(tp - 2.0 * (n - 2) / 3) < 7 * sqrt((16.0 * n - 29) / 90), what, ": ", tp, " turning points in ", n, " draws");
  std::sort(v.begin(), v.end()); double D = 0; for (int i = 0; i < n; i++) D = std::max(D, std::max(v[i] - (double)i / n, (i + 1.0) / n - v[i])); REQUIRE(D * sqrt((double)n) < 3.6, what, ": distribution of ", n, " draws differs, distance ", D);
  int dup = 0; for (int i = 1; i < n; i++) if (v[i] == v[i - 1]) dup++; REQUIRE(dup <= 6, what, ": ", dup, " repeated values in ", n, " draws");
}
static void p26(Gen& g) {
  rngctl::use_real(); int mode = g.range(0, 3), n = 300 + g.range(0, 3000); int burn = g.range(0, 5000); for (int i = 0; i < burn; i++) runif(); g.note("mode ", mode, " draws ", n, " after ", burn); g.label(str("mode ", mode));
  std::vector<std::pair<double, double>> U, N; int np = g.range(1, 4); for (int i = 0; i < np; i++) { double a = g.real(100), w = g.pos(10) * std::pow(10.0, g.range(-3, 6)); U.push_back({a, a + w}); N.push_back({g.real(100), g.pos(10) * std::pow(10.0, g.range(-3, 4))}); g.note("[", U[i].first, ",", U[i].second, ") mu ", N[i].first, " sigma ", N[i].second); }
  std::vector<double> all, u0, un, no; std::vector<std::vector<double>> per(3); Prng sel(g.seed());
  std::vector<std::vector<double>> nper(np), uper(np);
  for (int i = 0; i < n; i++) {
    int f = mode == 3 ? (int)(sel.next() % 3) : mode, k = sel.next() % np; double t;
    if (f == 0) { double x = runif(); REQUIRE(x >= 0 && x < 1, "runif() gave ", x); t = x; }
    else if (f == 1) { double a = U[k].first, b = U[k].second, x = runif(a, b); REQUIRE(x >= a && x <= b && (x < b || b - a < 1e-6 * fabs(a)), "runif(", a, ",", b, ") gave ", x); t = (x - a) / (b - a); uper[k].push_back(t); }
    else { double mu = N[k].first, s = N[k].second, x = rnorm(mu, s); REQUIRE(std::isfinite(x), "rnorm gave ", x); double z = (x - mu) / s; REQUIRE(fabs(z) < 10, "rnorm(", mu, ",", s, ") gave ", x); t = phi(z); nper[k].push_back(t); }
    per[f].push_back(t); all.push_back(t);
  }
  uniformTest(all, "all draws"); uniformTest(per[0], "runif()"); uniformTest(per[1], "runif(min,max)"); uniformTest(per[2], "rnorm");
  for (int k = 0; k < np; k++) { uniformTest(uper[k], "runif(min,max), one range"); uniformTest(nper[k], "rnorm, one mean and sigma"); }
  double mu = g.real(50); REQUIRE(rnorm(mu, 0.0) == mu, "rnorm with sigma 0 is not the mean"); if (n > 500) g.mark();
}
static Reg s4({"P26", "more than 500 draws", p26, true, "random source", 1});
