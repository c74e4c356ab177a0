// P03 Gaussian density over histories; P04 Gaussian sampling law; P05 Uniform density and sampling.
#include "la.h"
#include "pdf/gaussian.h"
#include "pdf/uniform.h"
#include <memory>
using namespace pbt; using namespace BFL;
typedef MW::ColumnVector CV; typedef MW::SymmetricMatrix SM;

struct MG { Vec mu; Mat S; bool hm, hs; };
static R logpdf(const Vec& x, const Vec& mu, const Mat& S, R* q = 0) { Mat v; R d = det_inv(S, &v); Vec e = x - mu; R m = dot(e, v * e); if (q) *q = m; return -0.5L * (mu.n() * logl(2 * acosl(-1.0L)) + logl(d) + m); }
static void checkDensity(Gen& g, const Gaussian& p, const MG& m) {
  int n = m.mu.n(); R q, c = cond_sym(m.S); Vec x;
  switch (g.range(0, 3)) { case 0: x = m.mu; break; case 1: x = roundD(m.mu + genVec(g, n, sqrt((double)maxabs(m.S)) * 3)); break; case 2: x = roundD(m.mu + genVec(g, n, sqrt((double)maxabs(m.S)) * 0.5)); break; default: x = genVec(g, n, 8); }
  R want = logpdf(x, m.mu, m.S, &q); double got = p.ProbabilityGet(toC(x));
  g.note("density at ", show(x)); if (q < 1400) g.label("finite density");
  REQUIRE(got >= 0, "negative or NaN density ", got);
  if (want < -690) { REQUIRE(got < 1e-290, "density ", got, " where log density is ", (double)want); return; }
  R tol = 1e-12L * c * (1 + q) + 1e-9L;
  REQUIRE(got > 0 && fabsl(logl(got) - want) <= tol, "density at ", show(x), " mean ", show(m.mu), " covariance ", show(m.S), ": got ", got, " expected ", (double)expl(want));
}
static void checkMoments(const Gaussian& p, const MG& m) {
  REQUIRE((int)p.DimensionGet() == m.mu.n(), "dimension ", p.DimensionGet());
  same("mean", fromC(p.ExpectedValueGet()), m.mu, 0, 1); same("covariance", fromS(p.CovarianceGet()), m.S, 0, 1);
}
static void p03(Gen& g) {
  std::vector<std::unique_ptr<Gaussian>> P; std::vector<MG> M;
  int n = genDim(g, 5); double sc = genScale(g);
  int ops = g.count(2, 14, 60), queries = 0, changes = 0; bool copied = false;
  auto nm = [&] { return genVec(g, n); };
  auto ns = [&] { return genSPD(g, n, g.chance(1, 4) ? genScale(g) : sc); };
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? g.range(0, 2) : g.range(0, 10); int i = P.empty() ? 0 : g.range(0, (int)P.size() - 1);
    g.note("op ", op, " on ", i);
    switch (op) {
      case 0: { Vec m = nm(); Mat s = ns(); g.note("mean ", show(m), " cov ", show(s)); P.emplace_back(new Gaussian(toC(m), toS(s))); M.push_back({m, s, true, true}); break; }
      case 1: { Vec m = nm(); Mat s = ns(); P.emplace_back(new Gaussian(g.chance(1, 2) ? n : 0)); if (g.chance(1, 2)) { P.back()->ExpectedValueSet(toC(m)); P.back()->CovarianceSet(toS(s)); } else { P.back()->CovarianceSet(toS(s)); P.back()->ExpectedValueSet(toC(m)); } M.push_back({m, s, true, true}); break; }
      case 2: { Vec m = nm(); Mat s = ns(); P.emplace_back(new Gaussian(toC(m), toS(s))); M.push_back({m, s, true, true}); break; }
      case 3: { Vec m = mutVec(g, M[i].mu); g.note("set mean ", show(m)); P[i]->ExpectedValueSet(toC(m)); M[i].mu = m; changes++; break; }
      case 4: case 5: { Mat s = mutSPD(g, M[i].S, sc); g.note("set cov ", show(s)); P[i]->CovarianceSet(toS(s)); M[i].S = s; changes++; break; }
      case 6: { P.emplace_back(new Gaussian(*P[i])); M.push_back(M[i]); copied = true; break; }
      case 7: { P.emplace_back(P[i]->Clone()); M.push_back(M[i]); copied = true; break; }
      case 8: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; copied = true; break; }
      case 9: { // drawing samples must not disturb the pdf
        std::vector<Sample<CV>> v; P[i]->SampleFrom(v, g.range(1, 3)); Sample<CV> s1; P[i]->SampleFrom(s1); break; }
      case 10: { checkDensity(g, *P[i], M[i]); queries++; break; }
    }
    int w = g.range(0, (int)P.size() - 1); checkDensity(g, *P[w], M[w]); queries++;
    if (g.chance(1, 4)) for (size_t q = 0; q < P.size(); q++) checkMoments(*P[q], M[q]);
    if (P.size() > 5) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  for (size_t q = 0; q < P.size(); q++) { checkMoments(*P[q], M[q]); checkDensity(g, *P[q], M[q]); }
  if (changes && (copied || changes > 1)) g.mark();
  g.label(copied ? "with copies" : "no copies");
}
static Reg a1({"P03", "a covariance or mean change after construction plus a copy or second change", p03, false, "density", 30});

// total mass / consistency on a 1-D or 2-D grid
static void p03_mass(Gen& g) {
  int n = g.range(1, 2); Vec m = genVec(g, n); Mat s = genSPD(g, n); Gaussian p(toC(m), toS(s)); g.note("n=", n, " cov ", show(s)); g.mark();
  R sum = 0; int N = n == 1 ? 400 : 60; std::vector<R> h(n); for (int i = 0; i < n; i++) h[i] = 20 * sqrtl(s(i, i)) / N;
  for (int i = 0; i < (n == 1 ? N : N * N); i++) { Vec x(n); x[0] = m[0] + ((i % N) + 0.5L - N / 2) * h[0]; if (n == 2) x[1] = m[1] + ((i / N) + 0.5L - N / 2) * h[1]; R w = h[0] * (n == 2 ? h[1] : 1); sum += w * (R)(double)p.ProbabilityGet(toC(x)); }
  R lmin = eigs(s)[0]; R hm = h[0]; if (n == 2) hm = std::max(hm, h[1]);
  if (sqrtl(lmin) < 1.2L * hm) g.discard();
  REQUIRE(fabsl(sum - 1) < 1e-3, "density integrates to ", (double)sum);
}
static Reg a2({"P03", "every integration over a grid", p03_mass, false, "mass", 1});

// ---- P04: the sample is an affine image mu + L z of the iid normals it consumes, with L L' = Sigma
static Mat p04cov(Gen& g, int n, bool semi) { if (!semi) return genSPD(g, n, genScale(g)); Mat L(n, n); for (int k = 0; k < n; k++) { if (g.chance(1, 3)) continue; L(k, k) = g.range(1, 4); for (int i = k + 1; i < n; i++) L(i, k) = g.range(-3, 3); } return L * T(L); }
static void p04(Gen& g) {
  int n = genDim(g, 5), rounds = g.count(1, 3, 8); bool semi = g.chance(1, 3); Vec mu = genVec(g, n); Mat S = p04cov(g, n, semi); Gaussian p(toC(mu), toS(S)); g.label(semi ? "semidefinite" : "definite"); if (n > 1) g.mark(); g.note("mean ", show(mu), " cov ", show(S));
  for (int r = 0; r < rounds; r++) {
    // uses of the same object that must not matter, and changes that must
    for (int k = 0, K = g.range(0, 4); k < K; k++) { int op = g.range(0, 7); g.note("op ", op);
      switch (op) {
        case 0: { Mat d = fromS(p.CovarianceGet()); if (!semi) p.ProbabilityGet(toC(genVec(g, n))); break; }
        case 1: { Sample<CV> s; rngctl::use_prng(g.seed()); p.SampleFrom(s); break; }
        case 2: { std::vector<Sample<CV>> v; rngctl::use_prng(g.seed()); p.SampleFrom(v, g.range(1, 3), g.chance(1, 2) ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY); break; }
        case 3: case 4: { Mat N2 = semi || g.chance(1, 3) ? p04cov(g, n, semi) : mutSPD(g, S); if (g.chance(1, 3)) { N2 = S; if (n > 1) { int i = g.range(0, n - 1); for (int j = 0; j < n; j++) if (j != i) N2(i, j) = N2(j, i) = -N2(i, j); } } S = N2; p.CovarianceSet(toS(S)); g.note("cov ", show(S)); break; }
        case 5: mu = mutVec(g, mu); p.ExpectedValueSet(toC(mu)); g.note("mean ", show(mu)); break;
        case 6: { Gaussian q(toC(genVec(g, n)), toS(genSPD(g, n))); Sample<CV> s; q.SampleFrom(s); q.ProbabilityGet(toC(genVec(g, n))); q = p; if (g.chance(1, 2)) { Sample<CV> t; q.SampleFrom(t); } p = q; break; }
        case 7: { std::unique_ptr<Gaussian> q(p.Clone()); q->CovarianceSet(toS(genSPD(g, n))); Sample<CV> s; q->SampleFrom(s); break; }
      } }
    int N = g.count(1, 4, 12); bool list = g.chance(2, 3); if (!list) N = 1; SampleMthd mth = g.chance(1, 2) ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY; g.note(list ? "list of " : "single ", N);
    auto draw = [&](const std::vector<double>& z, long& used) -> Vec {
      rngctl::use_prng(1); rngctl::set_normal_const(true, 0); for (double x : z) rngctl::push_normal(x);
      std::vector<Sample<CV>> v(list ? g.range(0, 0) : 0); Sample<CV> s1; bool ok; rngctl::reset_counts();
      if (list) ok = p.SampleFrom(v, N, mth); else { ok = p.SampleFrom(s1, mth); v.push_back(s1); }
      used = rngctl::normal_calls();
      REQUIRE(ok, "sampling reported failure on a positive semidefinite covariance"); REQUIRE((int)v.size() == N, "asked for ", N, " samples, got ", v.size());
      Vec o(N * n); for (int k = 0; k < N; k++) { Vec x = fromC(v[k].ValueGet()); REQUIRE(x.n() == n, "sample dimension ", x.n()); for (int i = 0; i < n; i++) o[k * n + i] = x[i]; } return o;
    };
    long used; Vec base = draw({}, used); R sc = 1 + maxabs(mu) + sqrtl(maxabs(S));
    if (used == 0) { g.label("normals not observable"); return; }
    Vec w(N * n); for (int k = 0; k < N; k++) for (int i = 0; i < n; i++) w[k * n + i] = mu[i];
    same("sample for zero noise", base, w, 1e-12L, sc);
    Mat J(N * n, (int)used);
    for (long j = 0; j < used; j++) { std::vector<double> z(j + 1, 0.0); z[j] = 1; long u2; Vec x = draw(z, u2); for (int r = 0; r < N * n; r++) J(r, j) = x[r] - base[r]; }
    Mat C = J * T(J), want(N * n, N * n); for (int k = 0; k < N; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) want(k * n + i, k * n + j) = S(i, j);
    R ms = 1e-290L + maxabs(S);
    for (int r = 0; r < N * n; r++) for (int c = 0; c < N * n; c++) REQUIRE(fabsl(C(r, c) - want(r, c)) <= 1e-10L * ms + 1e-14L * sc * sqrtl(ms) * 100, "covariance of samples: entry (", r, ",", c, ") ", (double)C(r, c), " expected ", (double)want(r, c));
    std::vector<double> z(used); for (auto& x : z) x = g.real(3); long u3; Vec x = draw(z, u3); Vec zz(used); for (int i = 0; i < (int)used; i++) zz[i] = z[i];
    same("sample is affine in the noise", x, base + J * zz, 1e-9L, sc * 4);
    same("mean unchanged by sampling", fromC(p.ExpectedValueGet()), mu, 0, 1); same("covariance unchanged by sampling", fromS(p.CovarianceGet()), S, 0, 1);
  }
}
static Reg a3({"P04", "dimension > 1", p04, false, "law", 60});
static void p04_reject(Gen& g) { // methods that are not provided and indefinite covariances are reported
  int n = genDim(g, 4); Vec mu = genVec(g, n); Mat S = genSPD(g, n); bool indef = g.chance(1, 2);
  SampleMthd mth = indef ? (g.chance(1, 2) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT) : (g.chance(1, 2) ? SampleMthd::BOXMULLER : SampleMthd::RIPLEY);
  if (indef) { int k = g.range(0, n - 1); S = Mat::I(n); S(k, k) = -g.pos(2); }
  Gaussian p(toC(mu), toS(S)); Sample<CV> s; std::vector<Sample<CV>> v; g.note(indef ? "indefinite" : "unsupported method"); g.mark();
  REQUIRE(!p.SampleFrom(s, mth), "single sampling reported success"); REQUIRE(!p.SampleFrom(v, g.range(1, 3), mth), "list sampling reported success");
}
static Reg a4({"P04", "every rejected request", p04_reject, false, "reject", 10});
// frequencies with the library's own generator
static void p04_real(Gen& g) {
  int n = g.range(1, 3); Vec mu = genVec(g, n); Mat S = genSPD(g, n); Gaussian p(toC(mu), toS(S)); rngctl::use_real();
  const int N = 4000; std::vector<Sample<CV>> v; bool list = g.chance(1, 2); if (list) p.SampleFrom(v, N); else { v.resize(N); for (auto& s : v) p.SampleFrom(s); }
  Vec m(n); for (auto& s : v) m = m + fromC(s.ValueGet()); m = (1.0L / N) * m; Mat C(n, n); for (auto& s : v) { Vec d = fromC(s.ValueGet()) - mu; C = C + outer(d, d); } C = (1.0L / N) * C; g.mark(); g.note("real generator, n=", n, " cov ", show(S));
  for (int i = 0; i < n; i++) REQUIRE(fabsl(m[i] - mu[i]) < 7 * sqrtl(S(i, i) / N), "sample mean ", show(m), " of ", show(mu));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(fabsl(C(i, j) - S(i, j)) < 8 * sqrtl((S(i, i) * S(j, j) + S(i, j) * S(i, j)) / N), "sample covariance ", show(C), " of ", show(S));
}
static Reg a5({"P04", "4000 draws with the library's generator", p04_real, false, "frequencies", 1});

// ---- P05 Uniform
struct MU { Vec c, w; };
static void p05(Gen& g) {
  int n = genDim(g, 5); std::vector<std::unique_ptr<Uniform>> P; std::vector<MU> M; bool set = false, cp = false;
  auto gm = [&] { MU m; m.c = genVec(g, n); m.w = Vec(n); for (int i = 0; i < n; i++) m.w[i] = std::ldexp(1.0 + g.raw(64), -4); return m; };
  int ops = g.count(1, 10, 40);
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? g.range(0, 1) : g.range(0, 7), i = P.empty() ? 0 : g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    switch (op) {
      case 0: { MU m = gm(); g.note("center ", show(m.c), " width ", show(m.w)); P.emplace_back(new Uniform(toC(m.c), toC(m.w))); M.push_back(m); break; }
      case 1: { MU m = gm(); P.emplace_back(new Uniform(g.chance(1, 2) ? n : 0)); P.back()->UniformSet(toC(m.c), toC(m.w)); M.push_back(m); set = true; break; }
      case 2: { MU m = gm(); if (g.chance(1, 4)) m.c = M[i].c; if (g.chance(1, 4)) { m.w = M[i].w; if (g.chance(1, 2)) std::reverse(m.w.v.begin(), m.w.v.end()); } g.note("center ", show(m.c), " width ", show(m.w)); P[i]->UniformSet(toC(m.c), toC(m.w)); M[i] = m; set = true; break; }
      case 3: P.emplace_back(g.chance(1, 2) ? new Uniform(*P[i]) : P[i]->Clone()); M.push_back(M[i]); cp = true; break;
      case 4: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; cp = true; break; }
      case 5: { // density
        Vec x(n); bool in = true; for (int d = 0; d < n; d++) { int pos = g.range(-6, 6); x[d] = M[i].c[d] + M[i].w[d] * pos / 8.0L; if (pos < -4 || pos > 4) in = false; if ((pos == 4 || pos == -4) && g.chance(1, 3)) { bool out = g.chance(1, 2); R e = M[i].w[d] * std::pow(10.0, g.range(-9, -1)); x[d] += (pos > 0) == out ? e : -e; x[d] = (double)x[d]; if (out) in = false; } } // +-4: the border and close to it
        R vol = 1; for (int d = 0; d < n; d++) vol *= M[i].w[d]; double got = P[i]->ProbabilityGet(toC(x)); g.note("density at ", show(x)); g.label(in ? "inside" : "outside");
        if (in) same("density inside", (R)got, 1 / vol, 1e-12L); else REQUIRE(got == 0, "density ", got, " outside the box"); break; }
      case 6: case 7: { // samples
        int N = g.count(1, 4, 40); bool list = g.chance(1, 2); std::vector<Sample<CV>> v; rngctl::use_prng(g.seed()); rngctl::edge_rate(200); std::vector<double> u; int cnt = (list ? N : 1) * n;
        for (int q = 0; q < cnt; q++) { double x = g.chance(1, 6) ? 0.0 : g.chance(1, 6) ? 4294967295.0 / 4294967296.0 : g.u01(); u.push_back(x); rngctl::push_uniform(x); }
        rngctl::reset_counts(); bool ok; if (list) ok = P[i]->SampleFrom(v, N); else { Sample<CV> s; ok = P[i]->SampleFrom(s); v.push_back(s); N = 1; }
        REQUIRE(ok && (int)v.size() == N, "sampling failed"); std::vector<R> t;
        for (auto& s : v) { Vec x = fromC(s.ValueGet()); REQUIRE(x.n() == n, "sample dimension ", x.n()); for (int d = 0; d < n; d++) { R q = (x[d] - M[i].c[d]) / M[i].w[d] + 0.5L; t.push_back(q); REQUIRE(q >= -1e-12L && q <= 1 + 1e-12L, "sample outside the box: ", show(x), " center ", show(M[i].c), " width ", show(M[i].w)); } }
        if (rngctl::uniform_calls() == cnt) { std::sort(t.begin(), t.end()); std::sort(u.begin(), u.end()); for (int q = 0; q < cnt; q++) REQUIRE(fabsl(t[q] - u[q]) < 1e-9L, "sample position within the box ", (double)t[q], " for uniform ", u[q]); g.label("scripted"); }
        break; }
    }
    for (size_t q = 0; q < P.size(); q++) { REQUIRE((int)P[q]->DimensionGet() == n, "dimension"); same("center", fromC(P[q]->CenterGet()), M[q].c, 1e-13L, 8); same("width", fromC(P[q]->WidthGet()), M[q].w, 1e-13L, 8); }
    if (P.size() > 4) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  if (set || cp) g.mark();
}
static Reg a6({"P05", "a history with a set or a copy", p05, false, "history", 60});
static void p05_real(Gen& g) {
  int n = g.range(1, 3); Vec c = genVec(g, n), w(n); for (int i = 0; i < n; i++) w[i] = g.pos(4); Uniform p(toC(c), toC(w)); rngctl::use_real(); const int N = 3000; std::vector<Sample<CV>> v; p.SampleFrom(v, N); g.mark(); g.note("real generator");
  for (int i = 0; i < n; i++) { R m = 0, s = 0; for (auto& x : v) { R t = (x.ValueGet()(i + 1) - c[i]) / w[i]; m += t; s += t * t; } m /= N; s /= N; REQUIRE(fabsl(m) < 7 * sqrtl(1.0L / 12 / N) && fabsl(s - 1.0L / 12) < 7 * sqrtl(1.0L / 180 / N), "uniform sample moments ", (double)m, " ", (double)s); }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { R s = 0; for (auto& x : v) s += (x.ValueGet()(i + 1) - c[i]) / w[i] * (x.ValueGet()(j + 1) - c[j]) / w[j]; REQUIRE(fabsl(s / N) < 7 * (1.0L / 12) / sqrtl(N), "coordinates correlated"); }
}
static Reg a7({"P05", "3000 draws with the library's generator", p05_real, false, "frequencies", 1});
