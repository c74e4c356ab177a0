// P12 conditional Gaussians, P14 models, P15 linear Kalman filtering, P16 EKF, P17 IEKF, P18 square-root filter.
#include "models.h"
#include "pdf/conditionalgaussian_additivenoise.h"
#include "filter/extendedkalmanfilter.h"
#include "filter/iteratedextendedkalmanfilter.h"
#include "filter/innovationCheck.h"
#include "filter/SRiteratedextendedkalmanfilter.h"
#include "impl.h"
#include "model/discretesystemmodel.h"
#include "pdf/discreteconditionalpdf.h"

static double dbl(Probability p) { return (double)p; }
static std::vector<Vec> genArgs(Gen& g, const Model& m) { std::vector<Vec> a; for (auto& x : m.M) a.push_back(genVec(g, x.c)); return a; }

// ------------------------------------------------ P12
// a user pdf built on the non-analytic base class
class PlainPdf : public ConditionalGaussianAdditiveNoise {
  Model m_;
 public:
  PlainPdf(const Model& m) : ConditionalGaussianAdditiveNoise(Gaussian(toC(m.mu), toS(m.S)), m.M.size()), m_(m) { m_.mu = Vec(m.rows()); }
  virtual PlainPdf* Clone() const { return new PlainPdf(*this); }
  virtual CV ExpectedValueGet() const { std::vector<Vec> a; for (unsigned i = 0; i < NumConditionalArgumentsGet(); i++) a.push_back(fromC(ConditionalArgumentGet(i))); return toC(m_.f(a) + fromC(AdditiveNoiseMuGet())); }
};
static Vec rep(const Vec& v, int k) { Vec o; for (int t = 0; t < k; t++) for (R x : v.v) o.v.push_back(x); return o; }
static Mat blockDiag(const Mat& m, int k) { Mat o(m.r * k, m.c * k); for (int t = 0; t < k; t++) for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(t * m.r + i, t * m.c + j) = m(i, j); return o; }
static void p12(Gen& g) {
  int n = genDim(g, 4), k = g.count(1, 3, 6); std::vector<int> cols; for (int i = 0; i < k; i++) cols.push_back(genDim(g, 4)); int kind = g.range(0, 2); // 0 linear 1 user analytic 2 user plain
  if (kind) { if (k > 2) { k = 2; cols.resize(2); } }
  Model m0 = genModel(g, n, cols, kind != 0); if (kind == 2) m0.dep = false; bool dep = m0.dep;
  struct Obj { std::unique_ptr<ConditionalPdf<CV, CV>> p; Model m; std::vector<Vec> a; }; std::vector<Obj> O(1);
  O[0].m = m0; if (kind == 0) O[0].p.reset(makePdf(m0).release()); else if (kind == 1) O[0].p.reset(new UserPdf(m0)); else O[0].p.reset(new PlainPdf(m0));
  O[0].a = std::vector<Vec>(); for (int c : cols) O[0].a.push_back(Vec(c)); if (kind == 2) for (int i = 0; i < k; i++) O[0].p->ConditionalArgumentSet(i, toC(O[0].a[i]));
  g.note("kind ", kind, " ", show(m0)); int ops = g.count(1, 10, 40), q = 0, ch = 0;
  auto noise = [&](Obj& o, bool mean) { AnalyticConditionalGaussianAdditiveNoise* x = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(o.p.get()); ConditionalGaussianAdditiveNoise* y = dynamic_cast<ConditionalGaussianAdditiveNoise*>(o.p.get());
    if (mean) { o.m.mu = mutVec(g, o.m.mu); if (x) x->AdditiveNoiseMuSet(toC(o.m.mu)); else y->AdditiveNoiseMuSet(toC(o.m.mu)); same("noise mean", fromC(x ? x->AdditiveNoiseMuGet() : y->AdditiveNoiseMuGet()), o.m.mu, 0, 1); }
    else { o.m.S = mutSPD(g, o.m.S); if (x) x->AdditiveNoiseSigmaSet(toS(o.m.S)); else y->AdditiveNoiseSigmaSet(toS(o.m.S)); same("noise covariance", fromS(x ? x->AdditiveNoiseSigmaGet() : y->AdditiveNoiseSigmaGet()), o.m.S, 0, 1); } };
  for (int s = 0; s < ops; s++) {
    int op = g.range(0, 11), i = g.range(0, (int)O.size() - 1); Obj& o = O[i]; g.note("op ", op, " on ", i); int k = (int)o.a.size();
    switch (op) {
      case 11: if (kind == 0) { // another number of arguments: those that stay keep matrix and value, new ones are defined by the user
        int k2 = g.range(1, 4); g.note("arguments ", k, " -> ", k2); auto* l = (LinearAnalyticConditionalGaussian*)o.p.get(); l->NumConditionalArgumentsSet(k2);
        o.a.resize(std::min(k, k2)); o.m.M.resize(std::min(k, k2)); for (int j = k; j < k2; j++) { int c = genDim(g, 4); o.m.M.push_back(genMat(g, n, c, 2)); o.a.push_back(genVec(g, c)); l->MatrixSet(j, toM(o.m.M[j])); l->ConditionalArgumentSet(j, toC(o.a[j])); } ch++; } break;
      case 10: { // requests that cannot be served are reported, and do no harm
        int w = g.range(0, 2); g.note("refused request ", w); Sample<CV> x; std::vector<Sample<CV>> l; rngctl::use_prng(g.seed());
        if (w) { SampleMthd mt = w == 1 ? SampleMthd::BOXMULLER : SampleMthd::RIPLEY; REQUIRE(!o.p->SampleFrom(x, mt) && !o.p->SampleFrom(l, 2, mt), "sampling method that is not provided reported as success"); break; }
        AnalyticConditionalGaussianAdditiveNoise* ax = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(o.p.get()); ConditionalGaussianAdditiveNoise* ay = dynamic_cast<ConditionalGaussianAdditiveNoise*>(o.p.get());
        Mat bad(o.m.S); int t = g.range(0, n - 1); bad(t, t) = -bad(t, t); if (ax) ax->AdditiveNoiseSigmaSet(toS(bad)); else ay->AdditiveNoiseSigmaSet(toS(bad));
        SampleMthd mt = g.chance(1, 2) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; REQUIRE(!o.p->SampleFrom(x, mt) && !o.p->SampleFrom(l, 2, mt), "sampling with an indefinite covariance reported as success"); if (ax) ax->AdditiveNoiseSigmaSet(toS(o.m.S)); else ay->AdditiveNoiseSigmaSet(toS(o.m.S)); break; }
      case 0: { int j = g.range(0, k - 1); o.a[j] = mutVec(g, o.a[j]); o.p->ConditionalArgumentSet(j, toC(o.a[j])); ch++; break; }
      case 1: { std::vector<CV> v; for (int j = 0; j < k; j++) { o.a[j] = mutVec(g, o.a[j]); v.push_back(toC(o.a[j])); } o.p->ConditionalArgumentsSet(v); ch++; break; }
      case 2: noise(o, true); ch++; break;
      case 3: noise(o, false); ch++; break;
      case 4: if (kind == 0) { int j = g.range(0, k - 1); o.m.M[j] = mutMat(g, o.m.M[j]); ((LinearAnalyticConditionalGaussian*)o.p.get())->MatrixSet(j, toM(o.m.M[j])); ch++; } break;
      case 5: if (O.size() < 3) { Obj c; c.p.reset(o.p->Clone()); c.m = o.m; c.a = o.a; O.push_back(std::move(c)); } break;
      case 6: { bool ch = g.chance(1, 2); affineLaw(g, [&] { Sample<CV> x; REQUIRE(O[i].p->SampleFrom(x, ch ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT), "sampling failed"); return fromC(x.ValueGet()); }, o.m.f(o.a), o.m.cov(o.a)); q++; break; }
      case 7: { int len = g.range(1, 3), at = g.range(0, len - 1); bool ch = g.chance(1, 2); g.note("list of ", len); // every element of a list follows the law
        affineLaw(g, [&] { std::vector<Sample<CV>> x(at); REQUIRE(O[i].p->SampleFrom(x, len, ch ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT), "sampling failed"); REQUIRE((int)x.size() == len, "list size ", x.size(), " instead of ", len); Vec v(n * len); for (int t = 0; t < len; t++) { Vec w = fromC(x[t].ValueGet()); REQUIRE(w.n() == n, "sample dimension"); for (int r = 0; r < n; r++) v[t * n + r] = w[r]; } return v; }, rep(o.m.f(o.a), len), blockDiag(o.m.cov(o.a), len)); q++; break; }
      default: { Vec mu = o.m.f(o.a); Mat S = o.m.cov(o.a); Vec x = mu + genVec(g, n, g.chance(1, 3) ? 20 : 2); x = roundD(x); R lw = logGauss(x, mu, S), c = cond_sym(S), e = -2 * lw; double d = dbl(o.p->ProbabilityGet(toC(x))); same("density", (R)d, expl(lw), 1e-11L * c * (1 + fabsl(e)), expl(lw) + 1e-290L); q++; }
    }
    for (auto& x : O) { int k = (int)x.a.size(); REQUIRE((int)x.p->ConditionalArgumentsGet().size() == k, "number of arguments"); for (int j = 0; j < k; j++) same("argument in the list", fromC(x.p->ConditionalArgumentsGet()[j]), x.a[j], 0, 1);
      R sc = 1 + maxabs(x.m.mu); for (size_t j = 0; j < x.a.size(); j++) sc += 4 * maxabs(x.m.M[j]) * maxabs(x.a[j]);
      same("conditional mean", fromC(x.p->ExpectedValueGet()), x.m.f(x.a), 1e-13L, sc); same("conditional covariance", fromS(x.p->CovarianceGet()), x.m.cov(x.a), 1e-14L * 4, maxabs(x.m.S) * 2);
      REQUIRE((int)x.p->DimensionGet() == n && (int)x.p->NumConditionalArgumentsGet() == k, "sizes"); for (int j = 0; j < k; j++) same("stored argument", fromC(x.p->ConditionalArgumentGet(j)), x.a[j], 0, 1);
      if (kind == 0) for (int j = 0; j < k; j++) { same("matrix", fromM(((LinearAnalyticConditionalGaussian*)x.p.get())->MatrixGet(j)), x.m.M[j], 0, 1); same("derivative", fromM(((LinearAnalyticConditionalGaussian*)x.p.get())->dfGet(j)), x.m.M[j], 0, 1); }
    }
  }
  if (ch && q) g.mark(); g.label(str("kind ", kind, dep ? " dep" : "")); g.label(str("args ", k));
}
static Reg c1({"P12", "at least one change of arguments or parameters and one density or sampling query", p12, false, "conditional", 1});

// ------------------------------------------------ P14 models
static void p14(Gen& g) {
  int n = genDim(g, 4), nu = genDim(g, 3), nz = genDim(g, 4), ns = genDim(g, 3), q = 0; bool lin = g.chance(1, 2), swapped = false;
  Sys S[2]; Meas Z[2]; S[0] = makeSys(genModel(g, n, {n}, !lin)); S[1] = makeSys(genModel(g, n, {n, nu}, !lin)); Z[0] = makeMeas(genModel(g, nz, {n}, !lin)); Z[1] = makeMeas(genModel(g, nz, {n, ns}, !lin));
  // one system and one measurement model object whose pdf is exchanged
  int cs = g.range(0, 1), cz = g.range(0, 1); AnalyticSystemModelGaussianUncertainty sys(S[cs].pdf.get()); AnalyticMeasurementModelGaussianUncertainty me(Z[cz].pdf.get());
  g.note(lin ? "linear " : "nonlinear ", "n=", n, " nu=", nu, " nz=", nz, " ns=", ns); int ops = g.count(2, 14, 50);
  Vec x(n), u(nu), s(ns);
  for (int k = 0; k < ops; k++) {
    x = mutVec(g, x); u = mutVec(g, u); s = mutVec(g, s); std::vector<Vec> sa = {x}, za = {x}; if (cs) sa.push_back(u); if (cz) za.push_back(s); const Model &ms = S[cs].m, &mz = Z[cz].m; int op = g.range(0, 11); g.note("op ", op);
    bool viaLin = lin && g.chance(1, 2); AnalyticSystemModelGaussianUncertainty& sm = viaLin ? *S[cs].model : sys; AnalyticMeasurementModelGaussianUncertainty& zm = viaLin ? *Z[cz].model : me;
    switch (op) {
      case 0: cs = 1 - cs; sys.SystemPdfSet(S[cs].pdf.get()); swapped = true; break;
      case 1: cz = 1 - cz; me.MeasurementPdfSet(Z[cz].pdf.get()); swapped = true; break;
      case 2: { Vec y = roundD(ms.f(sa) + genVec(g, n, 2)); R l = logGauss(y, ms.f(sa), ms.cov(sa)); double d = cs ? dbl(sm.ProbabilityGet(toC(y), toC(x), toC(u))) : dbl(sm.ProbabilityGet(toC(y), toC(x))); same("transition density", (R)d, expl(l), 1e-11L * cond_sym(ms.S) * (1 + fabsl(l)), expl(l) + 1e-290L); q++; break; }
      case 3: { Vec y = roundD(mz.f(za) + genVec(g, nz, 2)); R l = logGauss(y, mz.f(za), mz.cov(za)); double d = cz ? dbl(zm.ProbabilityGet(toC(y), toC(x), toC(s))) : dbl(zm.ProbabilityGet(toC(y), toC(x))); same("measurement likelihood", (R)d, expl(l), 1e-11L * cond_sym(mz.S) * (1 + fabsl(l)), expl(l) + 1e-290L); q++; break; }
      case 4: { SampleMthd mt = g.chance(1, 2) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; affineLaw(g, [&] { return fromC(cs ? sm.Simulate(toC(x), toC(u), mt) : sm.Simulate(toC(x), mt)); }, ms.f(sa), ms.cov(sa)); q++; break; }
      case 5: { SampleMthd mt = g.chance(1, 2) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; affineLaw(g, [&] { return fromC(cz ? zm.Simulate(toC(x), toC(s), mt) : zm.Simulate(toC(x), mt)); }, mz.f(za), mz.cov(za)); q++; break; }
      case 6: case 10: { R sc = 1 + 16 * maxabs(ms.f(sa)) + 64; int w = g.range(0, 2); for (int t = 0, K = g.chance(1, 2) ? 3 : 1; t < K; t++, w = (w + 1) % 3) { g.note("query ", w); if (w == 0) same("system prediction", fromC(sm.PredictionGet(toC(u), toC(x))), ms.f(sa), 1e-13L, sc); else if (w == 1) same("system derivative", fromM(sm.df_dxGet(toC(u), toC(x))), ms.df(sa), 1e-13L, 4); else same("system covariance", fromS(sm.CovarianceGet(toC(u), toC(x))), ms.cov(sa), 1e-13L, maxabs(ms.S) * 2); } q++; break; }
      case 7: case 11: { R sc = 1 + 16 * maxabs(mz.f(za)) + 64; int w = g.range(0, 2); for (int t = 0, K = g.chance(1, 2) ? 3 : 1; t < K; t++, w = (w + 1) % 3) { g.note("query ", w); if (w == 0) same("measurement prediction", fromC(zm.PredictionGet(toC(s), toC(x))), mz.f(za), 1e-13L, sc); else if (w == 1) same("measurement derivative", fromM(zm.df_dxGet(toC(s), toC(x))), mz.df(za), 1e-13L, 4); else same("measurement covariance", fromS(zm.CovarianceGet(toC(s), toC(x))), mz.cov(za), 1e-13L, maxabs(mz.S) * 2); } q++; break; }
      case 8: if (lin) { auto& l = *(LinearAnalyticSystemModelGaussianUncertainty*)S[cs].model.get(); Mat A = mutMat(g, S[cs].m.M[0]), B = cs ? mutMat(g, S[cs].m.M[1]) : Mat(); l.ASet(toM(A)); S[cs].m.M[0] = A; same("A", fromM(l.AGet()), A, 0, 1); if (cs) { l.BSet(toM(B)); S[cs].m.M[1] = B; same("B", fromM(l.BGet()), B, 0, 1); same("A after B", fromM(l.AGet()), A, 0, 1); } } break;
      case 9: if (lin) { auto& l = *(LinearAnalyticMeasurementModelGaussianUncertainty*)Z[cz].model.get(); Mat H = mutMat(g, Z[cz].m.M[0]), J = cz ? mutMat(g, Z[cz].m.M[1]) : Mat(); l.HSet(toM(H)); Z[cz].m.M[0] = H; same("H", fromM(l.HGet()), H, 0, 1); if (cz) { l.JSet(toM(J)); Z[cz].m.M[1] = J; same("J", fromM(l.JGet()), J, 0, 1); same("H after J", fromM(l.HGet()), H, 0, 1); } } break;
    }
    REQUIRE(sys.SystemWithoutInputs() == (cs == 0), "SystemWithoutInputs is wrong"); REQUIRE(me.SystemWithoutSensorParams() == (cz == 0), "SystemWithoutSensorParams is wrong"); REQUIRE(sys.StateSizeGet() == n && me.MeasurementSizeGet() == nz, "sizes"); REQUIRE(sys.SystemPdfGet() == S[cs].pdf.get() && me.MeasurementPdfGet() == Z[cz].pdf.get(), "pdf accessors");
  }
  if (q > 1) g.mark(); g.label(lin ? "linear" : "nonlinear"); if (swapped) g.label("pdf exchanged");
}
static Reg c2({"P14", "at least two queries of the models", p14, false, "gaussian", 3});
static void p14_discrete(Gen& g) {
  int n = g.count(1, 5, 12), nu = g.count(1, 3, 8); bool in = g.chance(1, 2); int dims[2] = {n, nu}; DiscreteConditionalPdf pdf(n, in ? 2 : 1, dims); std::vector<std::vector<std::vector<double>>> Tt(n, std::vector<std::vector<double>>(nu, std::vector<double>(n)));
  for (int x = 0; x < n; x++) for (int u = 0; u < (in ? nu : 1); u++) { double s = 0; std::vector<int> w(n); for (int y = 0; y < n; y++) { w[y] = g.range(0, 4); s += w[y]; } if (s == 0) { w[g.range(0, n - 1)] = 1; s = 1; } for (int y = 0; y < n; y++) { Tt[x][u][y] = w[y] / s; std::vector<int> c = {x}; if (in) c.push_back(u); pdf.ProbabilitySet(w[y] / s, y, c); } }
  DiscreteSystemModel m(&pdf); DiscreteSystemModel m2(m); DiscreteSystemModel& mm = g.chance(1, 2) ? m : m2; REQUIRE((int)mm.NumStatesGet() == n && mm.SystemWithoutInputs() == !in, "discrete model sizes"); g.note("discrete states ", n, " inputs ", in ? nu : 0); if (n > 1) g.mark();
  for (int k = 0; k < 12; k++) { int x = g.range(0, n - 1), u = g.range(0, in ? nu - 1 : 0), y = g.range(0, n - 1); double d = in ? dbl(mm.ProbabilityGet(y, x, u)) : dbl(mm.ProbabilityGet(y, x)); REQUIRE(d == Tt[x][u][y], "P(", y, "|", x, ",", u, ") = ", d, " expected ", Tt[x][u][y]);
    rngctl::use_prng(g.seed()); rngctl::edge_rate(300); int r = in ? mm.Simulate(x, u) : mm.Simulate(x); REQUIRE(r >= 0 && r < n && Tt[x][u][r] > 0, "simulated state ", r, " from ", x); }
}
static Reg c3({"P14", "more than one state", p14_discrete, false, "discrete", 1});

// ------------------------------------------------ Kalman filters
static void psd(const Bel& b, R tolAbs) { for (int i = 0; i < b.P.r; i++) for (int j = 0; j < i; j++) REQUIRE(b.P(i, j) == b.P(j, i), "covariance is not symmetric: ", show(b.P)); R lo = eigs(b.P)[0]; REQUIRE(lo >= -tolAbs, "covariance is not positive semidefinite: smallest eigenvalue ", (double)lo, " of ", show(b.P)); }
typedef Filter<CV, CV> F_;
// apply an update through one of the public overloads
static bool doUpdate(Gen& g, F_& f, Sys* s, const Vec& u, Meas* z, const Vec& zv, const Vec& sv) {
  bool ui = s && (s->in() || g.chance(1, 4)), zi = z && (z->in() || g.chance(1, 4)); // a model without input ignores it
  if (s && z) { if (ui && zi) return f.Update(s->model.get(), toC(u), z->model.get(), toC(zv), toC(sv)); if (ui) return f.Update(s->model.get(), toC(u), z->model.get(), toC(zv)); if (zi) return f.Update(s->model.get(), z->model.get(), toC(zv), toC(sv)); return f.Update(s->model.get(), z->model.get(), toC(zv)); }
  if (s) return ui ? f.Update(s->model.get(), toC(u)) : f.Update(s->model.get());
  return zi ? f.Update(z->model.get(), toC(zv), toC(sv)) : f.Update(z->model.get(), toC(zv));
}
static void kfHistory(Gen& g, bool nl, int iekf /*0 EKF only, 1 both*/) {
  int n = genDim(g, 4), nu = genDim(g, 3), ns = genDim(g, 2); double ps = g.chance(1, 4) ? genScale(g) : 1;
  struct Fl { std::unique_ptr<Gaussian> prior; Bel pb; std::unique_ptr<KalmanFilter> f; ExtendedKalmanFilter* e; Bel cur; R slack; }; std::vector<Fl> F;
  std::vector<Sys> S; std::vector<Meas> Z; int a = g.range(1, 2), b = g.range(1, 3);
  for (int i = 0; i < a; i++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(nu); S.push_back(makeSys(i && g.chance(1, 3) ? variant(g, S[0].m) : genModel(g, n, c, nl && g.chance(3, 4), g.chance(3, 4), 1.5))); g.note("system ", show(S[i].m)); }
  for (int i = 0; i < b; i++) { std::vector<int> c = {n}; if (g.chance(1, 3)) c.push_back(ns); Z.push_back(makeMeas(i && g.chance(1, 3) ? variant(g, Z[0].m) : genModel(g, genDim(g, 4), c, nl && g.chance(3, 4), !g.chance(1, 5)))); g.note("measurement ", show(Z[i].m)); }
  int nf = g.range(1, 2), preds = 0, corr = 0, used = 0;
  for (int i = 0; i < nf; i++) { Fl x; x.pb.m = genVec(g, n); x.pb.P = i && g.chance(1, 3) ? F[0].pb.P : g.chance(1, 5) ? genPSD(g, n) : genSPD(g, n, ps); x.prior.reset(new Gaussian(toC(x.pb.m), toS(x.pb.P))); x.e = 0; x.slack = 0; if (iekf && g.chance(1, 2)) x.f.reset(new IteratedExtendedKalmanFilter(x.prior.get(), g.count(1, 4, 12))); else { x.e = new ExtendedKalmanFilter(x.prior.get()); x.f.reset(x.e); } x.cur = x.pb; g.note("prior ", show(x.pb.m), " ", show(x.pb.P)); F.push_back(std::move(x)); }
  int ops = g.count(1, 10, 40); Vec lu, ls, lz;
  for (int k = 0; k < ops; k++) {
    int op = g.range(0, 9); Fl& x = F[g.range(0, nf - 1)]; Sys& s = S[g.range(0, a - 1)]; Meas& z = Z[g.range(0, b - 1)]; Vec u = stick(g, lu, genVec(g, nu)), sv = stick(g, ls, genVec(g, ns)), zv = stick(g, lz, genVec(g, z.m.rows(), g.chance(1, 4) ? 40 : 4));
    if (op <= 5) {
      bool p = op != 1 && op != 2, c = op != 0 && op != 3; Bel bel = x.cur; R sm = maxabs(bel.m) + 1, sp = maxabs(bel.P) + 1e-290L;
      if (p) { bel = predict(bel, s.m, u); preds++; sm = sm * (1 + 4 * maxabs(s.m.M[0])) + maxabs(bel.m) + 16; sp = sp * 16 * (1 + maxabs(s.m.M[0]) * maxabs(s.m.M[0]) * 4) + maxabs(bel.P); }
      R sl = x.slack; if (p) sl = sl * n * n * 16 * (1 + maxabs(s.m.M[0]) * maxabs(s.m.M[0]) * 4);
      R tm = 1e-13L * sm, tp = 1e-13L * sp; if (c) { if (g.chance(1, 6)) { std::vector<Vec> za = {bel.m}; if (z.in()) za.push_back(sv); zv = g.chance(1, 2) ? fromC(z.model->PredictionGet(toC(sv), toC(roundD(bel.m)))) : roundD(z.m.f(za)); } Upd up = correct(bel, z.m, zv, sv); corr++; R em = p ? tm : 0, eP = p ? tp : 0; if (nl) eP += em * 4 * (maxabs(bel.P) + 1); tm = 1e-13L * sm + up.meanTol(em * (nl ? 1 + 8 * up.nK * (1 + maxabs(up.innov)) : 1), eP); tp = up.covTol(eP) + 1e-14L * sp; if (nl) tp += em * up.nK * (1 + up.nH) * up.nP * 8; if (!(up.condS <= 1e8L) || !((sl + tp) * up.nH * up.nH * up.S.r * up.nSi <= 1e-3L) || !(tm <= 1e-5L * (1 + maxabs(up.b.m))) || !(tp <= 1e-5L * maxabs(bel.P))) { preds -= p; corr--; continue; } /* not well conditioned: not done */ bel = up.b; sl *= (1 + up.nK * up.nH) * (1 + up.nK * up.nH); }
      g.note("update ", p ? "predict " : "", c ? "correct " : "", " u ", show(u), " z ", show(zv), " s ", show(sv)); REQUIRE(doUpdate(g, *x.f, p ? &s : 0, u, c ? &z : 0, zv, sv), "update reported failure");
      Bel got = belOf(*x.f->PostGet()); sameBel(c ? "posterior" : "prediction", got, bel, 1, tm, tp); x.slack = sl + tp * n; psd(got, x.slack); if (c && !p) for (int i = 0; i < n; i++) REQUIRE(got.P(i, i) <= x.cur.P(i, i) + tp, "a measurement increased variance ", i); x.cur = got; used++;
    } else if (op == 6) { unsigned d = genDim(g, 5); if (g.chance(1, 2)) x.f->AllocateMeasModel(d); else x.f->AllocateMeasModel(std::vector<unsigned>{d, (unsigned)genDim(g, 5)}); if (x.e) { if (g.chance(1, 2)) x.e->AllocateMeasModelExt(d); else x.e->AllocateMeasModelExt(std::vector<unsigned>{(unsigned)genDim(g, 5), d}); } else { auto* i = (IteratedExtendedKalmanFilter*)x.f.get(); if (g.chance(1, 2)) i->AllocateMeasModelIExt(d); else i->AllocateMeasModelIExt(std::vector<unsigned>{d, (unsigned)genDim(g, 5)}); } }
    else if (op == 7) { if (x.e && !z.in()) { if (g.chance(1, 4)) zv = fromC(z.model->PredictionGet(toC(sv), toC(x.cur.m))); Upd up = correct(x.cur, z.m, zv, sv); R want = dot(up.innov, inv(up.S) * up.innov); R ei = 1e-13L * up.nZ, eS = 1e-13L * up.nSi * (up.condS + up.nSi * up.nH * up.nH * up.nP); R tl = up.S.r * (eS * maxabs(up.innov) * maxabs(up.innov) * up.S.r + 2 * up.nSi * maxabs(up.innov) * ei + up.nSi * ei * ei) + 1e-14L; if (!(up.condS <= 1e8L) || !(x.slack * up.nH * up.nH * up.S.r * up.nSi <= 1e-3L) || !(tl <= 1e-4L * (1 + want))) continue; double got = x.e->NisGet(z.model.get(), toC(zv)); same("normalised innovation squared", (R)got, want, 1, tl); } }
    else if (op == 8) { if (!s.m.nl) { auto& l = *(LinearAnalyticSystemModelGaussianUncertainty*)s.model.get(); s.m.M[0] = mutMat(g, s.m.M[0], 1.5); l.ASet(toM(s.m.M[0])); if (s.in()) { s.m.M[1] = mutMat(g, s.m.M[1]); l.BSet(toM(s.m.M[1])); } g.note("new A ", show(s.m.M[0])); } }
    else { auto* p = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(z.pdf.get()); z.m.S = mutSPD(g, z.m.S); z.m.mu = mutVec(g, z.m.mu); p->AdditiveNoiseSigmaSet(toS(z.m.S)); p->AdditiveNoiseMuSet(toC(z.m.mu)); g.note("new measurement noise ", show(z.m.mu), " ", show(z.m.S)); }
    for (auto& y : F) { Bel t = belOf(*y.f->PostGet()); sameBel("belief of an untouched filter", t, y.cur, 0, 1, 1); Bel pr = belOf(*y.prior); sameBel("prior object", pr, y.pb, 0, 1, 1); }
  }
  if (preds && corr) g.mark(); g.label(str("filters ", nf)); g.label(used > 4 ? "long" : "short");
}
static void p15(Gen& g) { kfHistory(g, false, 1); }
static Reg c4({"P15", "at least one prediction and one correction", p15, false, "history", 4});
static R d_inv(const Mat& S) { return S.r * maxabs(inv(S)); }
static void p15_seq(Gen& g) { // stacked measurement = the parts one after the other, in any order
  int n = genDim(g, 4), k = g.range(2, 3); Bel b; b.m = genVec(g, n); b.P = genSPD(g, n); Gaussian pr(toC(b.m), toS(b.P)); std::vector<Model> ms; std::vector<Vec> zs; int tot = 0; for (int i = 0; i < k; i++) { ms.push_back(genModel(g, g.range(1, 2), {n}, false)); zs.push_back(genVec(g, ms[i].rows())); tot += ms[i].rows(); }
  Model J; J.M = {Mat(tot, n)}; J.mu = Vec(tot); J.S = Mat(tot, tot); Vec z(tot); int o = 0; for (int i = 0; i < k; i++) { for (int r = 0; r < ms[i].rows(); r++) { for (int c = 0; c < n; c++) J.M[0](o + r, c) = ms[i].M[0](r, c); J.mu[o + r] = ms[i].mu[r]; z[o + r] = zs[i][r]; for (int c = 0; c < ms[i].rows(); c++) J.S(o + r, o + c) = ms[i].S(r, c); } o += ms[i].rows(); }
  Meas jm = makeMeas(J); ExtendedKalmanFilter f1(&pr), f2(&pr), f3(&pr); f1.Update(jm.model.get(), toC(z)); std::vector<Meas> m; for (auto& x : ms) m.push_back(makeMeas(x)); R c = correct(b, J, z, Vec()).condS; if (c > 1e7L) g.discard();
  for (int i = 0; i < k; i++) { f2.Update(m[i].model.get(), toC(zs[i])); f3.Update(m[k - 1 - i].model.get(), toC(zs[k - 1 - i])); } g.mark(); g.note("stacked ", tot, " in ", k, " parts, n=", n);
  Bel B1 = belOf(*f1.PostGet()), B2 = belOf(*f2.PostGet()), B3 = belOf(*f3.PostGet()); R sm = 100 + maxabs(B1.m), sp = 1 + maxabs(b.P); Upd ju = correct(b, J, z, Vec()); R rr = 1 + ju.nP * ju.nH * ju.nH * d_inv(J.S); R tol = 1e-13L * (1 + c) * rr * 10; if (tol > 1e-5L) g.discard(); sameBel("joint and sequential", B2, B1, tol, sm, sp); sameBel("order", B3, B1, tol, sm, sp);
  // information form
  Mat I = inv(b.P) + T(J.M[0]) * inv(J.S) * J.M[0]; Mat P = inv(I); Vec mm = P * (inv(b.P) * b.m + T(J.M[0]) * (inv(J.S) * (z - J.mu))); Bel w; w.m = mm; w.P = P; sameBel("information form", B1, w, tol, sm, sp);
}
static Reg c5({"P15", "every stacked measurement", p15_seq, false, "sequential", 1});
static void p16(Gen& g) { kfHistory(g, true, 0); }
static Reg c6({"P16", "at least one prediction and one correction", p16, false, "history", 1});

// ------------------------------------------------ P17
static void p17(Gen& g) {
  int n = genDim(g, 3), ns = genDim(g, 2), nu = genDim(g, 2), iters = g.chance(1, 6) ? g.range(7, 20) : g.range(1, 6); std::unique_ptr<InnovationCheck> ck; double thr = 0; bool has = g.chance(1, 2); if (has) { thr = std::pow(10.0, g.range(-12, 1)) * g.pos(1); ck.reset(new InnovationCheck(thr)); }
  Bel cur; cur.m = genVec(g, n, 2); cur.P = genSPD(g, n); Gaussian prior(toC(cur.m), toS(cur.P)); IteratedExtendedKalmanFilter f(&prior, iters, ck.get());
  std::vector<int> sc = {n}; if (g.chance(1, 2)) sc.push_back(nu); Sys s = makeSys(genModel(g, n, sc, true, g.chance(3, 4), 1)); std::vector<Meas> Z; for (int i = 0; i < 2; i++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(ns); Z.push_back(makeMeas(i && g.chance(1, 3) ? variant(g, Z[0].m) : genModel(g, genDim(g, 3), c, g.chance(5, 6), true, 1))); }
  g.note("iterations ", iters, has ? " threshold " : " no check ", thr, " prior ", show(cur.m), " ", show(cur.P)); int ops = g.count(1, 5, 20); bool stopped = false, multi = false; R slack = 0; Vec lu, ls, lz;
  for (int k = 0; k < ops; k++) {
    Vec u = stick(g, lu, genVec(g, nu)); if (g.chance(1, 3)) { Bel w = predict(cur, s.m, u); if (s.in()) f.Update(s.model.get(), toC(u)); else f.Update(s.model.get()); Bel got = belOf(*f.PostGet()); sameBel("prediction", got, w, 1e-10L, 100 + maxabs(w.m) + maxabs(cur.m), 1 + maxabs(w.P) + 40 * maxabs(cur.P)); cur = got; slack = slack * 40 * n * n + 1e-12L * maxabs(got.P); continue; }
    Meas& z = Z[g.range(0, 1)]; Vec zv = stick(g, lz, genVec(g, z.m.rows())), sv = stick(g, ls, genVec(g, ns)); g.note("measurement ", show(z.m), " z ", show(zv)); Vec xi = cur.m; Upd up; R em = 0, eP = 0; int it = 0; bool go = true;
    while (it < iters && go) { std::vector<Vec> a = {xi}; if (z.in()) a.push_back(sv); Mat H = z.m.df(a); Vec Zi = z.m.f(a) + H * (cur.m - xi); up = correctWith(cur, zv, Zi, H, z.m.cov(a)); if (up.condS > 1e6L) g.discard(); { R e0 = em; em = up.meanTol(0, 0) + 1e-13L * (1 + maxabs(xi) + maxabs(up.b.m)) + up.relinMean(e0); eP = up.covTol(0) + up.relinCov(e0); if (em > 1e-5L * (1 + maxabs(up.b.m)) || eP > 1e-5L * maxabs(cur.P)) g.discard(); } Vec d = up.b.m - xi; R nn = dot(d, d); xi = up.b.m; it++; if (has) { if (fabsl(nn - thr) < 1e-5L * (thr + 1e-9L) + em * sqrtl(nn) * 4 * n + em * em * n) g.discard(); if (nn < thr) go = false; } }
    if (it < iters) stopped = true; if (it > 1) multi = true;
    REQUIRE(z.in() ? f.Update(z.model.get(), toC(zv), toC(sv)) : f.Update(z.model.get(), toC(zv)), "update failed"); Bel got = belOf(*f.PostGet()); sameBel("iterated posterior", got, up.b, 1, em, eP); slack += eP * n; psd(got, slack * (1 + up.nK * up.nH) * (1 + up.nK * up.nH)); slack *= (1 + up.nK * up.nH) * (1 + up.nK * up.nH); cur = got;
  }
  if (multi) g.mark(); g.label(stopped ? "stopped early" : has ? "check never stopped" : "no check");
}
static Reg c7({"P17", "a measurement update with more than one iteration", p17, false, "iterated", 3});
static void p17_check(Gen& g) { int n = genDim(g, 4); Vec v = genVec(g, n, g.chance(1, 2) ? 1e-3 : 4); R q = dot(v, v); double t = g.chance(1, 4) ? (double)q : g.chance(1, 4) ? 0.0 : g.pos(8); if (t != 0 && fabsl(q - t) < 1e-12L * (q + t) && q != (R)t) g.discard(); if (t != 0 && fabsl(q - t) < 1e-12L * (q + t)) g.discard(); InnovationCheck c(t); g.note("innovation ", show(v), " threshold ", t); g.mark(); REQUIRE(c.check(toC(v)) == (q >= t), "innovation check of squared norm ", (double)q, " against ", t); }
static Reg c8({"P17", "every innovation checked", p17_check, false, "check", 1});

// ------------------------------------------------ P18 square-root filter on implicit linear models
static void p18(Gen& g) {
  int n = genDim(g, 4), nu = genDim(g, 2), iters = g.count(1, 3, 8); bool nl = g.chance(1, 2); double us = g.chance(1, 4) ? std::pow(10.0, g.range(-11, 6)) : 1; auto tiny = [](const Mat& X) { for (R e : eigs((1 / (maxabs(X) + 1e-290L)) * X)) if (e * maxabs(X) < 1e-14L) return true; return false; }; /* below the absolute zero threshold of the Cholesky factor */ Bel cur; cur.m = genVec(g, n, 2); cur.P = genSPD(g, n, us); Gaussian prior(toC(cur.m), toS(cur.P)); SRIteratedExtendedKalmanFilter f(&prior, iters); // us: unit of variances
  std::vector<int> sc = {n}; if (g.chance(1, 2)) sc.push_back(nu); Model sm_ = genModel(g, n, sc, nl, !g.chance(1, 4), 1); sm_.S = roundD((R)us * sm_.S); Sys s = makeSys(sm_); std::vector<std::unique_ptr<Impl>> Z; for (int i = 0; i < 2; i++) { bool id = g.chance(1, 4), va = i && g.chance(1, 3); Model m = va ? variant(g, Z[0]->m) : genModel(g, genDim(g, 3), {n}, nl, true, 1); if (!va) m.S = roundD((R)us * m.S); else m.S = roundD(m.S); if (id) { m.dep = false; if (g.chance(1, 2)) for (int r = 0; r < m.rows(); r++) for (int c = 0; c < m.rows(); c++) if (r != c) m.S(r, c) = 0; } Z.emplace_back(new Impl(m, id)); }
  g.note("iterations ", iters, " prior ", show(cur.m), " ", show(cur.P)); int ops = g.count(1, 5, 20), pr = 0, co = 0; Vec lu, lz;
  auto check = [&](const char* w, const Bel& want, R tol, R sm, R sp) { Bel got = belOf(*f.PostGet()); R spj = 1e-290L + maxabs(got.P); sameBel(w, got, want, tol, sm, sp); Mat J = fromM(f.SRCovarianceGet()); same("square root times its transpose", J * T(J), got.P, 1e-12L, spj); cur = got; };
  for (int k = 0; k < ops; k++) {
    int op = g.range(0, 6);
    if (op <= 1) { Vec u = stick(g, lu, genVec(g, nu)); Bel w = predict(cur, s.m, u); g.note("predict"); if (tiny(w.P)) g.discard(); if (g.chance(1, 2)) { if (s.in()) f.SysUpdate(s.model.get(), toC(u)); else f.SysUpdate(s.model.get()); } else { if (s.in()) f.Update(s.model.get(), toC(u)); else f.Update(s.model.get()); } check("prediction", w, 1e-10L, 100 + maxabs(w.m) + maxabs(cur.m), maxabs(w.P) + 40 * maxabs(cur.P)); pr++; }
    else if (op <= 4) {
      Impl& z = *Z[g.range(0, 1)]; Vec zv = stick(g, lz, genVec(g, z.m.rows())); Vec xi = cur.m; Upd up; R em = 0, eP = 0, e0P = 1e-14L * n * n * maxabs(cur.P); for (int it = 0; it < iters; it++) { std::vector<Vec> a = {xi}; Mat H = z.m.df(a); up = correctWith(cur, zv, z.m.f(a) + H * (cur.m - xi), H, z.m.cov(a)); if (up.condS > 1e6L || tiny(up.S) || tiny(z.m.cov(a)) || tiny(up.b.P)) g.discard(); R e0 = em; em = up.meanTol(0, e0P) + 1e-13L * (1 + maxabs(xi) + maxabs(up.b.m)) + up.relinMean(e0); eP = up.covTol(e0P) * 10 + up.relinCov(e0); if (em > 1e-5L * (1 + maxabs(up.b.m)) || eP > 1e-5L * maxabs(cur.P)) g.discard(); xi = up.b.m; } g.note("measure ", show(z.m), " z ", show(zv), z.ident ? " identity" : "");
      // any s: the measurement itself
      if (g.chance(1, 2)) f.MeasUpdate(&z, toC(zv), toC(zv)); else if (g.chance(1, 2)) f.Update(&z, toC(zv), toC(zv)); else f.MeasUpdate(&z, toC(zv)); check("posterior", up.b, 1, em * 10, eP * 10); co++; }
    else if (op == 5) { cur.m = mutVec(g, roundD(cur.m), 2); cur.P = genSPD(g, n, us); CV m = toC(cur.m); SM P = toS(cur.P); if (tiny(cur.P)) g.discard(); g.note("prior set ", show(cur.m), " ", show(cur.P)); f.PriorSet(m, P); check("belief after setting it", cur, 1e-11L, 4, maxabs(cur.P)); }
    else { Mat J(n, n); for (int i = 0; i < n; i++) { J(i, i) = 0.5L + g.pos(1); for (int j = 0; j < i; j++) J(i, j) = g.real(1); } J = roundD(sqrtl((R)us) * J); g.note("square root set ", show(J)); f.SRCovarianceSet(toM(J)); cur.P = symmetrize(J * T(J)); check("belief after setting the square root", cur, 1e-11L, 4 + maxabs(cur.m), maxabs(cur.P)); }
  }
  if (co && n > 1) g.mark(); g.label(pr && co ? "both steps" : "one step"); g.label(nl ? "nonlinear" : "linear");
}
static Reg c9({"P18", "a measurement update with more than one state", p18, false, "history", 1});
