// P20 histogram filter, P24 Rauch-Tung-Striebel smoother, P25 particle smoother.
#include "models.h"
#include "filters.h"
#include "filter/extendedkalmanfilter.h"
#include "filter/histogramfilter.h"
#include "smoother/rauchtungstriebel.h"
#include "smoother/particlesmoother.h"
#include "pdf/discreteconditionalpdf.h"
#include "pdf/mcpdf.h"
#include "model/discretesystemmodel.h"

typedef std::vector<R> RV;
static std::string showv(const RV& v) { std::ostringstream o; o.precision(17); for (R x : v) o << (double)x << " "; return o.str(); }

// ------------------------------------------------ P20
// likelihood of a measurement in a discrete state, given by a table over (measurement index, state, parameter)
struct Lik { int nz, n, ns; bool in; std::vector<double> t; double at(int z, int x, int s) const { return t[(z * n + x) * ns + (in ? s : 0)]; } };
template <class MV> struct MeasBuilder;
// user-defined pdf of a continuous measurement: the value of z selects the column
class UserLik : public ConditionalPdf<CV, int> {
  Lik l_;
 public:
  UserLik(const Lik& l) : ConditionalPdf<CV, int>(1, l.in ? 2 : 1), l_(l) {}
  virtual UserLik* Clone() const { return new UserLik(*this); }
  virtual Probability ProbabilityGet(const CV& z) const { return Probability(l_.at((int)z(1), ConditionalArgumentGet(0), l_.in ? ConditionalArgumentGet(1) : 0)); }
};
template <> struct MeasBuilder<CV> { static ConditionalPdf<CV, int>* make(const Lik& l) { return new UserLik(l); } static CV z(int i) { CV v(1); v(1) = i; return v; } };
template <> struct MeasBuilder<int> { static ConditionalPdf<int, int>* make(const Lik& l) { int d[2] = {l.n, l.ns}; DiscreteConditionalPdf* p = new DiscreteConditionalPdf(l.nz, l.in ? 2 : 1, d); for (int z = 0; z < l.nz; z++) for (int x = 0; x < l.n; x++) for (int s = 0; s < (l.in ? l.ns : 1); s++) { std::vector<int> c = {x}; if (l.in) c.push_back(s); p->ProbabilitySet(l.at(z, x, s), z, c); } return p; } static int z(int i) { return i; } };
struct Tr { int n, nu; bool in; std::vector<double> t; double at(int y, int x, int u) const { return t[(y * n + x) * nu + (in ? u : 0)]; } };

template <class MV> static void p20(Gen& g) {
  int n = g.range(1, g.chance(1, 20) ? 30 : 6), nu = g.count(1, 3, 8), ns = g.count(1, 3, 8), nz = g.count(1, 4, 12); bool tiny = g.chance(1, 4);
  struct S_ { Tr t; std::unique_ptr<DiscreteConditionalPdf> p; std::unique_ptr<SystemModel<int>> m; }; struct Z_ { Lik l; std::unique_ptr<ConditionalPdf<MV, int>> p; std::unique_ptr<MeasurementModel<MV, int>> m; };
  std::vector<S_> S(g.range(1, 2)); std::vector<Z_> Z(g.range(1, 2)); g.note("states ", n, " inputs ", nu, " parameters ", ns, " measurements ", nz, tiny ? " tiny likelihoods" : "");
  for (auto& s : S) { s.t.n = n; s.t.nu = nu; s.t.in = g.chance(1, 2); s.t.t.assign(n * n * nu, 0); int d[2] = {n, nu}; s.p.reset(new DiscreteConditionalPdf(n, s.t.in ? 2 : 1, d));
    for (int u = 0; u < (s.t.in ? nu : 1); u++) for (int x = 0; x < n; x++) { std::vector<double> w(n); double q = 0; bool det = g.chance(1, 5); for (auto& e : w) { e = det ? 0 : g.chance(1, 6) ? g.pos(1) * 1e-8 : g.range(0, 5); q += e; } if (q == 0) { w[g.range(0, n - 1)] = 1; q = 1; } for (int y = 0; y < n; y++) { s.t.t[(y * n + x) * nu + u] = w[y] / q; std::vector<int> c = {x}; if (s.t.in) c.push_back(u); s.p->ProbabilitySet(w[y] / q, y, c); } }
    if (g.chance(1, 2)) s.m.reset(new DiscreteSystemModel(s.p.get())); else s.m.reset(new SystemModel<int>(s.p.get())); }
  for (auto& z : Z) { z.l.n = n; z.l.ns = ns; z.l.nz = nz; z.l.in = g.chance(1, 2); z.l.t.resize(n * ns * nz); for (auto& e : z.l.t) e = g.chance(1, 6) ? 0 : g.chance(1, 8) ? 1.0 : g.pos(1) * (tiny ? std::pow(10.0, g.range(-120, 0)) : 1); z.p.reset(MeasBuilder<MV>::make(z.l)); z.m.reset(new MeasurementModel<MV, int>(z.p.get())); }
  struct F_ { std::unique_ptr<DiscretePdf> prior; RV pm, cur; std::unique_ptr<HistogramFilter<MV>> f; }; int nf = g.range(1, 2); std::vector<F_> F(nf);
  auto genPrior = [&](F_& x) { x.prior.reset(new DiscretePdf(n)); std::vector<Probability> w; double q = 0; for (int i = 0; i < n; i++) { double e = g.chance(1, 5) ? 0 : g.pos(1); q += e; w.push_back(e); } if (q == 0) w[0] = 1; x.prior->ProbabilitiesSet(w); x.pm.clear(); for (int i = 0; i < n; i++) x.pm.push_back((double)x.prior->ProbabilityGet(i)); x.cur = x.pm; };
  for (auto& x : F) { genPrior(x); x.f.reset(new HistogramFilter<MV>(x.prior.get())); g.note("prior ", showv(x.pm)); }
  int ops = g.count(1, 12, 60), ns_ = 0, nm = 0; bool zero = false;
  for (int k = 0; k < ops; k++) {
    F_& x = F[g.raw(nf)]; S_& s = S[g.raw(S.size())]; Z_& z = Z[g.raw(Z.size())]; int op = g.range(0, 3), u = g.range(0, nu - 1), p = g.range(0, ns - 1), zi = g.range(0, nz - 1);
    if (op == 3) { // the tables change between updates
      if (g.chance(1, 2)) { int a = g.range(0, n - 1), uu = s.t.in ? u : 0; std::vector<double> w(n); double q = 0; for (auto& e : w) { e = g.range(0, 5); q += e; } if (q == 0) { w[0] = 1; q = 1; } for (int y = 0; y < n; y++) { s.t.t[(y * n + a) * nu + uu] = w[y] / q; std::vector<int> c = {a}; if (s.t.in) c.push_back(uu); s.p->ProbabilitySet(w[y] / q, y, c); } g.note("new transitions from ", a, " ", uu); }
      else if (DiscreteConditionalPdf* d = dynamic_cast<DiscreteConditionalPdf*>((Pdf<MV>*)z.p.get())) { int a = g.range(0, n - 1), pp = z.l.in ? p : 0; double v = g.chance(1, 6) ? 0 : g.pos(1); z.l.t[(zi * n + a) * ns + pp] = v; std::vector<int> c = {a}; if (z.l.in) c.push_back(pp); d->ProbabilitySet(v, zi, c); g.note("new likelihood of ", zi, " in ", a); }
      continue; }
    bool ds = op != 1, dm = op != 0; RV w = x.cur;
    if (ds) { RV v(n); R q = 0; for (int y = 0; y < n; y++) { for (int a = 0; a < n; a++) v[y] += (R)s.t.at(y, a, u) * w[a]; q += v[y]; } for (auto& e : v) e /= q; w = v; }
    R q = 1; if (dm) { q = 0; for (int a = 0; a < n; a++) { w[a] *= z.l.at(zi, a, p); q += w[a]; } if (q > 0 && q < 1e-280L) g.discard(); if (q > 0) for (auto& e : w) e /= q; }
    g.note("op ", op, " u ", u, " z ", zi, " s ", p); bool ok = doUpdateT<int, MV>(g, *x.f, ds ? s.m.get() : 0, s.t.in, u, dm ? z.m.get() : 0, z.l.in, MeasBuilder<MV>::z(zi), p);
    if (q == 0) { REQUIRE(!ok, "a measurement that is impossible in every possible state was reported as processed"); zero = true; genPrior(x); /* the belief is undefined now */ F_ y; y.prior = std::move(x.prior); y.pm = x.pm; y.cur = x.cur; y.f.reset(new HistogramFilter<MV>(y.prior.get())); x = std::move(y); continue; }
    REQUIRE(ok, "update failed"); ns_ += ds; nm += dm; R sum = 0;
    for (int a = 0; a < n; a++) { R v = (double)x.f->PostGet()->ProbabilityGet(a); sum += v; REQUIRE(fabsl(v - w[a]) <= 1e-12L * (n + 2) * w[a] + 1e-300L / q + 1e-300L, "probability of state ", a, " is ", (double)v, " expected ", (double)w[a], "; posterior ", showv(w)); x.cur[a] = v; }
    REQUIRE(fabsl(sum - 1) < 1e-9L, "posterior sums to ", (double)sum);
    for (auto& y : F) { for (int a = 0; a < n; a++) { REQUIRE((double)y.prior->ProbabilityGet(a) == (double)y.pm[a], "the prior object changed"); REQUIRE((double)y.f->PostGet()->ProbabilityGet(a) == (double)y.cur[a], "another filter changed"); } }
  }
  if (n > 1 && nm && ns_) g.mark(); g.label(zero ? "impossible measurement" : "possible measurements");
}
static Reg h1({"P20", "more than one state, at least one prediction and one correction", p20<int>, false, "discrete measurements", 1});
static Reg h2({"P20", "more than one state, at least one prediction and one correction", p20<CV>, false, "user likelihood", 1});

// ------------------------------------------------ P24
static Bel rts(const Bel& f, const Bel& sm, const Model& s, const Vec& u, R* amp) { std::vector<Vec> a = {f.m}; if (s.M.size() > 1) a.push_back(u); Mat Fm = s.df(a), Pp = symmetrize(Fm * f.P * T(Fm) + s.cov(a)), iP = inv(Pp), K = f.P * T(Fm) * iP; Bel o; o.m = f.m + K * (sm.m - s.f(a)); o.P = symmetrize(f.P + K * (sm.P - Pp) * T(K)); R d = f.m.n(), nK = d * maxabs(K); *amp = cond_sym(Pp) * (1 + nK) * (1 + nK); return o; }
static void p24_step(Gen& g) {
  int n = genDim(g, 4), nu = genDim(g, 3), steps = g.count(1, 5, 20); bool nl = g.chance(2, 3); std::vector<Sys> S; for (int i = 0, k = g.range(1, 2); i < k; i++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(nu); S.push_back(makeSys(i && g.chance(1, 2) ? variant(g, S[0].m) : genModel(g, n, c, nl && g.chance(3, 4), !g.chance(1, 4), 1.5))); g.note("system ", show(S[i].m)); }
  Bel p0; p0.m = genVec(g, n); p0.P = genSPD(g, n); Gaussian prior(toC(p0.m), toS(p0.P)); RauchTungStriebel r(&prior); Bel cur = p0, lf; Vec lu; bool big = false;
  for (int k = 0; k < steps; k++) {
    Sys& s = S[g.raw(S.size())]; Vec u = k && g.chance(1, 3) ? lu : genVec(g, nu); Bel f; f.m = k && g.chance(1, 3) ? lf.m : mutVec(g, roundD(cur.m)); f.P = k && g.chance(1, 3) ? lf.P : g.chance(1, 6) ? genPSD(g, n) : genSPD(g, n); lf = f; lu = u; Gaussian fg(toC(f.m), toS(f.P)); R amp; Bel want = rts(f, cur, s.m, u, &amp); if (!(amp <= 1e6L)) g.discard(); g.note("filtered ", show(f.m), " ", show(f.P), " input ", show(u));
    bool ok = s.in() || g.chance(1, 4) ? r.Update(s.model.get(), toC(u), &fg) : r.Update(s.model.get(), &fg); REQUIRE(ok, "smoothing step failed"); R sc = 1 + maxabs(want.m) + maxabs(f.m) + maxabs(cur.m) + 16, sp = 1 + maxabs(want.P) + maxabs(f.P) + maxabs(cur.P) + 16;
    Bel got = belOf(*r.PostGet()); sameBel("smoothed", got, want, 1e-13L * amp, sc * 16, sp * 16); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) REQUIRE(got.P(i, j) == got.P(j, i), "smoothed covariance is not symmetric");
    sameBel("the filtered posterior was changed", belOf(fg), f, 0, 1, 1); sameBel("the prior was changed", belOf(prior), p0, 0, 1, 1); cur = got; if (n > 1) big = true;
  }
  if (big) g.mark(); g.label(nl ? "nonlinear" : "linear");
}
static Reg h3({"P24", "at least one smoothing step with more than one state", p24_step, false, "step", 2});
static void p24_batch(Gen& g) {
  int n = genDim(g, 3), nu = genDim(g, 2), Tn = g.range(1, 5); bool filt = g.chance(1, 2); std::vector<Sys> S; std::vector<Meas> Z; std::vector<Vec> U, ZV; Bel p0; p0.m = genVec(g, n); p0.P = genSPD(g, n); Gaussian prior(toC(p0.m), toS(p0.P)); g.note("horizon ", Tn, " prior ", show(p0.m), " ", show(p0.P));
  for (int k = 0; k < Tn; k++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(nu); { Model q = genModel(g, n, c, false, true, 1.2); q.S = genSPD(g, n); S.push_back(makeSys(q)); } U.push_back(genVec(g, nu)); { Model q = genModel(g, genDim(g, 3), {n}, false, true, 1.5); q.S = genSPD(g, q.rows()); Z.push_back(makeMeas(q)); } ZV.push_back(genVec(g, Z[k].m.rows())); g.note("system ", show(S[k].m), " input ", show(U[k]), " measurement ", show(Z[k].m), " ", show(ZV[k])); }
  // information form of the whole trajectory x_0 .. x_T
  int N = n * (Tn + 1); Mat L(N, N); Vec b(N); auto add = [&](int r, int c, const Mat& m) { for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) L(r * n + i, c * n + j) += m(i, j); }; auto addv = [&](int r, const Vec& v) { for (int i = 0; i < v.n(); i++) b[r * n + i] += v[i]; };
  Mat iP = inv(p0.P); add(0, 0, iP); addv(0, iP * p0.m); R kap = cond_sym(p0.P);
  for (int k = 0; k < Tn; k++) { Mat iQ = inv(S[k].m.S), A = S[k].m.M[0]; Vec o = S[k].m.mu; if (S[k].in()) o = o + S[k].m.M[1] * U[k]; add(k, k, T(A) * iQ * A); add(k, k + 1, (R)-1 * (T(A) * iQ)); add(k + 1, k, (R)-1 * (iQ * A)); add(k + 1, k + 1, iQ); addv(k, (R)-1 * (T(A) * iQ * o)); addv(k + 1, iQ * o); Mat iR = inv(Z[k].m.S), H = Z[k].m.M[0]; add(k + 1, k + 1, T(H) * iR * H); addv(k + 1, T(H) * iR * (ZV[k] - Z[k].m.mu)); kap = std::max(kap, std::max(cond_sym(S[k].m.S), cond_sym(Z[k].m.S))); }
  R cl = cond_sym(L); if (cl > 1e7L || kap > 1e4L) g.discard(); Mat C = inv(L); Vec m = C * b;
  ExtendedKalmanFilter f(&prior); std::vector<std::unique_ptr<Gaussian>> post; post.emplace_back(new Gaussian(*f.PostGet())); for (int k = 0; k < Tn; k++) { REQUIRE(f.Update(S[k].model.get(), toC(U[k]), Z[k].model.get(), toC(ZV[k])), "filter update failed"); post.emplace_back(new Gaussian(*f.PostGet())); }
  RauchTungStriebel r(post[Tn].get()); if (filt) g.label("reset"); if (filt) r.Reset(post[Tn].get());
  for (int k = Tn; k >= 0; k--) { if (k < Tn) REQUIRE(S[k].in() ? r.Update(S[k].model.get(), toC(U[k]), post[k].get()) : r.Update(S[k].model.get(), post[k].get()), "smoothing failed"); Bel want; want.m = Vec(n); want.P = Mat(n, n); for (int i = 0; i < n; i++) { want.m[i] = m[k * n + i]; for (int j = 0; j < n; j++) want.P(i, j) = C(k * n + i, k * n + j); } sameBel(str("smoothed belief at step ", k).c_str(), belOf(*r.PostGet()), want, 1e-13L * cl * kap + 1e-10L, 1 + maxabs(m), 1 + maxabs(C)); }
  if (Tn > 1) g.mark(); g.label(str("horizon ", Tn));
}
static Reg h4({"P24", "at least two smoothing steps", p24_batch, false, "batch", 1});

// ------------------------------------------------ P25
static Vec wts(const MCPdf<CV>& p) { Vec w(p.NumSamplesGet()); for (int i = 0; i < w.n(); i++) w[i] = p.SampleGet(i).WeightGet(); return w; }
static void p25(Gen& g) {
  int n = genDim(g, 3), nu = genDim(g, 2), steps = g.count(1, 4, 12); Vec lu; Sys S[4]; bool nl = g.chance(1, 2); S[0] = makeSys(genModel(g, n, {n}, nl, true, 1.5)); S[1] = makeSys(genModel(g, n, {n, nu}, nl, true, 1.5)); S[2] = makeSys(variant(g, S[0].m)); S[3] = makeSys(variant(g, S[1].m)); for (auto& s : S) g.note("system ", show(s.m));
  auto gen = [&](int N, std::vector<Vec>& x, Vec& w) { std::vector<WeightedSample<CV>> l(N, WeightedSample<CV>(n)); x.resize(N); w = Vec(N); R q = 0; for (int i = 0; i < N; i++) { x[i] = genVec(g, n); w[i] = g.chance(1, 6) ? 0 : g.pos(1); q += w[i]; } if (q == 0) w[0] = 1; for (int i = 0; i < N; i++) { l[i].ValueSet(toC(x[i])); l[i].WeightSet((double)w[i]); } std::unique_ptr<MCPdf<CV>> p(new MCPdf<CV>(N, n)); p->ListOfSamplesSet(l); w = wts(*p); return p; };
  std::vector<Vec> x; Vec w; std::unique_ptr<MCPdf<CV>> prior = gen(g.count(1, 7, 60), x, w); std::vector<Vec> x0 = x; Vec w0 = w; ParticleSmoother<CV> sm(prior.get()); bool diff = false; Mute mute;
  for (int k = 0; k < steps; k++) {
    std::vector<Vec> y; Vec v; std::unique_ptr<MCPdf<CV>> f = gen(g.count(1, 7, 60), y, v); Sys& s = S[g.raw(4)]; Vec u = stick(g, lu, genVec(g, nu)); int N = v.n(), M = w.n(); diff |= N != M; g.note("smoothing step with ", N, " filtered and ", M, " smoothed particles");
    std::vector<std::vector<R>> p(M, std::vector<R>(N)); Vec want(N); R tot = 0, cnd = 1; for (int i = 0; i < M; i++) { R ga = 0; for (int j = 0; j < N; j++) { std::vector<Vec> a = {y[j]}; if (s.in()) a.push_back(u); p[i][j] = expl(logGauss(x[i], s.m.f(a), s.m.cov(a))); cnd = std::max(cnd, fabsl(logl(p[i][j] + 1e-300L)) * cond_sym(s.m.S)); ga += v[j] * p[i][j]; } if (ga < 1e-250L) g.discard(); for (int j = 0; j < N; j++) want[j] += w[i] * v[j] * p[i][j] / ga; }
    for (int j = 0; j < N; j++) tot += want[j]; for (int j = 0; j < N; j++) want[j] /= tot; if (cnd > 1e5L) g.discard();
    bool ok = s.in() || g.chance(1, 4) ? sm.Update(s.model.get(), toC(u), f.get()) : sm.Update(s.model.get(), f.get()); REQUIRE(ok, "smoothing failed"); MCPdf<CV>* post = dynamic_cast<MCPdf<CV>*>(sm.PostGet()); REQUIRE((int)post->NumSamplesGet() == N, "number of smoothed particles ", post->NumSamplesGet(), " instead of ", N);
    for (int j = 0; j < N; j++) same("smoothed particle", fromC(post->SampleGet(j).ValueGet()), y[j], 0, 1); same("smoothed weights", wts(*post), want, 1e-11L * cnd, 1); same("filtered weights changed", wts(*f), v, 0, 1); same("prior weights changed", wts(*prior), w0, 0, 1);
    Vec mean(n); for (int j = 0; j < N; j++) mean = mean + want[j] * y[j]; same("smoothed mean", fromC(post->ExpectedValueGet()), mean, 1e-11L * cnd, 16);
    x = y; w = wts(*post);
  }
  if (x0.size() > 1 && w.n() > 1) g.mark(); g.label(diff ? "different sizes" : "same size");
}
static Reg h5({"P25", "more than one particle before and after", p25, false, "step", 1});

// over a discrete state, with the library's transition table
static void p25_disc(Gen& g) {
  int n = g.count(1, 5, 12), nu = g.range(1, 3); bool in = g.chance(1, 2); int d[2] = {n, nu}; DiscreteConditionalPdf pdf(n, in ? 2 : 1, d); std::vector<std::vector<std::vector<R>>> t(n, std::vector<std::vector<R>>(in ? nu : 1, std::vector<R>(n)));
  for (int x = 0; x < n; x++) for (int u = 0; u < (in ? nu : 1); u++) { R q = 0; auto& w = t[x][u]; for (auto& e : w) { e = g.chance(1, 4) ? 0 : g.range(1, 9); q += e; } if (q == 0) { w[g.range(0, n - 1)] = 1; q = 1; } for (int y = 0; y < n; y++) { double v = (double)(w[y] / q); w[y] = v; pdf.ProbabilitySet(v, y, in ? std::vector<int>{x, u} : std::vector<int>{x}); } } DiscreteSystemModel m(&pdf);
  auto gen = [&](int N, std::vector<int>& x, Vec& w) { std::vector<WeightedSample<int>> l(N, WeightedSample<int>(1)); x.resize(N); w = Vec(N); R q = 0; for (int i = 0; i < N; i++) { x[i] = g.range(0, n - 1); w[i] = g.chance(1, 6) ? 0 : g.pos(1); q += w[i]; } if (q == 0) w[0] = 1; for (int i = 0; i < N; i++) { l[i].ValueSet(x[i]); l[i].WeightSet((double)w[i]); } std::unique_ptr<MCPdf<int>> p(new MCPdf<int>(N, 1)); REQUIRE(p->ListOfSamplesSet(l), "set"); for (int i = 0; i < N; i++) w[i] = p->SampleGet(i).WeightGet(); return p; };
  std::vector<int> x; Vec w; std::unique_ptr<MCPdf<int>> prior = gen(g.count(1, 7, 60), x, w); ParticleSmoother<int> sm(prior.get()); Mute mute; int used = 0; g.note(n, " states, ", in ? nu : 0, " inputs");
  for (int k = 0, steps = g.count(1, 4, 12); k < steps; k++) {
    std::vector<int> y; Vec v; std::unique_ptr<MCPdf<int>> f = gen(g.count(1, 7, 60), y, v); int u = g.range(0, nu - 1), N = v.n(), M = w.n(); Vec want(N); R tot = 0; g.note("step with ", N, " filtered and ", M, " smoothed particles, input ", u);
    for (int i = 0; i < M; i++) { R ga = 0; for (int j = 0; j < N; j++) ga += v[j] * t[y[j]][in ? u : 0][x[i]]; if (ga == 0) g.discard(); for (int j = 0; j < N; j++) want[j] += w[i] * v[j] * t[y[j]][in ? u : 0][x[i]] / ga; } for (int j = 0; j < N; j++) tot += want[j]; for (int j = 0; j < N; j++) want[j] /= tot;
    REQUIRE(in || g.chance(1, 4) ? sm.Update(&m, u, f.get()) : sm.Update(&m, f.get()), "smoothing failed"); MCPdf<int>* post = dynamic_cast<MCPdf<int>*>(sm.PostGet()); REQUIRE((int)post->NumSamplesGet() == N, "number of smoothed particles ", post->NumSamplesGet(), " instead of ", N); Vec got(N); for (int j = 0; j < N; j++) { REQUIRE(post->SampleGet(j).ValueGet() == y[j], "smoothed particle ", j, " is ", post->SampleGet(j).ValueGet(), " instead of ", y[j]); got[j] = post->SampleGet(j).WeightGet(); REQUIRE((R)f->SampleGet(j).WeightGet() == v[j], "filtered weights changed"); } same("smoothed weights", got, want, 1e-12L, 1); x = y; w = got; used = std::max(used, N);
  }
  if (used > 1) g.mark(); g.label("discrete state");
}
static Reg h6({"P25", "more than one particle", p25_disc, false, "discrete state", 1});
