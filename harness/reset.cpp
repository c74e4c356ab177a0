// P19: a filter or smoother reset to a prior behaves like one freshly created on it.
#include "models.h"
#include "filters.h"
#include "impl.h"
#include "pdf/mcpdf.h"
#include "pdf/mixture.h"
#include "pdf/discreteconditionalpdf.h"
#include "filter/extendedkalmanfilter.h"
#include "filter/iteratedextendedkalmanfilter.h"
#include "filter/SRiteratedextendedkalmanfilter.h"
#include "filter/histogramfilter.h"
#include "filter/particlefilter.h"
#include "filter/bootstrapfilter.h"
#include "filter/mixtureBootstrapFilter.h"
#include "filter/EKparticlefilter.h"
#include "smoother/rauchtungstriebel.h"
#include "smoother/particlesmoother.h"

typedef std::vector<R> Sig;
static void put(Sig& s, const Vec& v) { s.insert(s.end(), v.v.begin(), v.v.end()); }
static void put(Sig& s, const Mat& v) { s.insert(s.end(), v.a.begin(), v.a.end()); }
static Sig sigG(const Pdf<CV>& p) { Sig s; put(s, fromC(p.ExpectedValueGet())); put(s, fromS(p.CovarianceGet())); return s; }
static Sig sigM(const MCPdf<CV>& p) { Sig s; for (unsigned i = 0; i < p.NumSamplesGet(); i++) { s.push_back(p.SampleGet(i).WeightGet()); put(s, fromC(p.SampleGet(i).ValueGet())); } return s; }
static Sig sigD(const DiscretePdf& p) { Sig s; for (unsigned i = 0; i < p.NumStatesGet(); i++) s.push_back((double)p.ProbabilityGet(i)); return s; }
static Sig sigX(Mixture<CV>& m, bool all) { Sig s; std::vector<Probability> w = m.WeightsGet(); for (unsigned c = 0; c < m.NumComponentsGet(); c++) { s.push_back((double)w[c]); if (all || (double)w[c] > 0) { Sig t = sigM(*dynamic_cast<MCPdf<CV>*>(m.ComponentGet(c))); s.push_back(t.size()); s.insert(s.end(), t.begin(), t.end()); } } return s; }
static std::string shows(const Sig& s) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < s.size() && i < 40; i++) o << (double)s[i] << " "; return o.str(); }
static void sameSig(const std::string& what, const Sig& a, const Sig& b, R tol) { REQUIRE(a.size() == b.size(), what, ": ", a.size(), " values instead of ", b.size()); R sc = 1; for (R x : b) if (std::isfinite((double)x)) sc = std::max(sc, fabsl(x)); for (size_t i = 0; i < a.size(); i++) { if (std::isnan((double)a[i]) && std::isnan((double)b[i])) continue; REQUIRE(a[i] == b[i] || fabsl(a[i] - b[i]) <= tol * sc, what, ": value ", i, " got ", shows(a), " expected ", shows(b)); } }

// F filter type, P prior type
template <class F, class P> struct Bench {
  std::function<std::unique_ptr<P>()> prior; std::function<std::unique_ptr<F>(P*)> make; std::function<std::function<bool(F&)>(P*)> op; std::function<Sig(F&)> read; std::function<Sig(P&)> readPrior; std::function<void(P&)> mutate; std::function<std::unique_ptr<P>(P&)> related; std::function<std::unique_ptr<P>(F&)> belief; std::function<std::string(P&)> show;
  void run(Gen& g) {
    std::vector<std::unique_ptr<P>> own; own.push_back(prior()); P* cur = own[0].get(); std::unique_ptr<F> A = make(cur); bool ok = true; int fails = 0, after = 0, resets = g.count(1, 3, 8); bool other = false; g.note("prior ", shows(readPrior(*cur)));
    for (int r = 0; r <= resets; r++) {
      std::unique_ptr<F> B; Sig pm = readPrior(*cur);
      if (r) {
        bool same = g.chance(1, 5); if (!same) { std::unique_ptr<P> bl; if (ok && belief && g.chance(1, 4) && (bl = belief(*A))) { if (related && g.chance(3, 4)) bl = related(*bl); own.push_back(std::move(bl)); g.label("prior made from the belief"); } else own.push_back(related && g.chance(1, 4) ? related(*cur) : prior()); if (readPrior(*own.back()).size() != pm.size()) other = true; cur = own.back().get(); pm = readPrior(*cur); }
        g.note("reset to ", same ? "the same object " : "", shows(pm)); rngctl::use_prng(5); A->Reset(cur); rngctl::use_prng(5); B = make(cur); sameSig("prior object after Reset", readPrior(*cur), pm, 0); sameSig("belief after Reset", read(*A), read(*B), 1e-9L);
        if (!same && g.chance(1, 2)) { own.erase(own.begin(), own.end() - 1); g.note("older priors deleted"); }
        if (g.chance(1, 3)) { Sig a = read(*A), b = read(*B); mutate(*cur); pm = readPrior(*cur); g.note("prior object changed"); sameSig("belief after changing the prior object", read(*A), a, 0); sameSig("belief of a new filter after changing the prior object", read(*B), b, 0); }
      }
      int ops = g.count(r ? 1 : 0, 4, 15);
      for (int k = 0; k < ops; k++) {
        uint64_t sd = g.seed(); std::function<bool(F&)> f = op(cur); rngctl::use_prng(sd); bool a = f(*A); ok = a; if (!a) fails++;
        if (B) { rngctl::use_prng(sd); bool b = f(*B); REQUIRE(a == b, "update of the reset filter returned ", a, ", of a new one ", b); }
        if (!a) break; if (B) { sameSig(str("belief after update ", k + 1, " since Reset"), read(*A), read(*B), 1e-7L); after++; }
        sameSig("prior object after update", readPrior(*cur), pm, 0);
      }
    }
    if (after) g.mark(); if (fails) g.label("a failing update"); g.label(other ? "other size" : "same size");
  }
};
struct Env { int n, nu, ns; std::vector<Sys> S; std::vector<Meas> Z; };
static Env genEnv(Gen& g, int hi = 3, bool in = true) {
  Env e; e.n = genDim(g, hi); e.nu = genDim(g, 2); e.ns = e.nu; bool nl = g.chance(1, 2);
  for (int i = 0; i < 2; i++) { std::vector<int> c = {e.n}; if (in && g.chance(1, 2)) c.push_back(e.nu); Model m = genModel(g, e.n, c, nl, true, 1); m.S = genSPD(g, e.n); e.S.push_back(makeSys(m)); g.note("system ", show(m)); }
  for (int i = 0; i < 2; i++) { std::vector<int> c = {e.n}; if (g.chance(1, 2)) c.push_back(e.ns); int d = genDim(g, 3); Model m = genModel(g, d, c, nl, true, 1); m.S = genSPD(g, d); e.Z.push_back(makeMeas(m)); g.note("measurement ", show(m)); }
  return e;
}
// a Gaussian update with all choices made beforehand; which: bit 0 system, bit 1 measurement
template <class F> static std::function<bool(F&)> genUpd(Gen& g, Env& e, bool sysOnly, bool measOnly) {
  Sys* s = &e.S[g.raw(2)]; Meas* z = &e.Z[g.raw(2)]; CV u = toC(genVec(g, e.nu)), sv = toC(genVec(g, e.ns)), zv = toC(genVec(g, z->m.rows())); int w = g.range(0, 2); if (w == 0 && !sysOnly) w = 2; if (w == 1 && !measOnly) w = 2; bool ui = s->in() || g.chance(1, 4), zi = z->in() || g.chance(1, 4); g.note("update ", w == 0 ? "system" : w == 1 ? "measurement" : "both", " z ", show(fromC(zv)));
  return [=](F& f) { if (w == 2) { if (ui && zi) return f.Update(s->model.get(), u, z->model.get(), zv, sv); if (ui) return f.Update(s->model.get(), u, z->model.get(), zv); if (zi) return f.Update(s->model.get(), z->model.get(), zv, sv); return f.Update(s->model.get(), z->model.get(), zv); } if (w == 0) return ui ? f.Update(s->model.get(), u) : f.Update(s->model.get()); return zi ? f.Update(z->model.get(), zv, sv) : f.Update(z->model.get(), zv); };
}
static bool maxdiagok(const Mat& S) { for (int k = 1; k <= S.r; k++) { Mat A(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) A(i, j) = S(i, j); if (!(det(A) > 1e-3L)) return false; } return true; }
template <class F> static Bench<F, Gaussian> gaussBench(Gen& g, int n) {
  Bench<F, Gaussian> b; b.prior = [&g, n] { return std::unique_ptr<Gaussian>(new Gaussian(toC(genVec(g, n)), toS(genSPD(g, n)))); }; b.readPrior = [](Gaussian& p) { return sigG(p); }; b.belief = [](F& f) { std::unique_ptr<Gaussian> q; Mat S = fromS(f.PostGet()->CovarianceGet()); for (R x : S.a) if (!std::isfinite((double)x)) return q; for (R x : fromC(f.PostGet()->ExpectedValueGet()).v) if (!(fabsl(x) < 1e6L)) return q; if (maxdiagok(S)) q.reset(new Gaussian(f.PostGet()->ExpectedValueGet(), f.PostGet()->CovarianceGet())); return q; }; b.read = [](F& f) { return sigG(*f.PostGet()); };
  b.mutate = [&g, n](Gaussian& p) { if (g.chance(2, 3)) p.ExpectedValueSet(toC(genVec(g, n))); else p.CovarianceSet(toS(genSPD(g, n))); };
  b.related = [&g, n](Gaussian& p) { std::unique_ptr<Gaussian> q(new Gaussian(p)); if (g.chance(1, 2)) q->ExpectedValueSet(toC(mutVec(g, fromC(p.ExpectedValueGet())))); if (g.chance(1, 2)) { Mat S = fromS(p.CovarianceGet()); int i = g.range(0, n - 1); if (n > 1 && g.chance(1, 2)) { int j = (i + 1) % n; S(i, j) *= 0.5L; S(j, i) = S(i, j); if (maxdiagok(S)) q->CovarianceSet(toS(S)); } else { S(i, i) *= 2; q->CovarianceSet(toS(S)); } } return q; }; return b;
}
typedef Filter<CV, CV> FF;
static void r_kalman(Gen& g) {
  Env e = genEnv(g); int kind = g.range(0, 1), it = g.range(1, 3); g.note(kind ? "iterated" : "extended"); g.label(kind ? "IEKF" : "EKF"); auto b = gaussBench<KalmanFilter>(g, e.n);
  b.make = [&](Gaussian* p) { return std::unique_ptr<KalmanFilter>(kind ? (KalmanFilter*)new IteratedExtendedKalmanFilter(p, it) : new ExtendedKalmanFilter(p)); }; b.op = [&](Gaussian*) { return genUpd<KalmanFilter>(g, e, true, true); }; b.run(g);
}
static Reg r1({"P19", "at least one update after a reset", r_kalman, false, "Kalman filters", 3});
static void r_sr(Gen& g) {
  Env e = genEnv(g); int it = g.range(1, 2); std::vector<std::unique_ptr<Impl>> Z; for (int i = 0; i < 2; i++) { Model m = genModel(g, genDim(g, 3), {e.n}, false, true, 1); m.S = genSPD(g, m.rows()); Z.emplace_back(new Impl(m, false)); } auto b = gaussBench<SRIteratedExtendedKalmanFilter>(g, e.n);
  b.read = [](SRIteratedExtendedKalmanFilter& f) { Sig s = sigG(*f.PostGet()); put(s, fromM(f.SRCovarianceGet())); return s; };
  b.make = [&](Gaussian* p) { return std::unique_ptr<SRIteratedExtendedKalmanFilter>(new SRIteratedExtendedKalmanFilter(p, it)); };
  b.op = [&](Gaussian*) { typedef SRIteratedExtendedKalmanFilter F; Sys* s = &e.S[g.raw(2)]; Impl* z = Z[g.raw(2)].get(); CV u = toC(genVec(g, e.nu)), zv = toC(genVec(g, z->m.rows())); bool sys = g.chance(1, 3); return std::function<bool(F&)>([=](F& f) { if (sys) { if (s->in()) f.SysUpdate(s->model.get(), u); else f.SysUpdate(s->model.get()); } else f.MeasUpdate(z, zv, zv); return true; }); }; b.run(g);
}
static Reg r2({"P19", "at least one update after a reset", r_sr, false, "square-root filter", 1});
static std::unique_ptr<MCPdf<CV>> genMC(Gen& g, int N, int n) { std::vector<WeightedSample<CV>> l(N, WeightedSample<CV>(n)); for (auto& x : l) { x.ValueSet(toC(genVec(g, n))); x.WeightSet(g.chance(1, 8) ? 0 : g.pos(1)); } l[g.raw(N)].WeightSet(0.5); std::unique_ptr<MCPdf<CV>> p(new MCPdf<CV>(N, n)); p->ListOfSamplesSet(l); return p; }
template <class F> static Bench<F, MCPdf<CV>> mcBench(Gen& g, int n) {
  Bench<F, MCPdf<CV>> b; b.prior = [&g, n] { return genMC(g, g.count(1, 6, 30), n); }; b.readPrior = [](MCPdf<CV>& p) { return sigM(p); }; b.belief = [](F& f) { return std::unique_ptr<MCPdf<CV>>(new MCPdf<CV>(*dynamic_cast<MCPdf<CV>*>(f.PostGet()))); }; b.read = [](F& f) { return sigM(*dynamic_cast<MCPdf<CV>*>(f.PostGet())); };
  b.mutate = [&g, n](MCPdf<CV>& p) { std::unique_ptr<MCPdf<CV>> q = genMC(g, g.chance(1, 2) ? p.NumSamplesGet() : g.range(1, 6), n); p.ListOfSamplesSet(q->ListOfSamplesGet()); };
  b.related = [&g, n](MCPdf<CV>& p) { std::unique_ptr<MCPdf<CV>> q(new MCPdf<CV>(p)); std::vector<WeightedSample<CV>> l = p.ListOfSamplesGet(); int w = g.range(0, 2), c = g.range(1, n), i = g.raw(l.size()); for (size_t k = 0; k < l.size(); k++) if (w == 0 || (int)k == i) { if (w < 2) { CV v = l[k].ValueGet(); v(c) = g.real(); l[k].ValueSet(v); } else l[k].WeightSet(0.1 + g.pos(1)); } q->ListOfSamplesSet(l); return q; }; return b;
}
static double genThr(Gen& g) { return g.chance(1, 3) ? 1e-6 : g.chance(1, 3) ? 8.0 : 0.3 + 5 * g.u01() + 1e-5; }
static void r_pf(Gen& g) {
  int kind = g.range(0, 2); Mute mute; Env e = genEnv(g, 3, kind != 1); double thr = genThr(g); typedef ParticleFilter<CV, CV> PF; auto b = mcBench<PF>(g, e.n); g.label(kind == 0 ? "bootstrap" : kind == 1 ? "own proposal" : "EKF proposal"); g.note("kind ", kind, " threshold ", thr);
  std::unique_ptr<AnalyticConditionalGaussian> q; if (kind == 1) { Model m = genModel(g, e.n, {e.n}, false, true, 1); m.S = genSPD(g, e.n); q = makePdf(m); }
  b.make = [&](MCPdf<CV>* p) { return std::unique_ptr<PF>(kind == 0 ? new BootstrapFilter<CV, CV>(p, 0, thr) : kind == 1 ? new PF(p, q.get(), 0, thr) : (PF*)new EKParticleFilter(p, 0, thr)); };
  b.op = [&](MCPdf<CV>*) { return genUpd<PF>(g, e, kind == 0, kind < 2); }; b.run(g);
}
static Reg r3({"P19", "at least one update after a reset", r_pf, false, "particle filters", 4});
static void r_mix(Gen& g) {
  Mute mute; Env e = genEnv(g, 2); double thr = genThr(g); typedef MixtureBootstrapFilter<CV, CV> F; Bench<F, Mixture<CV>> b; int n = e.n; auto fill = [&](Mixture<CV>& m) { int C = g.count(1, 3, 8); std::vector<Probability> w; for (int c = 0; c < C; c++) { m.AddComponent(*genMC(g, g.range(1, 4), n)); } for (unsigned c = 0; c < m.NumComponentsGet(); c++) w.push_back(0.1 + g.pos(1)); m.WeightsSet(w); };
  b.prior = [&] { std::unique_ptr<Mixture<CV>> m(new Mixture<CV>((unsigned)n)); fill(*m); return m; }; b.readPrior = [](Mixture<CV>& m) { return sigX(m, true); }; b.belief = [](F& f) { std::vector<Probability> w = f.PostGet()->WeightsGet(); for (size_t c = 0; c < w.size(); c++) if (!((double)w[c] > 0)) return std::unique_ptr<Mixture<CV>>(); return std::unique_ptr<Mixture<CV>>(f.PostGet()->Clone()); }; b.read = [](F& f) { return sigX(*f.PostGet(), false); }; b.related = [&](Mixture<CV>& m) { std::unique_ptr<Mixture<CV>> q(m.Clone()); std::vector<Probability> w; for (unsigned c = 0; c < q->NumComponentsGet(); c++) w.push_back(0.1 + g.pos(1)); if (g.chance(1, 2)) q->WeightsSet(w); else { MCPdf<CV>* k = dynamic_cast<MCPdf<CV>*>(q->ComponentGet(g.raw(w.size()))); k->ListOfSamplesUpdate(genMC(g, k->NumSamplesGet(), n)->ListOfSamplesGet()); } return q; }; b.mutate = [&](Mixture<CV>& m) { if (m.NumComponentsGet() > 1) m.DeleteComponent(0); else fill(m); };
  b.make = [&](Mixture<CV>* p) { return std::unique_ptr<F>(new F(p, 0, thr)); }; b.op = [&](Mixture<CV>*) { return genUpd<F>(g, e, true, true); }; b.run(g);
}
static Reg r4({"P19", "at least one update after a reset", r_mix, false, "mixture filter", 2});
static void r_hist(Gen& g) {
  struct Tab { std::unique_ptr<DiscreteConditionalPdf> s, z; std::unique_ptr<SystemModel<int>> sm; std::unique_ptr<MeasurementModel<int, int>> zm; }; std::map<int, Tab> tabs; typedef HistogramFilter<int> F; Bench<F, DiscretePdf> b; int n0 = g.count(1, 5, 20);
  auto vals = [&](int n) { std::vector<Probability> w; for (int i = 0; i < n; i++) w.push_back(g.chance(1, 5) ? 0.0 : g.pos(1)); w[g.raw(n)] = 0.5; return w; };
  b.prior = [&] { int n = g.chance(2, 3) ? n0 : g.count(1, 6, 20); std::unique_ptr<DiscretePdf> p(new DiscretePdf(n)); { auto v = vals(n); p->ProbabilitiesSet(v); } return p; }; b.readPrior = [](DiscretePdf& p) { return sigD(p); }; b.belief = [](F& f) { return std::unique_ptr<DiscretePdf>(f.PostGet()->Clone()); }; b.read = [](F& f) { return sigD(*f.PostGet()); }; b.related = [&](DiscretePdf& p) { std::unique_ptr<DiscretePdf> q(p.Clone()); q->ProbabilitySet(g.raw(q->NumStatesGet()), q->NumStatesGet() == 1 ? 1.0 : g.u01()); return q; }; b.mutate = [&](DiscretePdf& p) { auto v = vals(p.NumStatesGet()); p.ProbabilitiesSet(v); };
  b.make = [](DiscretePdf* p) { return std::unique_ptr<F>(new F(p)); };
  b.op = [&](DiscretePdf* p) { int n = p->NumStatesGet(), w = g.range(0, 2); Tab& t = tabs[n]; if (!t.s) { int d[1] = {n}; t.s.reset(new DiscreteConditionalPdf(n, 1, d)); t.z.reset(new DiscreteConditionalPdf(2, 1, d)); for (int x = 0; x < n; x++) { std::vector<int> c = {x}; double q = 0; std::vector<double> v; for (int y = 0; y < n; y++) { v.push_back(0.01 + g.pos(1)); q += v[y]; } for (int y = 0; y < n; y++) t.s->ProbabilitySet(v[y] / q, y, c); for (int z = 0; z < 2; z++) t.z->ProbabilitySet(g.chance(1, 6) ? 0 : g.pos(1), z, c); } t.sm.reset(new SystemModel<int>(t.s.get())); t.zm.reset(new MeasurementModel<int, int>(t.z.get())); }
    Tab* q = &t; int z = g.range(0, 1); return std::function<bool(F&)>([=](F& f) { return w == 0 ? f.Update(q->sm.get()) : w == 1 ? f.Update(q->zm.get(), z) : f.Update(q->sm.get(), q->zm.get(), z); }); }; b.run(g);
}
static Reg r5({"P19", "at least one update after a reset", r_hist, false, "histogram filter", 2});
static void r_rts(Gen& g) {
  Env e = genEnv(g); typedef RauchTungStriebel F; auto b = gaussBench<F>(g, e.n); b.make = [](Gaussian* p) { return std::unique_ptr<F>(new F(p)); };
  b.op = [&](Gaussian*) { Sys* s = &e.S[g.raw(2)]; CV u = toC(genVec(g, e.nu)); std::shared_ptr<Gaussian> f(new Gaussian(toC(genVec(g, e.n)), toS(genSPD(g, e.n)))); return std::function<bool(F&)>([=](F& r) { return s->in() ? r.Update(s->model.get(), u, f.get()) : r.Update(s->model.get(), f.get()); }); }; b.run(g);
}
static Reg r6({"P19", "at least one update after a reset", r_rts, false, "Gaussian smoother", 1});
static void r_ps(Gen& g) {
  Mute mute; Env e = genEnv(g); typedef ParticleSmoother<CV> F; auto b = mcBench<F>(g, e.n); b.make = [](MCPdf<CV>* p) { return std::unique_ptr<F>(new F(p)); };
  b.op = [&](MCPdf<CV>*) { Sys* s = &e.S[g.raw(2)]; CV u = toC(genVec(g, e.nu)); std::shared_ptr<MCPdf<CV>> f(genMC(g, g.range(1, 6), e.n).release()); return std::function<bool(F&)>([=](F& r) { MCPdf<CV>* po = dynamic_cast<MCPdf<CV>*>(r.PostGet()); /* densities that underflow are out of scope */ for (unsigned i = 0; i < po->NumSamplesGet(); i++) { R mx = -1e300L; for (unsigned j = 0; j < f->NumSamplesGet(); j++) if (f->SampleGet(j).WeightGet() > 0) { std::vector<Vec> a = {fromC(f->SampleGet(j).ValueGet())}; if (s->in()) a.push_back(fromC(u)); mx = std::max(mx, logGauss(fromC(po->SampleGet(i).ValueGet()), s->m.f(a), s->m.cov(a))); } if (mx < -500) throw Discard(); }
      return s->in() ? r.Update(s->model.get(), u, f.get()) : r.Update(s->model.get(), f.get()); }); }; b.run(g);
}
static Reg r7({"P19", "at least one update after a reset", r_ps, false, "particle smoother", 1});
