// P21 particle and bootstrap filters, P22 EKF-proposal particle filter, P23 mixture particle filters.
#include "models.h"
#include "filters.h"
#include "pdf/mcpdf.h"
#include "pdf/mixture.h"
#include "filter/particlefilter.h"
#include "filter/bootstrapfilter.h"
#include "filter/mixtureBootstrapFilter.h"
#include "filter/EKparticlefilter.h"
#include "pdf/EKF_proposaldensity.h"
#include "pdf/discreteconditionalpdf.h"
#include "model/discretesystemmodel.h"

struct Rec { Vec x, u, y; const void* who; };
static std::vector<Rec> LOG;
// A transition density that records what it was asked to sample. Heavy tailed, optionally zero far away from its center.
struct Trans { Model m; double b, amp, cut; uint64_t seed; bool in() const { return m.M.size() > 1; }
  R dens(const Vec& y, const Vec& x, const Vec& u) const { std::vector<Vec> a = {x}; if (in()) a.push_back(u); Vec c = m.f(a); R p = amp; for (int i = 0; i < y.n(); i++) { R d = (y[i] - c[i]) / b; p /= 1 + d * d; } if (cut > 0 && fabsl(y[0] - c[0]) > cut) return 0; return p; } };
class RecPdf : public ConditionalPdf<CV, CV> {
  Trans t_; mutable Prng r_;
 public:
  RecPdf(const Trans& t) : ConditionalPdf<CV, CV>(t.m.rows(), t.m.M.size()), t_(t), r_(t.seed) {}
  virtual RecPdf* Clone() const { return new RecPdf(*this); }
  virtual Probability ProbabilityGet(const CV& y) const { return Probability((double)t_.dens(fromC(y), fromC(ConditionalArgumentGet(0)), t_.in() ? fromC(ConditionalArgumentGet(1)) : Vec())); }
  using ConditionalPdf<CV, CV>::SampleFrom;
  virtual bool SampleFrom(Sample<CV>& s, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { Rec r; r.who = this; r.x = fromC(ConditionalArgumentGet(0)); if (t_.in()) r.u = fromC(ConditionalArgumentGet(1)); std::vector<Vec> v = {r.x}; if (t_.in()) v.push_back(r.u); r.y = t_.m.f(v); for (auto& e : r.y.v) e += (r_.u01() - 0.5) * 2 * t_.b; r.y = roundD(r.y); LOG.push_back(r); s.ValueSet(toC(r.y)); return true; }
};
static Trans variantT(Gen& g, const Trans& t0) { Trans t(t0); t.m = variant(g, t0.m); t.seed = g.seed(); if (g.chance(1, 3)) t.b = 0.25 + g.pos(2); if (g.chance(1, 4)) t.amp = g.pos(1); return t; }
static Trans genTrans(Gen& g, int n, int nu, bool in, bool cut) { Trans t; std::vector<int> c = {n}; if (in) c.push_back(nu); t.m = genModel(g, n, c, g.chance(1, 3), true, 1); t.m.mu = genVec(g, n, 1); t.b = 0.25 + g.pos(2); t.amp = g.chance(1, 8) ? g.pos(1) * std::pow(10.0, g.range(-40, 40)) : g.pos(1); t.cut = cut && g.chance(1, 3) ? t.b * 0.75 : 0; t.seed = g.seed(); return t; }
// a likelihood
template <class MV> Vec zvec(const MV& z); template <> Vec zvec<CV>(const CV& z) { return fromC(z); } template <> Vec zvec<int>(const int& z) { Vec v(1); v[0] = z; return v; }
template <class MV> MV zof(const Vec& z); template <> CV zof<CV>(const Vec& z) { return toC(z); } template <> int zof<int>(const Vec& z) { return (int)z[0]; }
template <class MV> class LikPdf : public ConditionalPdf<MV, CV> {
  Trans t_;
 public:
  LikPdf(const Trans& t) : ConditionalPdf<MV, CV>(t.m.rows(), t.m.M.size()), t_(t) {}
  virtual LikPdf* Clone() const { return new LikPdf(*this); }
  virtual Probability ProbabilityGet(const MV& z) const { return Probability((double)t_.dens(zvec<MV>(z), fromC(this->ConditionalArgumentGet(0)), t_.in() ? fromC(this->ConditionalArgumentGet(1)) : Vec())); }
};
template <class MV> struct MeasB { Trans t; std::unique_ptr<LikPdf<MV>> p; std::unique_ptr<MeasurementModel<MV, CV>> m; };
struct SysB { Trans t; std::unique_ptr<RecPdf> p; std::unique_ptr<SystemModel<CV>> m; };
static SysB makeSysB(const Trans& t) { SysB s; s.t = t; s.p.reset(new RecPdf(t)); s.m.reset(new SystemModel<CV>(s.p.get())); return s; }
template <class MV> MeasB<MV> makeMeasB(const Trans& t) { MeasB<MV> s; s.t = t; s.p.reset(new LikPdf<MV>(t)); s.m.reset(new MeasurementModel<MV, CV>(s.p.get())); return s; }

struct Cloud { std::vector<Vec> x; std::vector<R> w; int n() const { return (int)x.size(); } };
static Cloud readc(const MCPdf<CV>& p) { Cloud c; for (unsigned i = 0; i < p.NumSamplesGet(); i++) { c.x.push_back(fromC(p.SampleGet(i).ValueGet())); c.w.push_back(p.SampleGet(i).WeightGet()); } return c; }
static bool eqv(const Vec& a, const Vec& b) { return a.v == b.v; }
static bool eqc(const Cloud& a, const Cloud& b) { if (a.n() != b.n()) return false; for (int i = 0; i < a.n(); i++) if (!eqv(a.x[i], b.x[i]) || a.w[i] != b.w[i]) return false; return true; }
static std::unique_ptr<MCPdf<CV>> makeMC(Gen& g, int N, int n) {
  std::vector<WeightedSample<CV>> l(N, WeightedSample<CV>(n)); bool unw = g.chance(1, 4); R q = 0; for (int i = 0; i < N; i++) { Vec x = genVec(g, n); if (i && g.chance(1, 6)) x = fromC(l[g.raw(i)].ValueGet()); l[i].ValueSet(toC(x)); double w = unw ? 1.0 / N : g.chance(1, 7) ? 0 : g.pos(1); l[i].WeightSet(w); q += w; } if (q == 0) l[0].WeightSet(1);
  std::unique_ptr<MCPdf<CV>> p(new MCPdf<CV>(N, n)); REQUIRE(p->ListOfSamplesSet(l), "prior refused"); return p;
}
static std::string showc(const Cloud& c) { std::string s; for (int i = 0; i < c.n() && i < 12; i++) s += str((double)c.w[i], "*", show(c.x[i]), " "); return s; }

// expectation about one component before resampling after the measurement
struct Expect { Cloud c; R tot; };
// checks the proposals recorded in LOG[off..off+N) against the particles before, returns the propagated cloud
static Cloud propagated(const Cloud& old, size_t off, bool due, const Trans& t, const Vec& u, const void* who) {
  Cloud p; int N = old.n();
  for (int i = 0; i < N; i++) {
    const Rec& r = LOG[off + i]; REQUIRE(r.who == who, "particle ", i, " was not drawn from the proposal density in use"); if (t.in()) REQUIRE(eqv(r.u, u), "particle ", i, " was proposed with input ", show(r.u), " instead of ", show(u));
    if (!due) { REQUIRE(eqv(r.x, old.x[i]), "particle ", i, " was proposed from ", show(r.x), " instead of its own value ", show(old.x[i])); p.w.push_back(old.w[i]); }
    else { bool f = false; for (int j = 0; j < N && !f; j++) f = old.w[j] > 0 && eqv(old.x[j], r.x); REQUIRE(f, "with resampling due, particle ", i, " was proposed from ", show(r.x), " which is not a particle of positive weight"); p.w.push_back((R)1 / N); }
    p.x.push_back(r.y);
  }
  return p;
}
static void sameCloud(const Cloud& got, const Cloud& want) { REQUIRE(got.n() == want.n(), "number of particles ", got.n(), " instead of ", want.n()); for (int i = 0; i < got.n(); i++) { REQUIRE(eqv(got.x[i], want.x[i]), "particle ", i, " is ", show(got.x[i]), " instead of ", show(want.x[i])); REQUIRE(fabsl(got.w[i] - want.w[i]) <= 1e-12L * (got.n() + 4) * want.w[i] + 1e-280L, "weight of particle ", i, " is ", (double)got.w[i], " instead of ", (double)want.w[i], " in ", showc(want)); } }
// posterior after a measurement given the normalised expectation; returns false if the resampling decision is too close to call
static bool checkResample(const Cloud& now, const Cloud& want, bool dyn, double thr, bool* did) {
  R ss = 0; for (R w : want.w) ss += w * w; R ne = 1 / ss; if (dyn && fabsl(ne - thr) < 1e-9L * thr) return false; *did = dyn && ne < thr;
  if (!*did) { sameCloud(now, want); return true; }
  REQUIRE(now.n() == want.n(), "number of particles changed by resampling"); for (int i = 0; i < now.n(); i++) { REQUIRE(fabsl(now.w[i] - (R)1 / now.n()) <= 1e-12L, "effective sample size ", (double)ne, " is below the threshold ", thr, " but particle ", i, " has weight ", (double)now.w[i], " instead of ", 1.0 / now.n(), "; before ", showc(want)); bool f = false; for (int j = 0; j < want.n() && !f; j++) f = want.w[j] > 0 && eqv(want.x[j], now.x[i]); REQUIRE(f, "resampled particle ", show(now.x[i]), " is not a particle of positive weight in ", showc(want)); }
  return true;
}
template <class MV> static Expect weighted(const Cloud& p, const Cloud* from, const Trans* sys, const Trans* prop, const Vec& u, const MeasB<MV>& z, const Vec& zv, const Vec& sv) {
  Expect e; e.c = p; e.tot = 0; for (int i = 0; i < p.n(); i++) { R f = (double)z.t.dens(zv, p.x[i], sv); if (sys) f = f * (double)sys->dens(p.x[i], from->x[i], u) / (double)prop->dens(p.x[i], from->x[i], u); e.c.w[i] = p.w[i] * f; e.tot += e.c.w[i]; } if (e.tot > 0) for (auto& w : e.c.w) w /= e.tot; return e;
}
static Cloud parents(size_t off, int N) { Cloud c; for (int i = 0; i < N; i++) { c.x.push_back(LOG[off + i].x); c.w.push_back(0); } return c; }

// ------------------------------------------------ P21
template <class MV> static void p21(Gen& g) {
  int n = genDim(g, 3), nu = genDim(g, 2), ns = nu, nz = std::is_same<MV, int>::value ? 1 : genDim(g, 3); bool boot = g.chance(1, 2), sin = g.chance(1, 2); rngctl::use_prng(g.seed()); rngctl::edge_rate(g.chance(1, 2) ? 100 : 0);
  std::vector<SysB> S, Q; std::vector<MeasB<MV>> Z; for (int i = 0, k = g.range(1, 2); i < k; i++) S.push_back(makeSysB(i && g.chance(1, 3) ? variantT(g, S[0].t) : genTrans(g, n, nu, boot ? g.chance(1, 2) : sin, !boot))); for (int i = 0; i < 2; i++) Q.push_back(makeSysB(genTrans(g, n, nu, sin, false)));
  for (int i = 0, k = g.range(1, 2); i < k; i++) { Trans t = genTrans(g, nz, ns, false, true); std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(ns); Model m = genModel(g, nz, c, g.chance(1, 3), true, 1); t.m = m; if (g.chance(1, 6)) t.amp = 1e-120; t.b *= 2; t.cut = t.cut > 0 ? 4 : 0; Z.push_back(makeMeasB<MV>(t)); }
  typedef ParticleFilter<CV, MV> PF; struct Fl { std::unique_ptr<MCPdf<CV>> prior, ext; Cloud pc, cur; std::unique_ptr<PF> f; bool dyn; int period; double thr; int ts, q; }; std::vector<Fl> F(g.range(1, 2));
  for (auto& x : F) {
    int N = g.count(1, 8, 60); x.prior = makeMC(g, N, n); x.pc = x.cur = readc(*x.prior); x.dyn = g.chance(2, 3); x.period = x.dyn ? 0 : g.count(1, 3, 8); x.thr = x.dyn ? (g.chance(1, 3) ? 1e-6 : g.chance(1, 3) ? N + 1.0 : 0.1 + N * g.u01()) : 0; x.ts = 0; x.q = 0; bool ext = g.chance(1, 3); if (ext) x.ext.reset(new MCPdf<CV>(g.chance(1, 2) ? N : g.range(1, 9), n));
    if (boot) x.f.reset(ext ? new BootstrapFilter<CV, MV>(x.prior.get(), x.ext.get(), x.period, x.thr) : new BootstrapFilter<CV, MV>(x.prior.get(), x.period, x.thr)); else x.f.reset(ext ? new PF(x.prior.get(), x.ext.get(), Q[0].p.get(), x.period, x.thr) : new PF(x.prior.get(), Q[0].p.get(), x.period, x.thr));
    if (ext) REQUIRE(x.f->PostGet() == x.ext.get(), "the filter does not use the posterior object it was given"); sameCloud(readc(*x.f->PostGet()), x.pc); x.cur = readc(*x.f->PostGet()); g.note(boot ? "bootstrap" : "particle", " filter, ", N, " particles, ", x.dyn ? "dynamic threshold " : "period ", x.dyn ? x.thr : x.period, " prior ", showc(x.pc));
  }
  int ops = g.count(1, 9, 40), sysn = 0, measn = 0, res = 0; Vec lu, ls, lz;
  for (int k = 0; k < ops; k++) {
    Fl& x = F[g.raw(F.size())]; int op = g.range(0, 5); SysB& s = S[g.raw(S.size())]; MeasB<MV>& z = Z[g.raw(Z.size())]; Vec u = stick(g, lu, genVec(g, nu)), sv = stick(g, ls, genVec(g, ns)); Vec zv = stick(g, lz, g.chance(1, 4) ? genVec(g, nz, 12) : genVec(g, nz)); if (std::is_same<MV, int>::value) zv[0] = (int)zv[0];
    if (op == 5) { if (!boot) { x.q = 1 - x.q; x.f->ProposalSet(Q[x.q].p.get()); REQUIRE(x.f->ProposalGet() == Q[x.q].p.get(), "ProposalGet"); } continue; }
    bool ds = op != 1, dm = op != 0; if (!boot && op == 0) { dm = true; } const SysB& q = boot ? s : Q[x.q];
    bool due = ds && !x.dyn && x.ts != 0 && x.ts % x.period == 0; int N = x.cur.n(); LOG.clear(); g.note("op ", op, ds ? " system" : "", dm ? " measurement" : "", due ? " resampling due" : "");
    bool ok = doUpdateT<CV, MV>(g, *x.f, ds ? s.m.get() : 0, s.t.in(), toC(u), dm ? z.m.get() : 0, z.t.in(), zof<MV>(zv), toC(sv)); REQUIRE(LOG.size() == (ds ? (size_t)N : 0), LOG.size(), " proposals drawn for ", N, " particles"); if (ds) x.ts++;
    Cloud p = ds ? propagated(x.cur, 0, due, q.t, u, q.p.get()) : x.cur, now; sysn += ds; res += due;
    if (dm) { Cloud par; if (ds) par = parents(0, N); Expect e = weighted<MV>(p, &par, ds && !boot ? &s.t : 0, &q.t, u, z, zv, sv); if (e.tot == 0) { REQUIRE(!ok, "a measurement impossible for every particle was reported as processed"); g.label("impossible"); break; } if (e.tot < 1e-250L) g.discard(); REQUIRE(ok, "update failed"); now = readc(*x.f->PostGet()); bool did; if (!checkResample(now, e.c, x.dyn, x.thr, &did)) g.discard(); res += did; measn++; }
    else { REQUIRE(ok, "update failed"); now = readc(*x.f->PostGet()); sameCloud(now, p); }
    x.cur = now; REQUIRE(x.f->TimeStepGet() == x.ts, "time step ", x.f->TimeStepGet(), " after ", x.ts, " system updates"); for (auto& y : F) { REQUIRE(eqc(readc(*y.f->PostGet()), y.cur), "another filter changed"); REQUIRE(eqc(readc(*y.prior), y.pc), "the prior changed"); }
  }
  if (measn && sysn) g.mark(); g.label(boot ? "bootstrap" : "own proposal"); if (res) g.label("resampled");
}
static Reg a1({"P21", "at least one system and one measurement update", p21<CV>, false, "continuous measurements", 2});
static Reg a2({"P21", "at least one system and one measurement update", p21<int>, false, "discrete measurements", 1});
// the same filters over a discrete state, on top of the library's own discrete transition table
struct RecI { int x, u, y; }; static std::vector<RecI> LOGI;
class RecDisc : public DiscreteConditionalPdf { public: bool in; RecDisc(int n, bool i, int* d) : DiscreteConditionalPdf(n, i ? 2 : 1, d), in(i) {} virtual RecDisc* Clone() const { return new RecDisc(*this); } using DiscreteConditionalPdf::SampleFrom; virtual bool SampleFrom(Sample<int>& s, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { if (!DiscreteConditionalPdf::SampleFrom(s, m, a)) return false; RecI r = {ConditionalArgumentGet(0), in ? ConditionalArgumentGet(1) : 0, s.ValueGet()}; LOGI.push_back(r); return true; } };
static void p21_disc(Gen& g) {
  int n = g.count(1, 5, 12), nu = g.range(1, 3), nz = g.range(1, 4); bool sin = g.chance(1, 2), zin = g.chance(1, 3), boot = g.chance(1, 2); rngctl::use_prng(g.seed()); struct Tab { std::unique_ptr<RecDisc> p; std::vector<std::vector<std::vector<R>>> t; R at(int y, int x, int u, bool in) const { return t[x][in ? u : 0][y]; } };
  auto table = [&](int m, bool in, bool full) { Tab T_; int d[2] = {n, nu}; T_.p.reset(new RecDisc(m, in, d)); T_.t.resize(n); for (int x = 0; x < n; x++) for (int u = 0; u < (in ? nu : 1); u++) { std::vector<R> w(m); R q = 0; for (auto& e : w) { e = !full && g.chance(1, 3) ? 0 : g.range(1, 6); q += e; } if (q == 0) { w[g.range(0, m - 1)] = 1; q = 1; } for (int y = 0; y < m; y++) { double v = (double)(w[y] / q); w[y] = v; T_.p->ProbabilitySet(v, y, in ? std::vector<int>{x, u} : std::vector<int>{x}); } T_.t[x].push_back(w); } return T_; };
  Tab S = table(n, sin, false), Q = table(n, sin, true), Z = table(nz, zin, false); DiscreteSystemModel sm(S.p.get()); MeasurementModel<int, int> mm(Z.p.get()); int N = g.count(1, 10, 60); std::vector<WeightedSample<int>> l(N, WeightedSample<int>(1)); bool any = false; for (auto& e : l) { e.ValueSet(g.range(0, n - 1)); double w = g.chance(1, 7) ? 0 : g.pos(1); e.WeightSet(w); any |= w > 0; } if (!any) l[0].WeightSet(1); MCPdf<int> prior(N, 1); REQUIRE(prior.ListOfSamplesSet(l), "prior refused");
  bool dyn = g.chance(2, 3); int period = dyn ? 0 : g.range(1, 3), ts = 0; double thr = dyn ? (g.chance(1, 3) ? 1e-6 : g.chance(1, 3) ? N + 1.0 : 0.1 + N * g.u01()) : 0; std::unique_ptr<ParticleFilter<int, int>> f; if (boot) f.reset(new BootstrapFilter<int, int>(&prior, period, thr)); else f.reset(new ParticleFilter<int, int>(&prior, Q.p.get(), period, thr));
  auto read = [&](std::vector<int>& x, std::vector<R>& w) { MCPdf<int>* p = f->PostGet(); REQUIRE((int)p->NumSamplesGet() == N, "number of particles ", p->NumSamplesGet()); x.resize(N); w.resize(N); for (int i = 0; i < N; i++) { x[i] = p->SampleGet(i).ValueGet(); w[i] = p->SampleGet(i).WeightGet(); } }; std::vector<int> x; std::vector<R> w; read(x, w); g.note(boot ? "bootstrap" : "particle", " filter over ", n, " states, ", N, " particles, ", dyn ? "threshold " : "period ", dyn ? thr : period); int ns_ = 0, nm = 0;
  auto isOf = [&](int v) { for (int j = 0; j < N; j++) if (w[j] > 0 && x[j] == v) return true; return false; };
  for (int k = 0, ops = g.count(1, 8, 30); k < ops; k++) {
    int op = g.range(0, 2), u = g.range(0, nu - 1), z = g.range(0, nz - 1), sv = g.range(0, nu - 1); bool ds = op != 1, dm = op != 0 || (ds && !boot); bool due = ds && !dyn && ts && ts % period == 0; LOGI.clear(); g.note("op ", op, " u ", u, " z ", z, " s ", sv, due ? " resampling due" : ""); const Tab& q = boot ? S : Q;
    // drawing from the measurement table is not recorded: it is never sampled
    bool ok = doUpdateT<int, int>(g, *f, ds ? &sm : 0, sin, u, dm ? &mm : 0, zin, z, sv); REQUIRE(LOGI.size() == (ds ? (size_t)N : 0), LOGI.size(), " proposals drawn for ", N, " particles"); std::vector<int> nx = x; std::vector<R> nw = w, pw = w;
    if (ds) { ts++; ns_++; for (int i = 0; i < N; i++) { RecI& r = LOGI[i]; if (sin) REQUIRE(r.u == u, "particle proposed with input ", r.u, " instead of ", u); REQUIRE(q.at(r.y, r.x, u, sin) > 0, "an impossible transition was drawn"); if (due) { REQUIRE(isOf(r.x), "with resampling due, a particle was proposed from ", r.x, " which is not a particle of positive weight"); pw[i] = (R)1 / N; } else REQUIRE(r.x == x[i], "particle ", i, " was proposed from ", r.x, " instead of its own state ", x[i]); nx[i] = r.y; } nw = pw; }
    if (dm) { R tot = 0; for (int i = 0; i < N; i++) { R v = Z.at(z, nx[i], sv, zin); if (ds && !boot) v *= S.at(nx[i], LOGI[i].x, u, sin) / Q.at(nx[i], LOGI[i].x, u, sin); nw[i] *= v; tot += nw[i]; } if (tot == 0) { REQUIRE(!ok, "a measurement impossible for every particle was reported as processed"); g.label("impossible"); break; } for (auto& e : nw) e /= tot; nm++; }
    REQUIRE(ok, "update failed"); x = nx; w = nw; std::vector<int> gx; std::vector<R> gw; read(gx, gw); R ss = 0; for (R e : w) ss += e * e; if (dm && dyn && fabsl(1 / ss - thr) < 1e-9L * thr) g.discard();
    if (dm && dyn && 1 / ss < thr) { for (int i = 0; i < N; i++) { REQUIRE(fabsl(gw[i] - (R)1 / N) <= 1e-12L, "resampled weight ", (double)gw[i]); REQUIRE(isOf(gx[i]), "resampled particle ", gx[i], " is not a particle of positive weight"); } g.label("resampled"); }
    else for (int i = 0; i < N; i++) { REQUIRE(gx[i] == x[i], "particle ", i, " is ", gx[i], " instead of ", x[i]); REQUIRE(fabsl(gw[i] - w[i]) <= 1e-12L * (N + 4) * w[i] + 1e-280L, "weight of particle ", i, " is ", (double)gw[i], " instead of ", (double)w[i]); }
    x = gx; w = gw; REQUIRE(f->TimeStepGet() == ts, "time step ", f->TimeStepGet(), " after ", ts, " system updates");
  }
  if (ns_ && nm) g.mark();
}
static Reg a2d({"P21", "at least one system and one measurement update", p21_disc, false, "discrete state", 1});
// resampling frequencies
static void p21_freq(Gen& g) {
  int n = g.range(1, 2), N = g.range(50, 300), D = g.range(1, 6); std::vector<Vec> val(D); for (int i = 0; i < D; i++) { val[i] = genVec(g, n); val[i][0] += 100 * i; } std::vector<WeightedSample<CV>> l(N, WeightedSample<CV>(n)); std::vector<int> id(N); for (int i = 0; i < N; i++) { id[i] = i < D ? i : g.range(0, D - 1); l[i].ValueSet(toC(val[id[i]])); l[i].WeightSet(id[i] == 0 ? g.pos(1) : g.chance(1, 10) ? 0 : g.pos(0.2 + id[i])); }
  MCPdf<CV> prior(N, n); prior.ListOfSamplesSet(l); rngctl::use_prng(g.seed()); Trans t; t.m = genModel(g, 1, {n}, false, true, 1); t.m.M[0] = Mat(1, n); t.b = 1; t.amp = 1; t.cut = 0; t.seed = 1; t.m.mu = Vec(1); MeasB<CV> z = makeMeasB<CV>(t); Trans tt = genTrans(g, n, 1, false, false); SysB s = makeSysB(tt); bool dyn = g.chance(1, 2); LOG.clear(); BootstrapFilter<CV, CV> f(&prior, dyn ? 0 : 1, dyn ? N + 1 : 0); Vec zv(1); std::vector<R> p(D); Cloud c = readc(prior); for (int i = 0; i < N; i++) p[id[i]] += c.w[i]; std::vector<int> cnt(D); g.note(N, " particles on ", D, " values, ", dyn ? "dynamic" : "static");
  if (dyn) { REQUIRE(f.Update(z.m.get(), toC(zv)), "update"); Cloud o = readc(*f.PostGet()); for (auto& x : o.x) for (int d = 0; d < D; d++) if (eqv(x, val[d])) cnt[d]++; }
  else { f.Update(s.m.get()); Cloud o = readc(*f.PostGet()); std::fill(p.begin(), p.end(), 0); LOG.clear(); REQUIRE(f.Update(s.m.get()), "update"); for (auto& r : LOG) for (int i = 0; i < N; i++) if (eqv(o.x[i], r.x)) { cnt[id[i]]++; break; } for (int i = 0; i < N; i++) p[id[i]] += o.w[i]; }
  int tot = 0; for (int d = 0; d < D; d++) tot += cnt[d]; REQUIRE(tot == N, "resampled particles not among the values"); for (int d = 0; d < D; d++) { R m = N * p[d], sd = sqrtl(m * (1 - std::min((R)1, p[d]))); REQUIRE(fabsl(cnt[d] - m) <= 7 * sd + 12, "resampling selected value ", d, " ", cnt[d], " times, expected about ", (double)m); }
  if (D > 1) g.mark(); g.label(dyn ? "dynamic" : "static");
}
static Reg a3({"P21", "more than one distinct value", p21_freq, false, "resampling frequencies", 1});

// ------------------------------------------------ P23
template <class MV> static void p23(Gen& g) {
  int n = genDim(g, 2), nu = genDim(g, 2), ns = nu, nz = std::is_same<MV, int>::value ? 1 : genDim(g, 2), C = g.count(1, 4, 10); bool boot = g.chance(2, 3), sin = g.chance(1, 2); rngctl::use_prng(g.seed()); rngctl::edge_rate(g.chance(1, 2) ? 100 : 0);
  std::vector<SysB> S, Q; std::vector<MeasB<MV>> Z; for (int i = 0, k = g.range(1, 2); i < k; i++) S.push_back(makeSysB(i && g.chance(1, 3) ? variantT(g, S[0].t) : genTrans(g, n, nu, boot ? g.chance(1, 2) : sin, !boot))); Q.push_back(makeSysB(genTrans(g, n, nu, sin, false)));
  for (int i = 0, k = g.range(1, 2); i < k; i++) { Trans t = genTrans(g, nz, ns, false, true); std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(ns); t.m = genModel(g, nz, c, g.chance(1, 3), true, 1); t.b *= 2; t.cut = t.cut > 0 ? 3 : 0; Z.push_back(makeMeasB<MV>(t)); }
  std::vector<Pdf<CV>*> comp; std::vector<std::unique_ptr<MCPdf<CV>>> own; std::vector<Probability> pw; Mixture<CV> prior((unsigned int)n); R q = 0; std::vector<double> rw; for (int c = 0; c < C; c++) { own.push_back(makeMC(g, g.count(1, 6, 30), n)); comp.push_back(own[c].get()); rw.push_back(g.chance(1, 8) ? 0 : g.pos(1)); q += rw[c]; } if (q == 0) rw[0] = 1; for (double e : rw) pw.push_back(e);
  for (int c = 0; c < C; c++) prior.AddComponent(*own[c]); REQUIRE(prior.WeightsSet(pw), "mixture weights refused");
  auto clouds = [&](Mixture<CV>& m) { std::vector<Cloud> v; for (unsigned c = 0; c < m.NumComponentsGet(); c++) v.push_back(readc(*dynamic_cast<MCPdf<CV>*>(m.ComponentGet(c)))); return v; }; auto weights = [&](Mixture<CV>& m) { std::vector<R> v; for (auto& e : m.WeightsGet()) v.push_back((double)e); return v; };
  bool dyn = g.chance(2, 3); int period = dyn ? 0 : g.range(1, 4); double thr = dyn ? (g.chance(1, 3) ? 1e-6 : 0.1 + 5 * g.u01()) : 0; typedef MixtureParticleFilter<CV, MV> MF; std::unique_ptr<MF> f; if (boot) f.reset(new MixtureBootstrapFilter<CV, MV>(&prior, period, thr)); else f.reset(new MF(&prior, Q[0].p.get(), period, thr));
  std::vector<Cloud> cur = clouds(*f->PostGet()), pc = clouds(prior); std::vector<R> W = weights(*f->PostGet()), pW = weights(prior); REQUIRE((int)cur.size() == C, "components"); for (int c = 0; c < C; c++) { sameCloud(cur[c], pc[c]); REQUIRE(fabsl(W[c] - pW[c]) < 1e-12L, "initial mixture weight"); } std::vector<bool> dead(C, false); int ts = 0, ops = g.count(1, 8, 30), sysn = 0, measn = 0, res = 0; Vec lu, ls, lz; size_t tot = 0; for (auto& c : cur) tot += c.n(); g.note(boot ? "bootstrap" : "own proposal", ", ", C, " components, ", dyn ? "threshold " : "period ", dyn ? thr : period); for (auto& c : cur) g.note("component ", showc(c));
  for (int k = 0; k < ops; k++) {
    int op = g.range(0, 3); SysB& s = S[g.raw(S.size())]; MeasB<MV>& z = Z[g.raw(Z.size())]; Vec u = stick(g, lu, genVec(g, nu)), sv = stick(g, ls, genVec(g, ns)), zv = stick(g, lz, g.chance(1, 4) ? genVec(g, nz, 12) : genVec(g, nz)); if (std::is_same<MV, int>::value) zv[0] = (int)zv[0]; bool ds = op != 1, dm = op != 0; if (!boot && op == 0) dm = true; const SysB& pr = boot ? s : Q[0]; bool due = ds && !dyn && ts != 0 && ts % period == 0; LOG.clear(); g.note("op ", op, ds ? " system" : "", dm ? " measurement" : "", due ? " resampling due" : "");
    bool ok = doUpdateT<CV, MV>(g, *f, ds ? s.m.get() : 0, s.t.in(), toC(u), dm ? z.m.get() : 0, z.t.in(), zof<MV>(zv), toC(sv)); REQUIRE(LOG.size() == (ds ? tot : 0), LOG.size(), " proposals drawn for ", tot, " particles"); if (ds) { ts++; sysn++; } std::vector<R> lik(C, 1); std::vector<Expect> E(C); std::vector<Cloud> P(C); size_t off = 0; R all = 0; res += due;
    for (int c = 0; c < C; c++) { int N = cur[c].n(); if (dead[c]) { off += N; lik[c] = 0; continue; } P[c] = ds ? propagated(cur[c], off, due, pr.t, u, pr.p.get()) : cur[c]; if (dm) { Cloud par; if (ds) par = parents(off, N); E[c] = weighted<MV>(P[c], &par, ds && !boot ? &s.t : 0, &pr.t, u, z, zv, sv); lik[c] = E[c].tot; if (E[c].tot == 0) dead[c] = true; else if (E[c].tot < 1e-200L) g.discard(); } off += N; all += W[c] * lik[c]; }
    if (dm && all == 0) { REQUIRE(!ok, "a measurement impossible for every component was reported as processed"); g.label("impossible"); break; } REQUIRE(ok, "update failed"); measn += dm; std::vector<Cloud> now = clouds(*f->PostGet()); std::vector<R> nW = weights(*f->PostGet()); REQUIRE((int)now.size() == C && (int)nW.size() == C, "number of components changed"); bool did, tie = false;
    for (int c = 0; c < C; c++) { if (dead[c]) { REQUIRE(nW[c] == 0, "component ", c, " has weight ", (double)nW[c], " though the measurement is impossible for all its particles"); continue; } if (dm) { if (!checkResample(now[c], E[c].c, dyn, thr, &did)) tie = true; else res += did; } else sameCloud(now[c], P[c]); R want = dm ? W[c] * lik[c] / all : W[c]; REQUIRE(fabsl(nW[c] - want) <= 1e-11L * want + 1e-280L, "weight of component ", c, " is ", (double)nW[c], " instead of ", (double)want); }
    if (tie) g.discard(); cur = now; W = nW; REQUIRE(f->TimeStepGet() == ts, "time step ", f->TimeStepGet(), " after ", ts, " system updates"); std::vector<Cloud> pn = clouds(prior); for (int c = 0; c < C; c++) REQUIRE(eqc(pn[c], pc[c]) && weights(prior)[c] == pW[c], "the prior changed"); REQUIRE(clouds(prior).size() == (size_t)C, "prior components");
  }
  if (measn && sysn && C > 1) g.mark(); g.label(boot ? "bootstrap" : "own proposal"); if (res) g.label("resampled");
}
static Reg a4({"P23", "more than one component, at least one system and one measurement update", p23<CV>, false, "continuous measurements", 2});
static Reg a5({"P23", "more than one component, at least one system and one measurement update", p23<int>, false, "discrete measurements", 1});

// ------------------------------------------------ P22
static void p22(Gen& g) {
  int n = genDim(g, 3), nu = genDim(g, 2), ns = nu, N = g.count(1, 6, 20); std::vector<Sys> S; std::vector<Meas> Z; for (int i = 0, k = g.range(1, 2); i < k; i++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(nu); bool va = i && g.chance(1, 3); Model m = va ? variant(g, S[0].m) : genModel(g, n, c, g.chance(1, 2), true, 1.2); if (!va) m.S = genSPD(g, n); S.push_back(makeSys(m)); g.note("system ", show(m)); } for (int i = 0, k = g.range(1, 2); i < k; i++) { int d = genDim(g, 3); std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(ns); bool va = i && g.chance(1, 3); Model m = va ? variant(g, Z[0].m) : genModel(g, d, c, g.chance(1, 2), true, 1.2); if (!va) m.S = genSPD(g, d); Z.push_back(makeMeas(m)); g.note("measurement ", show(m)); }
  std::unique_ptr<MCPdf<CV>> prior = makeMC(g, N, n); Cloud cur = readc(*prior), pc = cur; bool dyn = g.chance(2, 3); int period = dyn ? 0 : g.range(1, 3); double thr = dyn ? (g.chance(1, 2) ? 1e-6 : g.chance(1, 2) ? N + 1.0 : 0.1 + N * g.u01()) : 0; EKParticleFilter f(prior.get(), period, thr); Vec mean(n); for (int i = 0; i < N; i++) mean = mean + cur.w[i] * cur.x[i]; Mat P0(n, n); for (int i = 0; i < N; i++) P0 = P0 + cur.w[i] * outer(cur.x[i] - mean, cur.x[i] - mean); std::vector<Mat> C(N, P0); std::vector<R> eC(N, 1e-13L * (1 + maxabs(P0)) * 16);
  g.note(N, " particles, ", dyn ? "threshold " : "period ", dyn ? thr : period, " prior ", showc(cur)); int ops = g.count(1, 4, 8), ts = 0, res = 0, upd = 0; Vec lu, ls, lz; rngctl::use_prng(g.seed());
  for (int k = 0; k < ops; k++) {
    Sys& s = S[g.raw(S.size())]; Meas& z = Z[g.raw(Z.size())]; Vec u = stick(g, lu, genVec(g, nu)), sv = stick(g, ls, genVec(g, ns)), zv = stick(g, lz, genVec(g, z.m.rows())); bool due = !dyn && ts && ts % period == 0; double c = g.pick(std::vector<double>{0, 1, -1, 0.5, -2});
    // expected proposals for every particle, before knowing which ones survive a static resampling
    std::vector<Upd> U(N); std::vector<R> tm(N), tp(N); R worst = 1; for (int i = 0; i < N; i++) { Bel b; b.m = cur.x[i]; b.P = C[i]; Bel p = predict(b, s.m, u); U[i] = correct(p, z.m, zv, sv); R a = n * (1 + maxabs(s.m.M[0])) * 2; R em = 1e-13L * 16 * (1 + maxabs(b.m)) * a, eP = (eC[i] + 1e-13L * maxabs(p.P)) * a * a; tm[i] = U[i].meanTol(em * 8 * (1 + U[i].nK * (1 + maxabs(U[i].innov))), eP) + 1e-12L; tp[i] = U[i].covTol(eP) + 1e-13L + em * U[i].nK * (1 + U[i].nH) * U[i].nP * 8; if (U[i].condS > 1e7L) g.discard(); /* noise is well conditioned here, so the worst-case bounds above are far too wide for ordinary cases */ if (U[i].condS < 1e4L && U[i].nK * U[i].nH < 100) { R sc = 1 + maxabs(cur.x[i]) + maxabs(p.m) + maxabs(zv) + maxabs(p.P); tm[i] = std::min(tm[i], 1e-10L * sc); tp[i] = std::min(tp[i], 1e-10L * sc); } R lam = eigs(U[i].b.P)[0]; worst = std::max(worst, 1 / std::max(lam, (R)1e-30L)); if (tm[i] > 1e-6L || tp[i] > 1e-6L || lam < 1e-3L) g.discard(); }
    // one normal value for all draws: every new particle then lies at a known Mahalanobis distance of its proposal
    uint64_t sd = g.seed(); rngctl::use_prng(sd); rngctl::set_normal_const(true, c); g.note("update ", k, due ? " resampling due" : "", " normal ", c, " z ", show(zv)); rngctl::reset_counts();
    bool ok = doUpdateT<CV, CV>(g, f, s.model.get(), s.in(), toC(u), z.model.get(), z.in(), toC(zv), toC(sv)); bool seen = rngctl::normal_calls() > 0; ts++; upd++;
    if (!ok) { /* only excusable when the densities may have underflowed: bound the exponents over the ellipsoid the samples lie on */ for (int i = 0; i < N; i++) { std::vector<Vec> sa = {cur.x[i]}, za = {U[i].b.m}; if (s.in()) sa.push_back(u); if (z.in()) za.push_back(sv); R rad = sqrtl((R)n) * fabsl((R)c) * sqrtl(n * maxabs(U[i].b.P)), ds = n * maxabs(U[i].b.m - s.m.f(sa)) + rad, dz = z.m.rows() * maxabs(zv - z.m.f(za)) + z.m.rows() * (2 + maxabs(z.m.M[0]) + n) * n * rad; if (ds * ds * n * maxabs(inv(s.m.S)) / 2 > 300 || dz * dz * z.m.rows() * maxabs(inv(z.m.S)) / 2 > 300) g.discard(); } }
    REQUIRE(ok, "update failed"); Cloud now = readc(*f.PostGet()); REQUIRE(now.n() == N, "number of particles ", now.n()); REQUIRE(f.TimeStepGet() == ts, "time step ", f.TimeStepGet(), " after ", ts, " updates"); if (!seen) { g.label("normals not observable"); return; }
    auto fits = [&](const Vec& x, int i) { Mat iP = inv(U[i].b.P); Vec d = x - U[i].b.m; R m2 = dot(d, iP * d), want = n * (R)c * c, tol = 1e-9L + tm[i] * 2 * (fabsl((R)c) * n + 1) * n * maxabs(iP) * (maxabs(d) + tm[i]) * 2 + tp[i] * n * n * maxabs(iP) * maxabs(iP) * dot(d, d) * 4; if (c == 0) return maxabs(d) <= tm[i] * 4; return fabsl(m2 - want) <= tol * 4 + 1e-8L; };
    auto wOf = [&](const Vec& x, int i) { std::vector<Vec> sa = {cur.x[i]}, za = {x}; if (s.in()) sa.push_back(u); if (z.in()) za.push_back(sv); return logGauss(zv, z.m.f(za), z.m.cov(za)) + logGauss(x, s.m.f(sa), s.m.cov(sa)) - logGauss(x, U[i].b.m, U[i].b.P); };
    // which particle each new one descends from: itself, or any of positive weight after resampling
    std::vector<Vec> nx = now.x; std::vector<int> par(N, -1); bool post; R tolw = 1e-9L; for (int i = 0; i < N; i++) tolw += 8 * (tm[i] + tp[i]) * n * n * worst * worst;
    if (tolw > 1e-3L) g.discard();
    if (!due) {
      // before a possible dynamic resampling the proposals are x_i = fits(., i); they can only be observed when no resampling took place
      bool eq = true; for (int i = 0; i < N; i++) if (fabsl(now.w[i] - (R)1 / N) > 1e-12L) eq = false; bool all = true; for (int i = 0; i < N; i++) if (!fits(now.x[i], i)) all = false;
      if (!all) { REQUIRE(dyn && eq, "particle list does not match the proposals of the particles: ", showc(now)); for (int i = 0; i < N; i++) { for (int j = 0; j < N && par[i] < 0; j++) if (cur.w[j] > 0 && fits(now.x[i], j)) par[i] = j; REQUIRE(par[i] >= 0, "particle ", show(now.x[i]), " fits none of the proposals"); } res++; post = true; REQUIRE(thr > 1, "resampled although the effective sample size cannot be below ", thr);
        if (c == 0) { std::vector<R> w(N); R mx = -1e300L, tot = 0, ss = 0; for (int i = 0; i < N; i++) if (cur.w[i] > 0) mx = std::max(mx, wOf(U[i].b.m, i)); if (mx < -500) g.discard(); for (int i = 0; i < N; i++) { w[i] = cur.w[i] > 0 ? cur.w[i] * expl(wOf(U[i].b.m, i) - mx) : 0; tot += w[i]; } for (auto& e : w) { e /= tot; ss += e * e; } REQUIRE(1 / ss < thr * 1.01L, "resampled with effective sample size ", (double)(1 / ss), " and threshold ", thr); } }
      else { for (int i = 0; i < N; i++) par[i] = i; std::vector<R> lw(N); R mx = -1e300L, tot = 0; for (int i = 0; i < N; i++) { lw[i] = wOf(now.x[i], i); if (cur.w[i] > 0) mx = std::max(mx, lw[i]); } if (mx < -500) g.discard(); /* the factors come close to the smallest doubles */ std::vector<R> w(N); for (int i = 0; i < N; i++) { w[i] = cur.w[i] > 0 ? cur.w[i] * expl(lw[i] - mx) : 0; tot += w[i]; } R ss = 0; for (auto& e : w) { e /= tot; ss += e * e; } bool should = dyn && 1 / ss < thr, close = dyn && fabsl(1 / ss - thr) < 1e-2L * thr;
        if (close) g.discard(); if (should) { REQUIRE(eq, "effective sample size ", (double)(1 / ss), " below the threshold ", thr, " but weights ", showc(now)); res++; } else for (int i = 0; i < N; i++) REQUIRE(fabsl(now.w[i] - w[i]) <= tolw, "weight of particle ", i, " is ", (double)now.w[i], " expected ", (double)w[i], " (logarithm ", (double)lw[i], ", largest ", (double)mx, ", tolerance ", (double)tolw, ")"); post = should; }
    } else {
      res++; post = false; std::vector<R> lw(N); R mx = -1e300L, tot = 0; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) if (cur.w[j] > 0 && fits(now.x[i], j)) { if (par[i] >= 0) { if (maxabs(C[par[i]] - C[j]) > 1e-9L || maxabs(cur.x[par[i]] - cur.x[j]) > 1e-9L) g.discard(); } par[i] = j; } REQUIRE(par[i] >= 0, "after resampling, particle ", show(now.x[i]), " fits none of the proposals"); lw[i] = wOf(now.x[i], par[i]); mx = std::max(mx, lw[i]); } if (mx < -500) g.discard(); for (auto& e : lw) { e = expl(e - mx); tot += e; } for (int i = 0; i < N; i++) REQUIRE(fabsl(now.w[i] - lw[i] / tot) <= tolw, "after resampling, weight of particle ", i, " is ", (double)now.w[i], " expected ", (double)(lw[i] / tot));
    }
    (void)post; (void)nx; std::vector<Mat> nC; std::vector<R> ne; bool amb = false; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) if (j != par[i] && (due || post) && fits(now.x[i], j) && maxabs(U[j].b.P - U[par[i]].b.P) > 1e-9L) amb = true; nC.push_back(U[par[i]].b.P); ne.push_back(tp[par[i]]); } if (amb) g.discard(); C = nC; eC = ne; cur = now; REQUIRE(eqc(readc(*prior), pc), "the prior changed");
    R resw = 0; for (R w : cur.w) resw += w; REQUIRE(fabsl(resw - 1) < 1e-9L, "weights sum to ", (double)resw);
  }
  if (upd > 1 && N > 1) g.mark(); if (res) g.label("resampled"); else g.label("not resampled");
}
static Reg a6({"P22", "at least two updates of more than one particle", p22, false, "history", 6});
// the proposal density used on its own: at every moment the Kalman update for the models, arguments and covariance it has now
static void p22_prop(Gen& g) {
  int n = genDim(g, 3), nu = genDim(g, 2), ns = nu; std::vector<Sys> S; std::vector<Meas> Z; for (int i = 0; i < 2; i++) { std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(nu); bool va = i && g.chance(1, 3); Model m = va ? variant(g, S[0].m) : genModel(g, n, c, g.chance(1, 2), true, 1.2); if (!va) m.S = genSPD(g, n); S.push_back(makeSys(m)); g.note("system ", show(m)); } for (int i = 0; i < 2; i++) { int d = genDim(g, 3); std::vector<int> c = {n}; if (g.chance(1, 2)) c.push_back(ns); bool va = i && g.chance(1, 3); Model m = va ? variant(g, Z[0].m) : genModel(g, d, c, g.chance(1, 2), true, 1.2); if (!va) m.S = genSPD(g, d); Z.push_back(makeMeas(m)); g.note("measurement ", show(m)); }
  int si = g.range(0, 1), zi = g.range(0, 1); bool late = g.chance(1, 2); EKFProposalDensity p(late ? NULL : S[si].model.get(), late ? NULL : Z[zi].model.get()); if (late) { if (g.chance(1, 2)) { p.SystemModelSet(S[si].model.get()); p.MeasurementModelSet(Z[zi].model.get()); } else { p.MeasurementModelSet(Z[zi].model.get()); p.SystemModelSet(S[si].model.get()); } }
  Vec x, u, z, s; Mat C; int ops = g.count(1, 8, 25), reads = 0; bool fresh = true; g.note(late ? "models set later" : "models given");
  for (int k = 0; k < ops; k++) {
    if (!fresh && g.chance(1, 6)) { si = 1 - si; p.SystemModelSet(S[si].model.get()); fresh = true; g.note("system model ", si); }
    if (g.chance(1, 6)) { zi = 1 - zi; p.MeasurementModelSet(Z[zi].model.get()); fresh = true; g.note("measurement model ", zi); }
    Sys& sy = S[si]; Meas& me = Z[zi]; bool first = k == 0; unsigned want = 2 + (sy.in() ? 1 : 0) + (me.in() ? 1 : 0); REQUIRE(p.NumConditionalArgumentsGet() == want, "number of arguments ", p.NumConditionalArgumentsGet(), " expected ", want); REQUIRE((int)p.DimensionGet() == n, "dimension ", p.DimensionGet());
    bool cx = first || g.chance(1, 2), cu = first || g.chance(1, 2), cz = first || z.n() != me.m.rows() || g.chance(1, 2), cs = first || g.chance(1, 2), cc = first || g.chance(1, 3); if (cx) x = first ? genVec(g, n) : mutVec(g, x); if (cu) u = genVec(g, nu); if (cz) z = genVec(g, me.m.rows()); if (cs) s = genVec(g, ns); if (cc) { C = genSPD(g, n); if (!first && g.chance(1, 2)) C(n - 1, n - 1) += 1; C = roundD(C); } g.note("changed", cx ? " x" : "", cu ? " u" : "", cz ? " z" : "", cs ? " s" : "", cc ? " covariance" : "");
    int a = 0; if (cx || fresh) p.ConditionalArgumentSet(a, toC(x)); a++; if (sy.in()) { if (cu || fresh) p.ConditionalArgumentSet(a, toC(u)); a++; } if (cz || fresh) p.ConditionalArgumentSet(a, toC(z)); a++; if (me.in()) { if (cs || fresh) p.ConditionalArgumentSet(a, toC(s)); a++; } if (cc) { SM M = toS(C); p.SampleCovSet(M); } fresh = false;
    Bel b; b.m = x; b.P = C; Bel q = predict(b, sy.m, u); Upd U = correct(q, me.m, z, s); if (U.condS > 1e6L || eigs(U.b.P)[0] < 1e-3L || U.nK * U.nH > 1e3L) g.discard(); R sc = 1 + maxabs(x) + maxabs(q.m) + maxabs(z) + maxabs(q.P), tol = 1e-9L * sc * (U.condS < 1e3L ? 1 : 100);
    for (int r = 0, R_ = g.range(1, 2); r < R_; r++) { int w = g.range(0, 3); reads++;
      if (w == 3) { double c = g.pick(std::vector<double>{0, 1, -1, 0.5, -2}); rngctl::use_prng(g.seed()); rngctl::set_normal_const(true, c); rngctl::reset_counts(); Sample<CV> y(n); y.ValueSet(toC(x)); bool ok = p.SampleFrom(y); bool seen = rngctl::normal_calls() > 0; rngctl::set_normal_const(false, 0); REQUIRE(ok, "drawing from the proposal failed"); if (!seen) { g.label("normals not observable"); continue; } Vec d = fromC(y.ValueGet()) - U.b.m; Mat iP = inv(U.b.P); if (c == 0) REQUIRE(maxabs(d) <= tol * 4, "a draw with all normals zero is ", show(fromC(y.ValueGet())), " and the mean ", show(U.b.m)); else { R m2 = dot(d, iP * d), wa = n * (R)c * c, t = 1e-8L + 16 * tol * n * n * maxabs(iP) * (1 + maxabs(d)) * (1 + maxabs(iP) * (1 + maxabs(d)) * maxabs(d)); if (t > 1e-2L) continue; REQUIRE(fabsl(m2 - wa) <= t, "a draw at squared distance ", (double)m2, " expected ", (double)wa); } continue; }
      if (w == 0) same("mean of the proposal", fromC(p.ExpectedValueGet()), U.b.m, tol, 1); else if (w == 1) same("covariance of the proposal", fromS(p.CovarianceGet()), U.b.P, tol, 1);
      else { Vec y = U.b.m + genVec(g, n, 0.5); for (auto& e : y.v) e = (double)e; Mat iP = inv(U.b.P); Vec d = y - U.b.m; R l = logGauss(y, U.b.m, U.b.P); if (l < -300) continue; R got = (double)p.ProbabilityGet(toC(y)), t = 1e-8L + 8 * tol * n * n * maxabs(iP) * (1 + maxabs(d)) * (1 + maxabs(iP) * (1 + maxabs(d))); if (t > 1e-3L) continue; REQUIRE(got > 0 && fabsl(logl(got) - l) <= t, "density of the proposal ", (double)got, " expected ", (double)expl(l), " at ", show(y)); } }
  }
  if (reads > 1) g.mark();
}
static Reg a6b({"P22", "more than one reading of the proposal", p22_prop, false, "proposal", 2});
