// P13: conditional Gaussians and models defined by symbolic functions.
#include "models.h"
#include "pdf/nonlinearanalyticconditionalgaussian_ginac.h"
#include "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h"
#include "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h"
#include "filter/extendedkalmanfilter.h"
typedef NonLinearAnalyticConditionalGaussian_Ginac GP;

// expressions with forward derivatives
struct Node { int op, a, b; double c; };
struct Dual { R v; Vec d; };
struct Expr { std::vector<Node> n; };
static Expr genExpr(Gen& g, int syms) {
  Expr e; int leaves = g.range(1, 4), ops = g.range(0, 5);
  for (int i = 0; i < leaves; i++) { Node q; q.op = syms && !g.chance(1, 5) ? 1 : 0; q.a = syms ? (int)g.raw(syms) : 0; q.b = 0; q.c = q.op ? 0 : g.chance(1, 2) ? g.range(-3, 3) : g.real(2); e.n.push_back(q); }
  for (int i = 0; i < ops; i++) { Node q; q.op = g.range(2, 12); q.a = (int)g.raw(e.n.size()); q.b = (int)g.raw(e.n.size()); q.c = g.real(2); e.n.push_back(q); }
  // the last nodes may not use the leaves: add everything unused with a small factor
  Node s; s.op = 2; int last = (int)e.n.size() - 1; for (int i = 0; i < leaves && i < last; i++) { s.a = (int)e.n.size() - 1; s.b = i; e.n.push_back(s); } return e;
}
static Dual eval(const Expr& e, const Vec& s, R& mx) {
  std::vector<Dual> r; int m = s.n();
  for (auto& q : e.n) {
    Dual d; d.d = Vec(m); const Dual* A = r.size() ? &r[q.a < (int)r.size() ? q.a : 0] : 0; const Dual* B = r.size() ? &r[q.b < (int)r.size() ? q.b : 0] : 0; auto chain = [&](R v, R k) { d.v = v; d.d = k * A->d; };
    switch (q.op) {
      case 0: d.v = q.c; break; case 1: d.v = s[q.a]; d.d[q.a] = 1; break;
      case 2: d.v = A->v + B->v; d.d = A->d + B->d; break; case 3: d.v = A->v - B->v; d.d = A->d - B->d; break; case 4: case 5: d.v = A->v * B->v; d.d = B->v * A->d + A->v * B->d; break;
      case 6: chain(sinl(A->v), cosl(A->v)); break; case 7: chain(cosl(A->v), -sinl(A->v)); break; case 8: { R x = expl(sinl(A->v)); chain(x, x * cosl(A->v)); break; }
      case 9: chain(A->v * A->v * A->v, 3 * A->v * A->v); break; case 10: { R x = sqrtl(1 + A->v * A->v); chain(x, A->v / x); break; } case 11: { R x = 1 / (1 + A->v * A->v); chain(x, -2 * A->v * x * x); break; } case 12: chain((R)q.c * A->v, q.c); break;
    }
    mx = std::max(mx, std::max((R)fabsl(d.v), maxabs(d.d))); r.push_back(d);
  }
  return r.back();
}
static GiNaC::ex build(const Expr& e, const std::vector<GiNaC::symbol>& s) {
  std::vector<GiNaC::ex> r;
  for (auto& q : e.n) { GiNaC::ex A = r.size() ? r[q.a < (int)r.size() ? q.a : 0] : GiNaC::ex(0), B = r.size() ? r[q.b < (int)r.size() ? q.b : 0] : GiNaC::ex(0), x;
    switch (q.op) { case 0: if (q.c == std::floor(q.c)) x = (int)q.c; else x = q.c; break; case 1: x = s[q.a]; break; case 2: x = A + B; break; case 3: x = A - B; break; case 4: case 5: x = A * B; break; case 6: x = sin(A); break; case 7: x = cos(A); break; case 8: x = exp(sin(A)); break; case 9: x = pow(A, 3); break; case 10: x = sqrt(1 + A * A); break; case 11: x = pow(1 + A * A, -1); break; default: x = q.c * A; }
    r.push_back(x); }
  return r.back();
}
struct Fn { int nx, nu; std::vector<Expr> f; std::vector<GiNaC::symbol> x, u, all; GiNaC::matrix sym; std::vector<int> cond; /* indices into all, where the noise enters; empty: on the value */
  int rows() const { return (int)f.size(); } };
struct Lin { Vec f; Mat Fx, D; R mx; };
struct Par { Vec mu; Mat S; };
static Lin lin(const Fn& q, const Vec& x, const Vec& u, const Par& p) {
  Vec s(q.nx + q.nu); for (int i = 0; i < q.nx; i++) s[i] = x[i]; for (int i = 0; i < q.nu; i++) s[q.nx + i] = u[i]; for (size_t k = 0; k < q.cond.size(); k++) s[q.cond[k]] += p.mu[k];
  Lin l; l.mx = 1; l.f = Vec(q.rows()); l.Fx = Mat(q.rows(), q.nx); l.D = Mat(q.rows(), q.cond.size()); for (int i = 0; i < q.rows(); i++) { Dual d = eval(q.f[i], s, l.mx); l.f[i] = d.v + (q.cond.empty() ? p.mu[i] : 0); for (int j = 0; j < q.nx; j++) l.Fx(i, j) = d.d[j]; for (size_t k = 0; k < q.cond.size(); k++) l.D(i, k) = d.d[q.cond[k]]; } return l;
}
static Mat covOf(const Fn& q, const Lin& l, const Par& p) { return q.cond.empty() ? p.S : symmetrize(l.D * p.S * T(l.D)); }
static Fn genFn(Gen& g, int rows, int nx, int nu, bool cond) {
  Fn q; q.nx = nx; q.nu = nu; for (int i = 0; i < nx; i++) q.x.push_back(GiNaC::symbol(str("x", i))); for (int i = 0; i < nu; i++) q.u.push_back(GiNaC::symbol(str("u", i))); q.all = q.x; q.all.insert(q.all.end(), q.u.begin(), q.u.end()); q.sym = GiNaC::matrix(rows, 1); for (int i = 0; i < rows; i++) { q.f.push_back(genExpr(g, nx + nu)); q.sym(i, 0) = build(q.f[i], q.all); }
  if (cond) { std::vector<int> c; for (int i = 0; i < nx + nu; i++) c.push_back(i); int k = g.range(1, std::min(3, nx + nu)); for (int i = 0; i < k; i++) { std::swap(c[i], c[i + (int)g.raw(c.size() - i)]); q.cond.push_back(c[i]); } }
  g.note("function "); if (g.want_desc) { std::ostringstream o; o << q.sym; if (q.cond.size()) { o << " noise on "; for (int k : q.cond) o << q.all[k] << " "; } g.note(o.str()); } return q;
}
static std::unique_ptr<GP> makeGP(const Fn& q, const Par& p) { Gaussian n(toC(p.mu), toS(p.S)); if (q.cond.empty()) return std::unique_ptr<GP>(new GP(q.sym, q.u, q.x, n)); std::vector<GiNaC::symbol> c; for (int k : q.cond) c.push_back(q.all[k]); return std::unique_ptr<GP>(new GP(q.sym, q.u, q.x, n, c)); }
static Par genPar(Gen& g, int n) { Par p; p.mu = g.chance(1, 3) ? Vec(n) : genVec(g, n, 1); p.S = genSPD(g, n); return p; }
static void sameSyms(const char* w, const std::vector<GiNaC::symbol>& a, const std::vector<GiNaC::symbol>& b) { REQUIRE(a.size() == b.size(), w, " symbols: ", a.size()); for (size_t i = 0; i < a.size(); i++) REQUIRE(a[i].is_equal(b[i]), w, " symbol ", i); }
static void scale(Gen& g, const Lin& l) { if (l.mx > 1e5L) g.discard(); }

static void p13_pdf(Gen& g) {
  int nx = g.range(1, 3), nu = g.range(0, 2), rows = g.range(1, 3); bool cond = g.chance(1, 2); Fn q = genFn(g, rows, nx, nu, cond); int nn = cond ? (int)q.cond.size() : rows;
  struct Obj { std::unique_ptr<GP> p; Par a; Vec x, u; }; std::vector<Obj> O(1); O[0].a = genPar(g, nn); O[0].p = makeGP(q, O[0].a); O[0].x = Vec(nx); O[0].u = Vec(nu); auto args = [&](Obj& o) { o.p->ConditionalArgumentSet(0, toC(o.x)); o.p->ConditionalArgumentSet(1, toC(o.u)); }; args(O[0]); int ops = g.range(1, 5), qs = 0; rngctl::use_prng(g.seed());
  for (int k = 0; k < ops; k++) {
    Obj& o = O[g.raw(O.size())]; int op = g.range(0, 5);
    if (op <= 1) { if (g.chance(2, 3)) o.x = mutVec(g, o.x, 2); if (g.chance(2, 3)) o.u = mutVec(g, o.u, 2); args(o); g.note("arguments ", show(o.x), " ", show(o.u)); }
    else if (op == 2) { Par p = genPar(g, nn); if (g.chance(1, 2)) { o.a.mu = p.mu; o.p->AdditiveNoiseMuSet(toC(p.mu)); } else { o.a.S = p.S; o.p->AdditiveNoiseSigmaSet(toS(p.S)); } g.note("noise changed ", show(o.a.mu), " ", show(o.a.S)); }
    else if (op == 3 && O.size() < 3) { Obj c; c.a = o.a; c.x = o.x; c.u = o.u; g.note("copy"); if (g.chance(1, 2)) c.p.reset(new GP(*o.p)); else { Pdf<CV>* b = o.p.get(); Pdf<CV>* cl = b->Clone(); GP* gp = dynamic_cast<GP*>(cl); REQUIRE(gp, "the clone is not a symbolic pdf"); c.p.reset(gp); } O.push_back(std::move(c)); }
    for (auto& w : O) {
      Lin l = lin(q, w.x, w.u, w.a); scale(g, l); Mat C = covOf(q, l, w.a); R sd = l.mx * l.mx * (1 + maxabs(w.a.S)) * 10; qs++; const GP& c = *w.p; REQUIRE((int)c.DimensionGet() == rows, "dimension ", c.DimensionGet(), " instead of ", rows);
      same("mean", fromC(c.ExpectedValueGet()), l.f, 1e-12L, l.mx * 20); same("derivative", fromM(c.dfGet(0)), l.Fx, 1e-11L, l.mx * 20); same("covariance", fromS(c.CovarianceGet()), C, 1e-11L, sd);
    }
    Obj& w = O[g.raw(O.size())]; Lin l = lin(q, w.x, w.u, w.a); Mat C = covOf(q, l, w.a); std::vector<R> ev = eigs(C);
    if (ev[0] > 1e-3L && ev.back() < 1e4L && g.chance(1, 2)) { Vec y = roundD(l.f) + genVec(g, rows, 1); R lg = logGauss(y, l.f, C), got = (double)w.p->ProbabilityGet(toC(y)); if (lg > -200) same("density", got, expl(lg), 1e-7L * (1 + l.mx)); if (l.mx < 1e3L && rows > 0) affineLaw(g, [&] { Sample<CV> s; s.DimensionSet(rows); REQUIRE(w.p->SampleFrom(s), "sampling failed"); return fromC(s.ValueGet()); }, l.f, C, 1e-9L); }
    if (g.chance(1, 3)) { REQUIRE(w.p->FunctionGet().rows() == q.sym.rows(), "function rows"); for (int i = 0; i < rows; i++) REQUIRE(w.p->FunctionGet()(i, 0).is_equal(q.sym(i, 0)), "function ", i, " of the pdf"); sameSyms("input", w.p->InputGet(), q.u); sameSyms("state", w.p->StateGet(), q.x); std::vector<GiNaC::symbol> cs; for (int i : q.cond) cs.push_back(q.all[i]); sameSyms("noise", w.p->ConditionalGet(), cs); }
  }
  if (qs) g.mark(); g.label(cond ? "noise on symbols" : "additive noise"); if (O.size() > 1) g.label("copied");
}
static Reg i1({"P13", "every history with evaluated functions", p13_pdf, false, "pdf", 2});

static void p13_model(Gen& g) {
  int n = g.range(1, 3), nu = g.range(0, 2), nz = g.range(1, 3), ns = g.range(0, 2); bool cs = g.chance(1, 3), cz = g.chance(1, 3); Fn fs = genFn(g, n, n, nu, cs), fz = genFn(g, nz, n, ns, cz); Par ps = genPar(g, cs ? (int)fs.cond.size() : n), pz = genPar(g, cz ? (int)fz.cond.size() : nz);
  std::unique_ptr<GP> gs = makeGP(fs, ps), gz = makeGP(fz, pz); NonLinearAnalyticSystemModelGaussianUncertainty_Ginac S(gs.get()); NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac Z(gz.get()); REQUIRE((int)S.StateSizeGet() == n, "state size ", S.StateSizeGet()); REQUIRE((int)Z.MeasurementSizeGet() == nz, "measurement size ", Z.MeasurementSizeGet());
  if (g.chance(1, 2)) { sameSyms("state", S.StateGet(), fs.x); sameSyms("input", S.InputGet(), fs.u); sameSyms("state", Z.StateGet(), fz.x); sameSyms("input", Z.InputGet(), fz.u); for (int i = 0; i < n; i++) REQUIRE(S.FunctionGet()(i, 0).is_equal(fs.sym(i, 0)), "system function"); for (int i = 0; i < nz; i++) REQUIRE(Z.FunctionGet()(i, 0).is_equal(fz.sym(i, 0)), "measurement function"); std::vector<GiNaC::symbol> c; for (int i : fz.cond) c.push_back(fz.all[i]); sameSyms("noise", Z.ConditionalGet(), c); }
  Bel cur; cur.m = genVec(g, n, 2); cur.P = genSPD(g, n); Gaussian prior(toC(cur.m), toS(cur.P)); ExtendedKalmanFilter f(&prior); int ops = g.range(1, 4); rngctl::use_prng(g.seed()); bool upd = false;
  for (int k = 0; k < ops; k++) {
    int op = g.range(0, 5); Vec u = genVec(g, nu, 2), s = genVec(g, ns, 2), x = genVec(g, n, 2), zv = genVec(g, nz); g.note("op ", op, " x ", show(x), " u ", show(u), " s ", show(s));
    if (op == 0) { Lin l = lin(fs, x, u, ps); scale(g, l); same("prediction", fromC(S.PredictionGet(toC(u), toC(x))), l.f, 1e-12L, l.mx * 20); same("derivative", fromM(S.df_dxGet(toC(u), toC(x))), l.Fx, 1e-11L, l.mx * 20); same("covariance", fromS(S.CovarianceGet(toC(u), toC(x))), covOf(fs, l, ps), 1e-11L, l.mx * l.mx * 10 * (1 + maxabs(ps.S))); }
    else if (op == 1) { Lin l = lin(fz, x, s, pz); scale(g, l); same("predicted measurement", fromC(Z.PredictionGet(toC(s), toC(x))), l.f, 1e-12L, l.mx * 20); same("derivative", fromM(Z.df_dxGet(toC(s), toC(x))), l.Fx, 1e-11L, l.mx * 20); same("covariance", fromS(Z.CovarianceGet(toC(s), toC(x))), covOf(fz, l, pz), 1e-11L, l.mx * l.mx * 10 * (1 + maxabs(pz.S))); }
    else if (op == 2) { bool sy = g.chance(1, 2); const Fn& q = sy ? fs : fz; const Par& p = sy ? ps : pz; Vec v = sy ? u : s; Lin l = lin(q, x, v, p); scale(g, l); Mat C = covOf(q, l, p); std::vector<R> ev = eigs(C); if (ev[0] < 1e-3L || ev.back() > 1e4L || l.mx > 1e3L) continue; Vec y = roundD(l.f) + genVec(g, l.f.n(), 1); R lg = logGauss(y, l.f, C); if (lg > -200) same("probability", (R)(double)(sy ? S.ProbabilityGet(toC(y), toC(x), toC(v)) : Z.ProbabilityGet(toC(y), toC(x), toC(v))), expl(lg), 1e-7L * (1 + l.mx)); affineLaw(g, [&] { return fromC(sy ? S.Simulate(toC(x), toC(v)) : Z.Simulate(toC(x), toC(v))); }, l.f, C, 1e-9L); }
    else if (op == 3) { Lin l = lin(fs, cur.m, u, ps); if (l.mx > 100) g.discard(); f.Update(&S, toC(u)); Bel w; w.m = l.f; w.P = symmetrize(l.Fx * cur.P * T(l.Fx) + covOf(fs, l, ps)); Bel got = belOf(*f.PostGet()); sameBel("EKF prediction", got, w, 1e-10L, l.mx * 20, (1 + maxabs(cur.P) * n * n) * l.mx * l.mx * 20); cur = got; upd = true; }
    else { Lin l = lin(fz, cur.m, s, pz); if (l.mx > 100) g.discard(); Mat C = covOf(fz, l, pz); if (eigs(C)[0] < 1e-3L) continue; Upd up = correctWith(cur, zv, l.f, l.Fx, C); if (up.condS > 1e6L) g.discard(); R em = up.meanTol(1e-13L * l.mx, 0) * 100 + 1e-10L * l.mx * (1 + up.nK), eP = up.covTol(0) * 100 + 1e-10L * (1 + up.nP) * (1 + up.nK) * l.mx; if (em > 1e-5L || eP > 1e-5L) g.discard(); f.Update(&Z, toC(zv), toC(s)); Bel got = belOf(*f.PostGet()); sameBel("EKF posterior", got, up.b, 1, em + 1e-12L * maxabs(up.b.m), eP); cur = got; upd = true; }
  }
  if (upd) g.mark(); g.label(cs || cz ? "noise on symbols" : "additive noise");
}
static Reg i2({"P13", "at least one filter update with symbolic models", p13_model, false, "models", 1});
