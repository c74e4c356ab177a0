// Linear and nonlinear Gaussian models with their reference counterparts.
#pragma once
#include "la.h"
#include "pdf/gaussian.h"
#include "pdf/linearanalyticconditionalgaussian.h"
#include "pdf/analyticconditionalgaussian_additivenoise.h"
#include "model/linearanalyticsystemmodel_gaussianuncertainty.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty.h"
#include "model/analyticsystemmodel_gaussianuncertainty.h"
#include "model/analyticmeasurementmodel_gaussianuncertainty.h"
#include <memory>
using namespace pbt; using namespace BFL;
typedef MW::ColumnVector CV; typedef MW::SymmetricMatrix SM;

inline R gaussDensity(const Vec& x, const Vec& mu, const Mat& S) { Mat v; R d = det_inv(S, &v); Vec e = x - mu; return expl(-0.5L * (x.n() * logl(2 * acosl(-1.0L)) + logl(d) + dot(e, v * e))); }
inline R logGauss(const Vec& x, const Vec& mu, const Mat& S) { Mat v; R d = det_inv(S, &v); Vec e = x - mu; return -0.5L * (x.n() * logl(2 * acosl(-1.0L)) + logl(d) + dot(e, v * e)); }
// positive semidefinite, possibly singular
inline Mat genPSD(Gen& g, int n) { if (g.chance(1, 4)) return Mat(n, n); Mat L(n, n); for (int k = 0; k < n; k++) { if (g.chance(1, 3)) continue; L(k, k) = g.range(1, 4) / 4.0L; for (int i = k + 1; i < n; i++) L(i, k) = g.range(-3, 3) / 4.0L; } return L * T(L); }

// y = sum_i M_i a_i + N(mu,S); nonlinear part c .* sin(W x + V u), covariance scaled by 1 + 0.5 sin^2(x_0 + u_0) when dep
struct Model {
  std::vector<Mat> M; Vec mu; Mat S; bool nl = false, dep = false; Vec c; Mat W, V;
  int rows() const { return mu.n(); }
  Vec f(const std::vector<Vec>& a) const { Vec y = mu; for (size_t i = 0; i < M.size(); i++) y = y + M[i] * a[i]; if (nl) { Vec t = arg(a); for (int i = 0; i < y.n(); i++) y[i] += c[i] * sinl(t[i]); } return y; }
  Vec arg(const std::vector<Vec>& a) const { Vec t = W * a[0]; if (a.size() > 1) t = t + V * a[1]; return t; }
  Mat df(const std::vector<Vec>& a) const { Mat F = M[0]; if (nl) { Vec t = arg(a); for (int i = 0; i < F.r; i++) for (int j = 0; j < F.c; j++) F(i, j) += c[i] * cosl(t[i]) * W(i, j); } return F; }
  Mat cov(const std::vector<Vec>& a) const { if (!dep) return S; R t = a[0][0]; if (a.size() > 1) t += a[1][0]; R s = sinl(t); return (1 + 0.5L * s * s) * S; }
};
inline Model genModel(Gen& g, int rows, std::vector<int> cols, bool nl, bool spd = true, double a = 2) {
  Model m; for (int c : cols) m.M.push_back(genMat(g, rows, c, a)); m.mu = genVec(g, rows); m.S = spd ? genSPD(g, rows, g.chance(1, 5) ? genScale(g) : 1) : genPSD(g, rows); m.nl = nl;
  if (nl) { m.dep = g.chance(1, 3); m.c = genVec(g, rows, 1); m.W = genMat(g, rows, cols[0], 1); m.V = cols.size() > 1 ? genMat(g, rows, cols[1], 1) : Mat(rows, 1); }
  return m;
}
// a model that differs from m in one respect only (or not at all); the predicted covariances of many of them coincide
inline Model variant(Gen& g, const Model& m0) {
  Model m(m0); int a = g.range(0, (int)m.M.size() - 1); Mat& A = m.M[a];
  switch (g.range(0, 7)) {
    case 0: break;
    case 1: for (auto& e : A.a) e = -e; if (m.nl) { for (auto& e : m.c.v) e = -e; } break;
    case 2: m.mu[g.range(0, m.rows() - 1)] = g.real(4); break;
    case 3: A(g.range(0, A.r - 1), g.range(0, A.c - 1)) = g.real(1); break;
    case 4: { int i = g.range(0, A.r - 1); for (int j = 0; j < A.c; j++) A(i, j) = -A(i, j); break; }
    case 5: { int i = g.range(0, A.r - 1), k = g.range(0, A.r - 1); for (int j = 0; j < A.c; j++) std::swap(A(i, j), A(k, j)); break; }
    case 6: { R f = g.range(1, 6) / 4.0L; m.S = f * m.S; break; }
    case 7: if (m.nl) m.c[g.range(0, m.rows() - 1)] = g.real(1); break;
  }
  return m;
}
// values are often repeated, so that code remembering earlier ones shows itself
inline Vec stick(Gen& g, Vec& last, const Vec& fresh) { if (last.n() == fresh.n() && g.chance(1, 3)) return last; last = fresh; return fresh; }
// a user-defined nonlinear conditional pdf
class UserPdf : public AnalyticConditionalGaussianAdditiveNoise {
  Model m_; bool dep_;
  std::vector<Vec> args() const { std::vector<Vec> a; for (unsigned i = 0; i < NumConditionalArgumentsGet(); i++) a.push_back(fromC(ConditionalArgumentGet(i))); return a; }
 public:
  UserPdf(const Model& m) : AnalyticConditionalGaussianAdditiveNoise(Gaussian(toC(m.mu), toS(m.S)), m.M.size()), m_(m), dep_(m.dep) { for (size_t i = 0; i < m.M.size(); i++) ConditionalArgumentSet(i, toC(Vec(m.M[i].c))); m_.mu = Vec(m.rows()); }
  // noise set after construction
  UserPdf(const Model& m, int) : AnalyticConditionalGaussianAdditiveNoise(m.rows(), m.M.size()), m_(m), dep_(m.dep) { REQUIRE((int)AdditiveNoiseMuGet().rows() == m.rows() && (int)AdditiveNoiseSigmaGet().rows() == m.rows() && (int)DimensionGet() == m.rows(), "sizes of a conditional Gaussian created by its dimension"); AdditiveNoiseSigmaSet(toS(m.S)); AdditiveNoiseMuSet(toC(m.mu)); for (size_t i = 0; i < m.M.size(); i++) ConditionalArgumentSet(i, toC(Vec(m.M[i].c))); m_.mu = Vec(m.rows()); }
  virtual UserPdf* Clone() const { return new UserPdf(*this); }
  virtual CV ExpectedValueGet() const { return toC(m_.f(args()) + fromC(AdditiveNoiseMuGet())); }
  virtual MW::Matrix dfGet(unsigned int i) const { return toM(m_.df(args())); }
  virtual SM CovarianceGet() const { if (!dep_) return AnalyticConditionalGaussianAdditiveNoise::CovarianceGet(); Model t(m_); t.S = fromS(AdditiveNoiseSigmaGet()); return toS(t.cov(args())); }
};
inline std::unique_ptr<AnalyticConditionalGaussian> makePdf(const Model& m) {
  std::unique_ptr<AnalyticConditionalGaussian> p; Gaussian n(toC(m.mu), toS(m.S));
  if (m.nl) { p.reset(m.dep ? new UserPdf(m, 0) : new UserPdf(m)); return p; }
  if (m.M.size() == 1) p.reset(new LinearAnalyticConditionalGaussian(toM(m.M[0]), n));
  else { std::vector<MW::Matrix> v; for (auto& x : m.M) v.push_back(toM(x)); p.reset(new LinearAnalyticConditionalGaussian(v, n)); }
  return p;
}
struct Sys { Model m; std::unique_ptr<AnalyticConditionalGaussian> pdf; std::unique_ptr<AnalyticSystemModelGaussianUncertainty> model; bool in() const { return m.M.size() > 1; } };
struct Meas { Model m; std::unique_ptr<AnalyticConditionalGaussian> pdf; std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty> model; bool in() const { return m.M.size() > 1; } };
inline Sys makeSys(const Model& m) { Sys s; s.m = m; s.pdf = makePdf(m); if (m.nl) s.model.reset(new AnalyticSystemModelGaussianUncertainty(s.pdf.get())); else s.model.reset(new LinearAnalyticSystemModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)s.pdf.get())); return s; }
inline Meas makeMeas(const Model& m) { Meas s; s.m = m; s.pdf = makePdf(m); if (m.nl) s.model.reset(new AnalyticMeasurementModelGaussianUncertainty(s.pdf.get())); else s.model.reset(new LinearAnalyticMeasurementModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)s.pdf.get())); return s; }
inline std::string show(const Model& m) { std::string s; for (auto& x : m.M) s += show(x) + " "; s += "noise " + show(m.mu) + " " + show(m.S); if (m.nl) s += " nonlinear c " + show(m.c) + " W " + show(m.W) + " V " + show(m.V) + (m.dep ? " state dependent covariance" : ""); return s; }

// one-step reference for Gaussian belief
struct Bel { Vec m; Mat P; };
inline Bel predict(const Bel& b, const Model& s, const Vec& u) { std::vector<Vec> a = {b.m}; if (s.M.size() > 1) a.push_back(u); Mat F = s.df(a); Bel o; o.m = s.f(a); o.P = symmetrize(F * b.P * T(F) + s.cov(a)); return o; }
struct Upd { Bel b; R condS; R gain; Mat S; Vec innov; R nK, nH, nP, nSi, nZ; // norms for the error bounds
  // first-order rounding error of a textbook double precision update, given the errors em, eP of the belief it starts from
  R covTol(R eP, R eps = 1e-13L) const { R eK = eps * nP * nH * nSi * (condS + nSi * nH * nH * nP), a = 1 + nK * nH; return eK * nH * nP + eps * nP * a + eP * a * a; }
  // effect of an error e of the linearisation point (functions have derivatives of order 1 .. 4)
  R relinGain(R e) const { R d = 4 * e * S.r; return nP * nSi * d * (1 + 2 * nH * nH * nP * nSi) + nK * nSi * d; }
  R relinMean(R e) const { return relinGain(e) * (1 + maxabs(innov)) + nK * (nH + 4) * e; }
  R relinCov(R e) const { return relinGain(e) * nH * nP * 2 + nK * 4 * e * nP; }
  R meanTol(R em, R eP, R eps = 1e-13L) const { R eK = eps * nP * nH * nSi * (condS + nSi * nH * nH * nP), a = 1 + nK * nH; return eK * (maxabs(innov) + 1) + nK * eps * nZ + em * a + eP * a * nH * nSi * maxabs(innov); } };
inline Upd correctWith(const Bel& b, const Vec& z, const Vec& Z, const Mat& H, const Mat& Rn) { Upd u; u.S = symmetrize(H * b.P * T(H) + Rn); Mat iS = inv(u.S); Mat K = b.P * T(H) * iS; u.innov = z - Z; u.b.m = b.m + K * u.innov; Mat J = Mat::I(b.m.n()) - K * H; u.b.P = symmetrize(J * b.P * T(J) + K * Rn * T(K)); u.condS = cond_sym(u.S); for (R x : iS.a) if (!std::isfinite(x)) u.condS = 1e300L; u.gain = maxabs(K) * (1 + maxabs(u.innov)); R d = std::max(b.m.n(), z.n()); u.nK = d * maxabs(K); u.nH = d * maxabs(H) + 1e-30L; u.nP = d * maxabs(b.P); u.nSi = d * maxabs(iS); u.nZ = 1 + maxabs(z) + maxabs(Z) + u.nH * maxabs(b.m); return u; }
inline Upd correct(const Bel& b, const Model& h, const Vec& z, const Vec& s) { std::vector<Vec> a = {b.m}; if (h.M.size() > 1) a.push_back(s); return correctWith(b, z, h.f(a), h.df(a), h.cov(a)); }
inline Bel belOf(const Pdf<CV>& p) { Bel b; b.m = fromC(p.ExpectedValueGet()); b.P = fromS(p.CovarianceGet()); return b; }
inline void sameBel(const char* what, const Bel& got, const Bel& want, R tol, R ms, R ps) { same(str(what, " mean").c_str(), got.m, want.m, tol, ms); same(str(what, " covariance").c_str(), got.P, want.P, tol, ps); }

// the sample drawn by `one` is mu + L z for the standard normals z it consumes, with L L' = S
inline void affineLaw(Gen& g, const std::function<Vec()>& one, const Vec& mu, const Mat& S, R tol = 1e-10L) {
  int n = mu.n(); auto draw = [&](const std::vector<double>& z, long& used) { rngctl::use_prng(1); rngctl::set_normal_const(true, 0); for (double x : z) rngctl::push_normal(x); rngctl::reset_counts(); Vec v = one(); used = rngctl::normal_calls(); REQUIRE(v.n() == n, "sample dimension ", v.n(), " instead of ", n); return v; };
  long used; Vec base = draw({}, used); R sc = 1 + maxabs(mu) + sqrtl(maxabs(S)); if (!used) { if (maxabs(S) > 0) g.label("normals not observable"); rngctl::use_prng(2); return; }
  same("sample for zero noise", base, mu, 1e-11L, sc); Mat J(n, (int)used);
  for (long j = 0; j < used; j++) { std::vector<double> z(j + 1, 0.0); z[j] = 1; long u; Vec x = draw(z, u); for (int r = 0; r < n; r++) J(r, j) = x[r] - base[r]; }
  same("covariance of samples", J * T(J), S, tol, 1e-290L + maxabs(S) + 1e-4L * sc * sqrtl(maxabs(S)));
  std::vector<double> z(used); Vec zz((int)used); for (int i = 0; i < (int)used; i++) zz[i] = z[i] = g.real(3); long u; Vec x = draw(z, u); same("sample is affine in the noise", x, base + J * zz, 1e-9L, sc * 4); rngctl::use_prng(3);
}
