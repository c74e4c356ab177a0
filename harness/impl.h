// An implicit measurement model over the reference Model, for the square-root filter.
#pragma once
#include "models.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h"
inline bool chol(const Mat& S, Mat& L) { int n = S.r; L = Mat(n, n); for (int j = 0; j < n; j++) { for (int i = j; i < n; i++) { R t = S(i, j); for (int k = 0; k < j; k++) t -= L(i, k) * L(j, k); if (i == j) { if (!(t > 0)) return false; L(j, j) = sqrtl(t); } else L(i, j) = t / L(j, j); } } return true; }
class Impl : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
 public:
  Model m; int ident; CV x_; MW::Matrix H_, D_, SR_; SM R_; CV f_;
  Impl(const Model& mm, bool id) : LinearAnalyticMeasurementModelGaussianUncertainty_Implicit(), m(mm), ident(id ? 1 : 0), x_(toC(Vec(mm.M[0].c))), H_(toM(mm.M[0])), D_(toM(Mat::I(mm.rows()))), R_(toS(mm.S)), f_(mm.rows()) { Mat s; if (!chol(m.S, s)) s = Mat::I(m.rows()); SR_ = toM(T(s)); } // SR' SR = R
  std::vector<Vec> a() const { return {fromC(x_)}; }
  const CV& fGet() const { return f_; } const int TypeGet() const { return 1; } MW::Matrix& dfGet(int) { return H_; }
  MW::Matrix df_dxGet(const CV& z, const CV& x) { x_ = x; return toM(m.df(a())); }
  MW::Matrix& df_dzGet(const CV&, const CV&) { return D_; } CV PredictionGet(const CV&, const CV& x) { x_ = x; return toC(m.f(a())); }
  CV ExpectedValueGet() { return toC(m.f(a())); } SM& CovarianceGet() { R_ = toS(m.cov(a())); return R_; } SM CovarianceGet(const CV&, const CV& x) { x_ = x; return toS(m.cov(a())); }
  void Calculate(const CV& x, const CV&, const MW::Matrix&) { x_ = x; } const MW::Matrix& SRCovariance() const { return SR_; } const int& Is_Identity() const { return ident; }
};
