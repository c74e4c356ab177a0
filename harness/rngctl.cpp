#include "pbt.h"
#include <deque>
extern "C" {
double __real__ZN3BFL5runifEv();
double __real__ZN3BFL5runifERKdS1_(const double&, const double&);
double __real__ZN3BFL5rnormERKdS1_(const double&, const double&);
double __wrap__ZN3BFL5runifEv();
double __wrap__ZN3BFL5runifERKdS1_(const double& a, const double& b);
double __wrap__ZN3BFL5rnormERKdS1_(const double& mu, const double& s);
}
namespace {
bool real_ = false; pbt::Prng prng; std::deque<double> uq, nq; int edge = 0; bool nconst = false; double nz = 0; long uc = 0, nc = 0;
const double TWO32 = 4294967296.0;
double uni() {
  uc++;
  if (!uq.empty()) { double u = uq.front(); uq.pop_front(); return u; }
  if (edge && (int)(prng.next() % 1000) < edge) {
    switch (prng.next() % 5) { case 0: return 0.0; case 1: return 1.0 / TWO32; case 2: return (TWO32 - 1) / TWO32; case 3: return 0.0; default: return (TWO32 - 2) / TWO32; }
  }
  return (double)(prng.next() >> 32) / TWO32;
}
double nor() {
  nc++;
  if (!nq.empty()) { double z = nq.front(); nq.pop_front(); return z; }
  if (nconst) return nz;
  double u1 = ((prng.next() >> 11) + 0.5) / 9007199254740992.0, u2 = prng.u01();
  return std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2);
}
}
namespace rngctl {
void use_real() { real_ = true; }
void use_prng(uint64_t s) { real_ = false; prng = pbt::Prng(s * 7919 + 13); uq.clear(); nq.clear(); edge = 0; nconst = false; uc = nc = 0; }
void push_uniform(double u) { uq.push_back(u); }
void push_normal(double z) { nq.push_back(z); }
void edge_rate(int p) { edge = p; }
void set_normal_const(bool on, double z) { nconst = on; nz = z; }
long uniform_calls() { return uc; } long normal_calls() { return nc; }
void reset_counts() { uc = nc = 0; }
}
extern "C" {
double __wrap__ZN3BFL5runifEv() { return real_ ? __real__ZN3BFL5runifEv() : uni(); }
double __wrap__ZN3BFL5runifERKdS1_(const double& a, const double& b) { return real_ ? __real__ZN3BFL5runifERKdS1_(a, b) : a + uni() * (b - a); }
double __wrap__ZN3BFL5rnormERKdS1_(const double& mu, const double& s) { return real_ ? __real__ZN3BFL5rnormERKdS1_(mu, s) : mu + s * nor(); }
}
