// P07 discrete pdf, P08 discrete conditional pdf, P09 discrete samplers, P10 Monte Carlo pdf, P11 mixtures.
#include "la.h"
#include "pdf/discretepdf.h"
#include "pdf/discreteconditionalpdf.h"
#include "pdf/mcpdf.h"
#include "pdf/mixture.h"
#include "pdf/gaussian.h"
#include "pdf/uniform.h"
#include <memory>
using namespace pbt; using namespace BFL;
typedef MW::ColumnVector CV; typedef MW::SymmetricMatrix SM;
typedef std::vector<R> RV;

static double dbl(Probability p) { return (double)p; }
static std::string showv(const RV& v) { std::ostringstream o; o.precision(17); for (R x : v) o << (double)x << " "; return o.str(); }
// raw (unnormalised) weights, possibly with zeros and extreme ratios, at least one positive
static RV genW(Gen& g, int n, bool extreme = true) {
  RV w(n); int style = g.range(0, extreme ? 4 : 2); double near = g.chance(1, 8) ? std::pow(10.0, g.range(-12, -2)) : 0; // near: almost equal weights
  for (int i = 0; i < n; i++) if (near > 0) w[i] = 1 + near * g.range(0, 4); else switch (style) {
    case 0: w[i] = g.range(0, 4); break;
    case 1: w[i] = g.pos(1); break;
    case 2: w[i] = g.chance(1, 3) ? 0 : g.pos(4); break;
    case 3: w[i] = std::pow(10.0, g.range(-18, 0)); break;
    default: w[i] = g.pos(1) * std::pow(10.0, g.range(-150, 100)); }
  R s = 0; for (R x : w) s += x; if (s == 0) w[g.range(0, n - 1)] = 1;
  for (auto& x : w) x = (double)x;
  return w;
}
static RV norm(RV w) { R s = 0; for (R x : w) s += x; for (auto& x : w) x /= s; return w; }
static std::vector<Probability> toP(const RV& w) { std::vector<Probability> v; for (R x : w) v.push_back(Probability((double)x)); return v; }

// ------------------------------------------------ P07
static void checkD(const DiscretePdf& p, RV& m) {
  int n = (int)m.size(); REQUIRE((int)p.NumStatesGet() == n, "number of states ", p.NumStatesGet());
  std::vector<Probability> v = p.ProbabilitiesGet(); REQUIRE((int)v.size() == n, "probability list size"); R s = 0;
  for (int i = 0; i < n; i++) { double x = dbl(p.ProbabilityGet(i)); REQUIRE(x == dbl(v[i]), "ProbabilityGet and ProbabilitiesGet disagree"); REQUIRE(x >= 0 && x <= 1 + 1e-12, "probability ", x, " of state ", i); REQUIRE(fabsl(x - m[i]) <= 1e-295L + 1e-9L * std::min(m[i], (R)x), "state ", i, ": ", x, " expected ", (double)m[i], " in ", showv(m)); s += x; }
  REQUIRE(fabsl(s - 1) < 1e-9L, "probabilities sum to ", (double)s);
  int b = const_cast<DiscretePdf&>(p).MostProbableStateGet(); REQUIRE(b >= 0 && b < n, "most probable state ", b); for (int i = 0; i < n; i++) REQUIRE(dbl(v[b]) >= dbl(v[i]), "most probable state ", b, " is not maximal: ", showv(m));
  for (int i = 0; i < n; i++) m[i] = dbl(v[i]);
}
static void p07(Gen& g) {
  std::vector<std::unique_ptr<DiscretePdf>> P; std::vector<RV> M; int ops = g.count(1, 14, 60), sets = 0; bool cp = false;
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? 0 : g.range(0, 9), i = P.empty() ? 0 : g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    switch (op) {
      case 0: { int n = g.count(1, 8, 60); P.emplace_back(new DiscretePdf(n)); M.push_back(RV(n, 1.0L / n)); g.note("states ", n); break; }
      case 1: case 2: { RV w = genW(g, M[i].size()); g.note("set all ", showv(w)); auto v = toP(w); REQUIRE(P[i]->ProbabilitiesSet(v), "setting valid probabilities failed"); M[i] = norm(w); sets++; break; }
      case 3: case 4: case 5: { int n = M[i].size(), s = g.range(0, n - 1); double a = n == 1 ? 1.0 : (g.chance(1, 5) ? 1.0 : g.chance(1, 5) ? 0.0 : g.chance(1, 4) ? 1 - std::pow(10.0, g.range(-16, -1)) : g.u01());
        g.note("set state ", s, " to ", a); RV w(n); R o = 0; for (int q = 0; q < n; q++) if (q != s) o += M[i][q];
        for (int q = 0; q < n; q++) w[q] = q == s ? (R)a : o > 0 ? M[i][q] / o * (1 - (R)a) : (1 - (R)a) / (n - 1);
        REQUIRE(P[i]->ProbabilitySet(s, a), "setting a probability failed"); REQUIRE(dbl(P[i]->ProbabilityGet(s)) == a, "probability of state ", s, " is ", dbl(P[i]->ProbabilityGet(s)), " after setting it to ", a); M[i] = w; sets++; break; }
      case 6: P.emplace_back(new DiscretePdf(*P[i])); M.push_back(M[i]); cp = true; break;
      case 7: P.emplace_back(P[i]->Clone()); M.push_back(M[i]); cp = true; break;
      case 8: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; cp = true; break; }
      case 9: { Sample<int> s; P[i]->SampleFrom(s); REQUIRE(s.ValueGet() >= 0 && s.ValueGet() < (int)M[i].size(), "sampled state ", s.ValueGet()); break; }
    }
    for (size_t q = 0; q < P.size(); q++) checkD(*P[q], M[q]);
    if (P.size() > 4) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  if (sets > 1) g.mark(); g.label(cp ? "copies" : "no copies");
}
static Reg b1({"P07", "a history with at least two probability changes", p07, false, "history", 8});
static void p07_zero(Gen& g) { int n = g.count(1, 6, 40); DiscretePdf p(n); std::vector<Probability> z(n, Probability(0.0)); g.mark(); g.note("all-zero probabilities n=", n); REQUIRE(!p.ProbabilitiesSet(z), "all-zero probabilities accepted"); RV w = genW(g, n); auto v = toP(w); REQUIRE(p.ProbabilitiesSet(v), "valid probabilities rejected"); RV m = norm(w); checkD(p, m); }
static Reg b2({"P07", "every rejected all-zero list", p07_zero, false, "zero", 1});

// ------------------------------------------------ P08
static void p08(Gen& g) {
  int n = g.count(1, 5, 15), A = g.count(0, 3, 5); std::vector<int> dims(A + 1); int tot = n; for (int a = 0; a < A; a++) { dims[a] = tot < 400 ? g.count(1, 4, 12) : g.range(1, 2); tot *= dims[a]; }
  typedef DiscreteConditionalPdf D; std::vector<std::unique_ptr<D>> P; std::vector<std::map<std::vector<int>, double>> M; std::vector<std::vector<int>> args;
  P.emplace_back(new D(n, A, dims.data())); M.push_back({}); args.push_back(std::vector<int>(A, 0)); g.note("states ", n, " args ", A, " table ", tot);
  auto cell = [&](int lin) { std::vector<int> c(A + 1); c[A] = lin % n; lin /= n; for (int a = 0; a < A; a++) { c[a] = lin % dims[a]; lin /= dims[a]; } return c; };
  auto set = [&](int i, std::vector<int> c, double v) { std::vector<int> ca(c.begin(), c.begin() + A); P[i]->ProbabilitySet(v, c[A], ca); M[i][c] = v; };
  int start = g.range(0, tot - 1), step = 1; for (int q = 0; q < tot; q++) set(0, cell((start + q * step) % tot), g.pos(1));
  int ops = g.count(1, 12, 40); bool over = false, cp = false;
  for (int k = 0; k < ops; k++) {
    int op = g.range(0, 8), i = g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    switch (op) {
      case 8: { int n2 = g.range(1, 4), A2 = g.range(0, 3); int d2[4]; for (int a = 0; a < A2; a++) d2[a] = g.range(1, 4); std::unique_ptr<D> o(new D(n2, A2, d2)); std::vector<int> z(A2, 0); for (int q = 0; q < n2; q++) o->ProbabilitySet(g.u01(), q, z); g.note("assigned to a table with ", n2, " states and ", A2, " arguments"); *o = *P[i]; P.push_back(std::move(o)); M.push_back(M[i]); args.push_back(args[i]); cp = true; break; }
      case 0: case 1: set(i, cell(g.range(0, tot - 1)), g.chance(1, 4) ? 0.0 : g.pos(1)); over = true; break;
      case 2: if (A) { int a = g.range(0, A - 1), v = g.range(0, dims[a] - 1); P[i]->ConditionalArgumentSet(a, v); args[i][a] = v; } break;
      case 3: { std::vector<int> ca(A); for (int a = 0; a < A; a++) ca[a] = g.range(0, dims[a] - 1); P[i]->ConditionalArgumentsSet(ca); args[i] = ca; break; }
      case 4: P.emplace_back(new D(*P[i])); M.push_back(M[i]); args.push_back(args[i]); cp = true; break;
      case 5: P.emplace_back(P[i]->Clone()); M.push_back(M[i]); args.push_back(args[i]); cp = true; break;
      case 6: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; args[i] = args[j]; cp = true; break; }
      case 7: { // whole table through the conditional arguments
        std::vector<int> keep = args[i]; for (int q = 0; q < tot; q++) { auto c = cell(q); std::vector<int> ca(c.begin(), c.begin() + A); P[i]->ConditionalArgumentsSet(ca); double x = dbl(P[i]->ProbabilityGet(c[A])); REQUIRE(x == M[i][c], "table cell ", q, ": ", x, " expected ", M[i][c]); } P[i]->ConditionalArgumentsSet(keep); break; }
    }
    for (size_t q = 0; q < P.size(); q++) {
      REQUIRE((int)P[q]->NumStatesGet() == n && (int)P[q]->NumConditionalArgumentsGet() == A, "sizes");
      for (int a = 0; a < A; a++) REQUIRE(P[q]->ConditionalArgumentGet(a) == args[q][a], "conditional argument ", a);
      for (int s = 0; s < n; s++) { std::vector<int> c(args[q]); c.push_back(s); double x = dbl(P[q]->ProbabilityGet(s)); REQUIRE(x == M[q][c], "object ", q, " P(", s, "|args) = ", x, " expected ", M[q][c]); }
    }
    if (P.size() > 4) { P.erase(P.begin()); M.erase(M.begin()); args.erase(args.begin()); }
  }
  if (A > 1 && n > 1) g.mark(); if (A == 1 && over) g.mark(); g.label(str("args ", A)); if (cp) g.label("copies");
}
static Reg b3({"P08", "two or more conditioning variables with more than one state, or one with overwritten cells", p08, false, "table", 1});

// ------------------------------------------------ P09 : samplers
static const double U_MAX = 4294967295.0 / 4294967296.0;
// draw one sample as a category index
struct Sampler { std::string name; RV p; std::function<int()> one; std::function<std::vector<int>(int, bool)> many; bool ripley; };
// many short lists: every value as often as its probability says, and lists of one value only as often as for independent draws
static void shortLists(Gen& g, const Sampler& s, bool r) {
  int n = s.p.size(), N = g.pick(std::vector<int>{1, 2, 3, 5}), K = 400; rngctl::use_prng(g.seed()); std::vector<int> ct(n, 0), all(n, 0);
  for (int k = 0; k < K; k++) { std::vector<int> v = s.many(N, r); REQUIRE((int)v.size() == N, s.name, ": ", v.size(), " samples instead of ", N); std::vector<int> h(n, 0); for (int i : v) { REQUIRE(i >= 0 && i < n, s.name, ": drew index ", i); ct[i]++; if (++h[i] == N) all[i]++; } }
  for (int i = 0; i < n; i++) { R p = s.p[i], q = powl(p, N); REQUIRE(fabsl(ct[i] - K * N * p) <= 7 * sqrtl(K * N * p * (1 - p)) + 4, s.name, r ? " ordered" : "", " lists of ", N, ": value ", i, " drawn ", ct[i], " of ", K * N, " probability ", (double)p); REQUIRE(fabsl(all[i] - K * q) <= 7 * sqrtl(K * q * (1 - q)) + 5, s.name, r ? " ordered" : "", " lists of ", N, ": only value ", i, " in ", all[i], " of ", K, " lists, expected ", (double)(K * q)); }
  g.label("short lists");
}
static void checkSampler(Gen& g, const Sampler& s) {
  int n = s.p.size(); g.note(s.name, " p = ", showv(s.p)); g.label(s.name);
  int pos = 0; for (R x : s.p) if (x > 0) pos++; if (pos > 1) g.mark();
  auto support = [&](int i, const char* how) { REQUIRE(i >= 0 && i < n, s.name, " ", how, ": drew index ", i, " of ", n); REQUIRE(s.p[i] > 0, s.name, " ", how, ": drew value ", i, " which has probability zero; p = ", showv(s.p)); };
  // extreme and boundary uniforms
  std::vector<double> us = {0.0, 1.0 / 4294967296.0, U_MAX}; R c = 0; for (R x : s.p) { c += x; double k = floor((double)c * 4294967296.0); for (int d = -1; d <= 1; d++) if (k + d >= 0 && k + d < 4294967296.0) us.push_back((k + d) / 4294967296.0); }
  for (double u : us) { rngctl::use_prng(1); rngctl::push_uniform(u); int i = s.one(); support(i, "single draw"); }
  // stratified uniforms: frequencies follow the probabilities
  int M = 40 + g.range(0, 160); std::vector<int> cnt(n, 0); double off = g.u01(); long calls = 0; for (int k = 0; k < M; k++) { rngctl::use_prng(k); rngctl::push_uniform(floor((k + off) / M * 4294967296.0) / 4294967296.0); rngctl::reset_counts(); int i = s.one(); support(i, "single draw"); cnt[i]++; calls = std::max(calls, rngctl::uniform_calls()); }
  if (calls >= 1) for (int i = 0; i < n; i++) REQUIRE(fabsl(cnt[i] - M * s.p[i]) <= 2.01L, s.name, ": value ", i, " drawn ", cnt[i], " times for ", M, " equally spaced uniforms, probability ", (double)s.p[i]);
  // lists
  for (int r = 0; r <= (s.ripley ? 1 : 0); r++) {
    int N = g.chance(1, 6) ? g.range(0, 2) : g.range(1, 40); rngctl::use_prng(g.seed()); rngctl::edge_rate(g.chance(1, 2) ? 300 : 0); std::vector<int> v = s.many(N, r); REQUIRE((int)v.size() == N, s.name, ": ", v.size(), " samples instead of ", N); for (int i : v) support(i, r ? "ordered list draw" : "list draw");
    rngctl::use_prng(1); for (int q = 0; q < N; q++) rngctl::push_uniform(g.chance(1, 2) ? 0.0 : U_MAX); v = s.many(N, r); for (int i : v) support(i, r ? "ordered list draw" : "list draw");
    rngctl::use_prng(1); for (int q = 0; q < N; q++) rngctl::push_uniform(U_MAX); v = s.many(N, r); for (int i : v) support(i, r ? "ordered list draw" : "list draw");
    if (g.chance(1, 10)) shortLists(g, s, r);
    if (g.chance(1, 8)) { int B = 2000; rngctl::use_prng(g.seed()); v = s.many(B, r); std::vector<int> ct(n, 0); for (int i : v) { support(i, "list draw"); ct[i]++; } for (int i = 0; i < n; i++) REQUIRE(fabsl(ct[i] - B * s.p[i]) <= 7 * sqrtl(B * s.p[i] * (1 - s.p[i])) + 3, s.name, r ? " ordered" : "", " list: value ", i, " drawn ", ct[i], " of ", B, " probability ", (double)s.p[i]); g.label("frequencies"); }
  }
}
static RV genP(Gen& g, int n) { RV w(n); int st = g.range(0, 3); for (int i = 0; i < n; i++) w[i] = st == 0 ? (R)g.range(0, 3) : st == 1 ? (R)g.pos(1) : st == 2 ? (g.chance(1, 2) ? 0 : (R)g.pos(4)) : (R)std::pow(10.0, g.range(-6, 0)); if (g.chance(1, 4)) w[0] = 0; if (g.chance(1, 4)) w[n - 1] = 0; R s = 0; for (R x : w) s += x; if (s == 0) w[g.range(0, n - 1)] = 1; return w; }
static void p09(Gen& g) {
  int kind = g.range(0, 3), n = g.count(1, 8, 60); RV w = genP(g, n), p = norm(w); Sampler s; s.p = p; s.ripley = true;
  std::unique_ptr<DiscretePdf> d; std::unique_ptr<DiscreteConditionalPdf> c; std::unique_ptr<MCPdf<CV>> m; std::unique_ptr<Mixture<CV>> x;
  if (kind == 0) {
    s.name = "discrete pdf"; d.reset(new DiscretePdf(n)); auto v = toP(w); d->ProbabilitiesSet(v); if (g.chance(1, 3)) d.reset(new DiscretePdf(*d));
    if (n > 1 && g.chance(1, 3)) { int k = g.range(0, n - 1); double a = g.u01(); d->ProbabilitySet(k, a); auto pv = d->ProbabilitiesGet(); for (int i = 0; i < n; i++) s.p[i] = dbl(pv[i]); }
    s.one = [&] { Sample<int> o; REQUIRE(d->SampleFrom(o), "sampling failed"); return o.ValueGet(); };
    s.many = [&](int N, bool r) { std::vector<Sample<int>> l; REQUIRE(d->SampleFrom(l, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); std::vector<int> o; for (auto& q : l) o.push_back(q.ValueGet()); return o; };
    checkSampler(g, s);
  } else if (kind == 1) {
    s.name = "discrete conditional pdf"; int dm[2] = {g.range(1, 3), g.range(1, 3)}; c.reset(new DiscreteConditionalPdf(n, 2, dm)); int ca = g.range(0, dm[0] - 1), cb = g.range(0, dm[1] - 1); bool unn = g.chance(1, 2);
    for (int a = 0; a < dm[0]; a++) for (int b = 0; b < dm[1]; b++) { bool cur = a == ca && b == cb; for (int i = 0; i < n; i++) c->ProbabilitySet(cur ? (double)(unn ? w[i] : p[i]) : g.u01(), i, {a, b}); }
    c->ConditionalArgumentSet(0, ca); c->ConditionalArgumentSet(1, cb); s.ripley = false;
    s.one = [&] { Sample<int> o; REQUIRE(c->SampleFrom(o, SampleMthd::DEFAULT, NULL), "sampling failed"); return o.ValueGet(); };
    s.many = [&](int N, bool) { std::vector<Sample<int>> l; REQUIRE(c->SampleFrom(l, N, SampleMthd::DEFAULT, NULL), "sampling failed"); std::vector<int> o; for (auto& q : l) o.push_back(q.ValueGet()); return o; };
    checkSampler(g, s);
  } else if (kind == 2) {
    s.name = "sample based pdf"; m.reset(new MCPdf<CV>(n, 2)); std::vector<WeightedSample<CV>> l(n, WeightedSample<CV>(2)); for (int i = 0; i < n; i++) { CV v(2); v(1) = i; v(2) = -i; l[i].ValueSet(v); l[i].WeightSet((double)w[i]); } m->ListOfSamplesSet(l); if (g.chance(1, 3)) { m.reset(m->Clone()); }
    auto id = [n](const Sample<CV>& q) { CV v = q.ValueGet(); REQUIRE(v.rows() == 2 && v(1) == -v(2), "drawn sample is not one of the list"); return (int)v(1); };
    s.one = [&] { Sample<CV> o; REQUIRE(m->SampleFrom(o), "sampling failed"); return id(o); };
    s.many = [&](int N, bool r) { std::vector<Sample<CV>> l2; REQUIRE(m->SampleFrom(l2, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); std::vector<int> o; for (auto& q : l2) o.push_back(id(q)); return o; };
    checkSampler(g, s);
  } else {
    s.name = "mixture"; x.reset(new Mixture<CV>(1u)); for (int i = 0; i < n; i++) { CV ce(1), wi(1); ce(1) = 10 * i; wi(1) = 1; Uniform u(ce, wi); x->AddComponent(u); } auto v = toP(w); x->WeightsSet(v); if (g.chance(1, 3)) x.reset(x->Clone());
    auto id = [](const Sample<CV>& q) { CV v = q.ValueGet(); REQUIRE(v.rows() == 1, "sample dimension ", v.rows()); double t = v(1) / 10; int i = (int)floor(t + 0.5); REQUIRE(fabs(t - i) <= 0.0501, "mixture sample ", v(1), " comes from no component"); return i; };
    s.one = [&] { Sample<CV> o; REQUIRE(x->SampleFrom(o), "sampling failed"); return id(o); };
    s.many = [&](int N, bool r) { std::vector<Sample<CV>> l2; REQUIRE(x->SampleFrom(l2, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); std::vector<int> o; for (auto& q : l2) o.push_back(id(q)); return o; };
    checkSampler(g, s);
  }
}
// the same over histories: every sampler follows the probabilities its object reports at that moment
static void lightSampler(Gen& g, const Sampler& s) {
  int n = s.p.size(); g.label(s.name + " in history"); auto support = [&](int i, const char* how) { REQUIRE(i >= 0 && i < n, s.name, " ", how, ": drew index ", i, " of ", n); REQUIRE(s.p[i] > 0, s.name, " ", how, ": drew value ", i, " which has probability zero; p = ", showv(s.p)); };
  int M = 8 + g.range(0, 24); std::vector<int> cnt(n, 0); double off = g.u01(); long calls = 0; for (int k = 0; k < M; k++) { rngctl::use_prng(k); rngctl::push_uniform(floor((k + off) / M * 4294967296.0) / 4294967296.0); rngctl::reset_counts(); int i = s.one(); support(i, "single draw"); cnt[i]++; calls = std::max(calls, rngctl::uniform_calls()); }
  if (calls >= 1) for (int i = 0; i < n; i++) REQUIRE(fabsl(cnt[i] - M * s.p[i]) <= 2.01L, s.name, ": value ", i, " drawn ", cnt[i], " times for ", M, " equally spaced uniforms, probabilities ", showv(s.p));
  for (int r = 0; r <= (s.ripley ? 1 : 0); r++) { int N = g.range(0, 12); rngctl::use_prng(g.seed()); rngctl::edge_rate(g.chance(1, 2) ? 300 : 0); std::vector<int> v = s.many(N, r); REQUIRE((int)v.size() == N, s.name, ": ", v.size(), " samples instead of ", N); for (int i : v) support(i, r ? "ordered list draw" : "list draw");
    if (g.chance(1, 40)) shortLists(g, s, r);
    if (g.chance(1, 12)) { int B = 1000; rngctl::use_prng(g.seed()); v = s.many(B, r); std::vector<int> ct(n, 0); for (int i : v) { support(i, "list draw"); ct[i]++; } for (int i = 0; i < n; i++) REQUIRE(fabsl(ct[i] - B * s.p[i]) <= 7 * sqrtl(B * s.p[i] * (1 - s.p[i])) + 3, s.name, r ? " ordered" : "", " list: value ", i, " drawn ", ct[i], " of ", B, " probability ", (double)s.p[i]); } }
}
static RV mutW(Gen& g, const RV& o) { RV w(o); int n = o.size(); switch (g.raw(6)) { case 0: case 1: return genP(g, n); case 2: std::reverse(w.begin(), w.end()); break; case 3: w[g.range(0, n - 1)] = 0; break; case 4: std::swap(w[g.range(0, n - 1)], w[g.range(0, n - 1)]); break; default: break; } R s = 0; for (R x : w) s += x; if (s == 0) w[g.range(0, n - 1)] = 1; return w; }
// values of a sample based pdf identified by a whole number
template <class T> struct Val { static T mk(int i) { return (T)i + (T)0.25; } static int id(const T& v) { int i = (int)floor((double)v); REQUIRE(v == mk(i), "a value that is in no list: ", v); return i; } static const char* name() { return std::is_same<T, double>::value ? "doubles" : std::is_same<T, int>::value ? "ints" : "unsigned ints"; } };
template <> struct Val<CV> { static CV mk(int i) { CV v(1); v(1) = i; return v; } static int id(const CV& v) { REQUIRE(v.rows() == 1, "dimension"); return (int)v(1); } static const char* name() { return "vectors"; } };
template <class T> static void histMC(Gen& g, Sampler& s, int n, int ops, int& changes) {
  s.name = std::string("sample based pdf of ") + Val<T>::name(); std::vector<std::unique_ptr<MCPdf<T>>> P; P.emplace_back(new MCPdf<T>(g.range(0, 3), 1)); int tag = 0; std::vector<int> tags(1, 0);
  auto list = [&](int m, bool w) { RV ww = genP(g, m); std::vector<WeightedSample<T>> l(m, WeightedSample<T>(1)); tag += 1000; for (int q = 0; q < m; q++) { l[q].ValueSet(Val<T>::mk(tag + q)); l[q].WeightSet(w ? (double)ww[q] : 1.0); } g.note("list of ", m, " weights ", showv(ww)); return l; };
  auto plain = [](const std::vector<WeightedSample<T>>& l) { std::vector<Sample<T>> o; for (auto& q : l) { Sample<T> x(1); x.ValueSet(q.ValueGet()); o.push_back(x); } return o; };
  P[0]->ListOfSamplesSet(list(n, true)); tags[0] = tag;
  for (int k = 0; k < ops; k++) {
    int i = g.range(0, (int)P.size() - 1), op = g.range(0, 6); MCPdf<T>& m = *P[i]; g.note("op ", op, " on ", i); changes++; int nn = g.range(1, 8);
    if (op == 0) { m.ListOfSamplesSet(list(nn, true)); tags[i] = tag; } else if (op == 1) { m.ListOfSamplesSet(plain(list(nn, false))); tags[i] = tag; } else if (op == 2) { m.ListOfSamplesUpdate(list(m.NumSamplesGet(), true)); tags[i] = tag; } else if (op == 3) { m.ListOfSamplesUpdate(plain(list(m.NumSamplesGet(), false))); tags[i] = tag; }
    else if (op == 4) { m.NumSamplesSet(nn); m.ListOfSamplesUpdate(list(nn, true)); tags[i] = tag; } else if (op == 5) { if (P.size() < 3) { P.emplace_back(g.chance(1, 2) ? new MCPdf<T>(m) : m.Clone()); tags.push_back(tags[i]); } } else { int j = g.range(0, (int)P.size() - 1); m = *P[j]; tags[i] = tags[j]; }
    int ti = g.range(0, (int)P.size() - 1); MCPdf<T>& t = *P[ti]; int N0 = t.NumSamplesGet(), tg = tags[ti]; s.p = RV(N0); for (int q = 0; q < N0; q++) { s.p[q] = t.SampleGet(q).WeightGet(); REQUIRE(Val<T>::id(t.SampleGet(q).ValueGet()) == tg + q, "sample ", q, " is ", Val<T>::id(t.SampleGet(q).ValueGet()), " instead of ", tg + q); }
    auto id = [=](const Sample<T>& q) { return Val<T>::id(q.ValueGet()) - tg; };
    s.one = [&] { Sample<T> o; REQUIRE(t.SampleFrom(o), "sampling failed"); return id(o); };
    s.many = [&](int N, bool r) { std::vector<Sample<T>> l2; REQUIRE(t.SampleFrom(l2, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); std::vector<int> o; for (auto& q : l2) o.push_back(id(q)); return o; };
    lightSampler(g, s);
  }
}
static void p09_hist(Gen& g) {
  int kind = g.range(0, 3), n = g.chance(1, 20) ? g.range(8, 30) : g.range(1, 6), ops = g.range(2, 8), changes = 0; Sampler s; s.ripley = true;
  auto ids = [](const std::vector<Sample<CV>>& l, std::function<int(const Sample<CV>&)> id) { std::vector<int> o; for (auto& q : l) o.push_back(id(q)); return o; };
  if (kind == 0) {
    s.name = "discrete pdf"; std::vector<std::unique_ptr<DiscretePdf>> P; P.emplace_back(new DiscretePdf(n)); RV w(n, 1);
    for (int k = 0; k < ops; k++) {
      int i = g.range(0, (int)P.size() - 1), op = g.range(0, 6); DiscretePdf& d = *P[i]; g.note("op ", op, " on ", i);
      if (op <= 1) { w = mutW(g, w); g.note("set all ", showv(w)); auto v = toP(w); REQUIRE(d.ProbabilitiesSet(v), "set failed"); changes++; }
      else if (op <= 4) { int st = g.range(0, n - 1); double a = n == 1 ? 1.0 : g.chance(1, 3) ? 0.0 : g.chance(1, 4) ? 1.0 : g.chance(1, 4) ? dbl(d.ProbabilityGet(st)) : g.u01(); if (a > 1) a = 1; g.note("set ", st, " to ", a); REQUIRE(d.ProbabilitySet(st, a), "set failed"); changes++; }
      else if (op == 5) { if (P.size() < 3) P.emplace_back(g.chance(1, 2) ? new DiscretePdf(d) : d.Clone()); } else { int j = g.range(0, (int)P.size() - 1); d = *P[j]; }
      DiscretePdf& t = *P[g.range(0, (int)P.size() - 1)]; s.p = RV(n); for (int q = 0; q < n; q++) s.p[q] = dbl(t.ProbabilityGet(q));
      s.one = [&] { Sample<int> o; REQUIRE(t.SampleFrom(o), "sampling failed"); return o.ValueGet(); };
      s.many = [&](int N, bool r) { std::vector<Sample<int>> l; REQUIRE(t.SampleFrom(l, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); std::vector<int> o; for (auto& q : l) o.push_back(q.ValueGet()); return o; };
      lightSampler(g, s);
    }
  } else if (kind == 1) {
    s.name = "discrete conditional pdf"; s.ripley = false; n = std::min(n, 6); int dm[2] = {g.range(1, 3), g.range(1, 3)}; std::vector<std::unique_ptr<DiscreteConditionalPdf>> P; P.emplace_back(new DiscreteConditionalPdf(n, 2, dm));
    auto row = [&](DiscreteConditionalPdf& c, int a, int b) { RV w = norm(genP(g, n)); g.note("row ", a, " ", b, ": ", showv(w)); int o = g.range(0, n - 1); for (int q = 0; q < n; q++) c.ProbabilitySet((double)w[(q + o) % n], (q + o) % n, {a, b}); };
    for (int a = 0; a < dm[0]; a++) for (int b = 0; b < dm[1]; b++) row(*P[0], a, b); P[0]->ConditionalArgumentSet(0, 0); P[0]->ConditionalArgumentSet(1, 0);
    for (int k = 0; k < ops; k++) {
      int i = g.range(0, (int)P.size() - 1), op = g.range(0, 5); DiscreteConditionalPdf& c = *P[i]; g.note("op ", op, " on ", i); changes++;
      if (op == 0) row(c, g.range(0, dm[0] - 1), g.range(0, dm[1] - 1)); else if (op == 1) row(c, c.ConditionalArgumentGet(0), c.ConditionalArgumentGet(1)); else if (op == 2) c.ConditionalArgumentSet(0, g.range(0, dm[0] - 1)); else if (op == 3) c.ConditionalArgumentSet(1, g.range(0, dm[1] - 1)); else if (op == 4) { if (P.size() < 3) P.emplace_back(g.chance(1, 2) ? new DiscreteConditionalPdf(c) : c.Clone()); } else { int j = g.range(0, (int)P.size() - 1); c = *P[j]; }
      DiscreteConditionalPdf& t = *P[g.range(0, (int)P.size() - 1)]; s.p = RV(n); for (int q = 0; q < n; q++) s.p[q] = dbl(t.ProbabilityGet(q));
      s.one = [&] { Sample<int> o; REQUIRE(t.SampleFrom(o, SampleMthd::DEFAULT, NULL), "sampling failed"); return o.ValueGet(); };
      s.many = [&](int N, bool) { std::vector<Sample<int>> l; REQUIRE(t.SampleFrom(l, N, SampleMthd::DEFAULT, NULL), "sampling failed"); std::vector<int> o; for (auto& q : l) o.push_back(q.ValueGet()); return o; };
      lightSampler(g, s);
    }
  } else if (kind == 2) {
    switch (g.raw(6)) { case 0: histMC<int>(g, s, n, ops, changes); break; case 1: histMC<double>(g, s, n, ops, changes); break; case 2: histMC<unsigned int>(g, s, n, ops, changes); break; default: histMC<CV>(g, s, n, ops, changes); }
  } else {
    s.name = "mixture"; std::vector<std::unique_ptr<Mixture<CV>>> P; P.emplace_back(new Mixture<CV>(1u)); int cnt = 0; auto add = [&](Mixture<CV>& x, bool wgt) { CV ce(1), wi(1); ce(1) = 10 * cnt++; wi(1) = 1; Uniform u(ce, wi); if (wgt) { double w = g.chance(1, 5) ? 1.0 : g.u01(); x.AddComponent(u, Probability(w)); } else x.AddComponent(u); };
    for (int i = 0; i < std::min(n, 6); i++) add(*P[0], true);
    for (int k = 0; k < ops; k++) {
      int i = g.range(0, (int)P.size() - 1), op = g.range(0, 7); Mixture<CV>& x = *P[i]; int c = x.NumComponentsGet(); g.note("op ", op, " on ", i); changes++;
      if (op == 0) add(x, true); else if (op == 1) add(x, false); else if (op == 2) { int d = g.range(0, c - 1); R rest = 0; for (int q = 0; q < c; q++) if (q != d) rest += dbl(x.WeightGet(q)); if (c > 1 && rest > 1e-6L) x.DeleteComponent(d); } else if (op <= 4) { int q = g.range(0, c - 1); double a = c == 1 ? 1.0 : g.chance(1, 3) ? 0.0 : g.chance(1, 4) ? 1.0 : g.u01(); g.note("weight ", q, " ", a); x.WeightSet(q, a); } else if (op == 5) { RV w = genP(g, c); g.note("weights ", showv(w)); auto v = toP(w); x.WeightsSet(v); } else if (op == 6) { if (P.size() < 3) P.emplace_back(g.chance(1, 2) ? new Mixture<CV>(x) : x.Clone()); } else { int j = g.range(0, (int)P.size() - 1); x = *P[j]; }
      Mixture<CV>& t = *P[g.range(0, (int)P.size() - 1)]; int C = t.NumComponentsGet(); s.p = RV(C); std::vector<double> ce(C); for (int q = 0; q < C; q++) { s.p[q] = dbl(t.WeightGet(q)); ce[q] = dynamic_cast<Uniform*>(t.ComponentGet(q))->CenterGet()(1); }
      auto id = [&](const Sample<CV>& q) { CV v = q.ValueGet(); REQUIRE(v.rows() == 1, "dimension"); for (int z = 0; z < C; z++) if (fabs(v(1) - ce[z]) <= 0.5001) return z; pbt::fail(str("mixture sample ", v(1), " comes from no component")); return -1; };
      s.one = [&] { Sample<CV> o; REQUIRE(t.SampleFrom(o), "sampling failed"); return id(o); };
      s.many = [&](int N, bool r) { std::vector<Sample<CV>> l2; REQUIRE(t.SampleFrom(l2, N, r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling failed"); return ids(l2, id); };
      lightSampler(g, s);
    }
  }
  if (changes > 1) g.mark(); g.note(s.name, " history");
}
static Reg b4h({"P09", "a history with at least two changes of probabilities or lists", p09_hist, false, "history", 2});
static Reg b4({"P09", "at least two values with positive probability", p09, false, "samplers", 1});

// ------------------------------------------------ P10 Monte Carlo pdf
struct MM { std::vector<Vec> x; RV w; };
static void checkMC(MCPdf<CV>& p, MM& m, int dim) {
  int n = m.x.size(); REQUIRE((int)p.NumSamplesGet() == n, "number of samples ", p.NumSamplesGet(), " expected ", n); REQUIRE((int)p.DimensionGet() == dim, "dimension");
  const std::vector<WeightedSample<CV>>& l = p.ListOfSamplesGet(); REQUIRE((int)l.size() == n, "list size"); R s = 0;
  for (int i = 0; i < n; i++) { same("sample value", fromC(l[i].ValueGet()), m.x[i], 0, 1); same("sample by index", fromC(p.SampleGet(i).ValueGet()), m.x[i], 0, 1); R w = l[i].WeightGet(); REQUIRE(w >= 0, "negative weight"); REQUIRE(fabsl(w - m.w[i]) <= 1e-295L + 1e-9L * std::min(w, m.w[i]), "weight ", i, ": ", (double)w, " expected ", (double)m.w[i]); REQUIRE(p.SampleGet(i).WeightGet() == l[i].WeightGet(), "weight by index"); s += w; }
  REQUIRE(fabsl(s - 1) < 1e-9L, "weights sum to ", (double)s);
  std::vector<double>& c = p.CumulativePDFGet(); REQUIRE((int)c.size() == n + 1, "cumulative list has ", c.size(), " entries for ", n, " samples"); REQUIRE(c[0] == 0, "cumulative starts at ", c[0]); R a = 0; for (int i = 0; i < n; i++) { a += m.w[i]; REQUIRE(fabsl(c[i + 1] - a) < 1e-9L, "cumulative entry ", i + 1, ": ", c[i + 1], " expected ", (double)a); REQUIRE(c[i + 1] >= c[i], "cumulative list decreases"); }
  R sc = 1e-290L; for (auto& v : m.x) sc = std::max(sc, maxabs(v)); Vec mu(dim); for (int i = 0; i < n; i++) mu = mu + m.w[i] * m.x[i]; Mat C(dim, dim); for (int i = 0; i < n; i++) { Vec d = m.x[i] - mu; C = C + m.w[i] * outer(d, d); }
  same("expected value", fromC(p.ExpectedValueGet()), mu, 1e-11L, sc); Mat got = fromS(p.CovarianceGet()); same("covariance", got, C, 1e-11L, sc * sc);
  same("expected value again", fromC(p.ExpectedValueGet()), mu, 1e-11L, sc);
}
static void p10(Gen& g) {
  int dim = g.count(1, 4, 9); typedef MCPdf<CV> P_; std::vector<std::unique_ptr<P_>> P; std::vector<MM> M; int ops = g.count(1, 10, 40), sets = 0; double sc = genScale(g); bool cp = false;
  auto genM = [&](int n, bool weighted) { MM m; for (int i = 0; i < n; i++) m.x.push_back(roundD((R)sc * genVec(g, dim))); if (weighted) m.w = genW(g, n); else m.w = RV(n, 1.0L / n); return m; };
  auto wl = [&](const MM& m) { std::vector<WeightedSample<CV>> l; for (size_t i = 0; i < m.x.size(); i++) { WeightedSample<CV> s(dim); s.ValueSet(toC(m.x[i])); s.WeightSet((double)m.w[i]); l.push_back(s); } return l; };
  auto ul = [&](const MM& m) { std::vector<Sample<CV>> l; for (size_t i = 0; i < m.x.size(); i++) { Sample<CV> s(dim); s.ValueSet(toC(m.x[i])); l.push_back(s); } return l; };
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? 0 : g.range(0, 9), i = P.empty() ? 0 : g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    switch (op) {
      case 0: { int n0 = g.range(0, 6), n = g.count(1, 8, 60); P.emplace_back(new P_(n0, dim)); MM m = genM(n, g.chance(1, 2)); bool w = g.chance(1, 2); if (!w) m.w = RV(n, 1.0L / n); g.note("new ", n0, " then ", n, " samples"); if (w) REQUIRE(P.back()->ListOfSamplesSet(wl(m)), "set failed"); else REQUIRE(P.back()->ListOfSamplesSet(ul(m)), "set failed"); m.w = norm(m.w); M.push_back(m); break; }
      case 1: case 2: { MM m = genM(g.count(1, 8, 60), true); g.note("set weighted ", m.x.size(), " w ", showv(m.w)); REQUIRE(P[i]->ListOfSamplesSet(wl(m)), "set failed"); m.w = norm(m.w); M[i] = m; sets++; break; }
      case 3: { MM m = genM(g.count(1, 8, 60), false); g.note("set unweighted ", m.x.size()); REQUIRE(P[i]->ListOfSamplesSet(ul(m)), "set failed"); M[i] = m; sets++; break; }
      case 4: { MM m = genM(M[i].x.size(), true); REQUIRE(P[i]->ListOfSamplesUpdate(wl(m)), "update failed"); m.w = norm(m.w); M[i] = m; sets++; break; }
      case 5: { MM m = genM(M[i].x.size(), false); REQUIRE(P[i]->ListOfSamplesUpdate(ul(m)), "update failed"); M[i] = m; sets++; break; }
      case 6: { int n = g.count(1, 8, 60); g.note("resize ", n); P[i]->NumSamplesSet(n); REQUIRE((int)P[i]->NumSamplesGet() == n, "number of samples after resize"); MM m = genM(n, g.chance(1, 2)); if (g.chance(1, 2)) { REQUIRE(P[i]->ListOfSamplesUpdate(wl(m)), "update failed"); m.w = norm(m.w); } else { m.w = RV(n, 1.0L / n); REQUIRE(P[i]->ListOfSamplesUpdate(ul(m)), "update failed"); } M[i] = m; sets++; break; }
      case 7: P.emplace_back(g.chance(1, 2) ? new P_(*P[i]) : P[i]->Clone()); M.push_back(M[i]); cp = true; break;
      case 8: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; cp = true; break; }
      case 9: { Sample<CV> s; P[i]->SampleFrom(s); std::vector<Sample<CV>> l; P[i]->SampleFrom(l, 3, SampleMthd::RIPLEY); break; }
    }
    for (size_t q = 0; q < P.size(); q++) checkMC(*P[q], M[q], dim);
    if (P.size() > 3) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  if (sets > 0) g.mark(); if (cp) g.label("copies");
}
static Reg b5({"P10", "a history that replaces the sample list at least once", p10, false, "history", 6});
static void p10_zero(Gen& g) { int n = g.range(1, 5); MCPdf<CV> p(n, 1); std::vector<WeightedSample<CV>> l(n, WeightedSample<CV>(1)); for (auto& s : l) { CV v(1); v(1) = g.real(); s.ValueSet(v); s.WeightSet(0); } g.note("zero weights n=", n); g.mark(); REQUIRE(!p.ListOfSamplesSet(l), "all-zero weights accepted"); REQUIRE(!p.ListOfSamplesUpdate(l), "all-zero weights accepted by update"); MM m; m.w = RV(n); for (int i = 0; i < n; i++) { m.x.push_back(fromC(l[i].ValueGet())); m.w[i] = 1 + i; l[i].WeightSet(1 + i); } REQUIRE(p.ListOfSamplesUpdate(l), "valid weights rejected"); m.w = norm(m.w); checkMC(p, m, 1); }
static Reg b6({"P10", "every rejected all-zero list", p10_zero, false, "zero", 1});
// the same histories for sample based pdfs over numbers
template <class T> static void p10_num(Gen& g) {
  struct M_ { std::vector<T> x; RV w; }; typedef MCPdf<T> P_; std::vector<std::unique_ptr<P_>> P; std::vector<M_> M; int ops = g.count(1, 10, 40), sets = 0;
  auto genM = [&](int n, bool w) { M_ m; for (int i = 0; i < n; i++) m.x.push_back(std::is_same<T, double>::value ? (T)g.real() : (T)g.range(std::is_unsigned<T>::value ? 0 : -40, 40)); m.w = w ? genW(g, n) : RV(n, 1.0L / n); return m; };
  auto put = [&](P_& p, M_& m, bool upd) { size_t n = m.x.size(); g.note(upd ? "update " : "set ", n, " w ", showv(m.w)); if (g.chance(1, 2)) { std::vector<WeightedSample<T>> l; for (size_t i = 0; i < n; i++) { WeightedSample<T> s(1); s.ValueSet(m.x[i]); s.WeightSet((double)m.w[i]); l.push_back(s); } REQUIRE(upd ? p.ListOfSamplesUpdate(l) : p.ListOfSamplesSet(l), "set failed"); m.w = norm(m.w); } else { std::vector<Sample<T>> l; for (size_t i = 0; i < n; i++) { Sample<T> s(1); s.ValueSet(m.x[i]); l.push_back(s); } REQUIRE(upd ? p.ListOfSamplesUpdate(l) : p.ListOfSamplesSet(l), "set failed"); m.w = RV(n, 1.0L / n); } };
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? 0 : g.range(0, 7), i = P.empty() ? 0 : g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    switch (op) {
      case 0: { P.emplace_back(new P_(g.range(0, 6), 1)); M_ m = genM(g.count(1, 8, 60), true); put(*P.back(), m, false); M.push_back(m); break; }
      case 1: case 2: { M_ m = genM(g.count(1, 8, 60), true); put(*P[i], m, false); M[i] = m; sets++; break; }
      case 3: { M_ m = genM(M[i].x.size(), true); put(*P[i], m, true); M[i] = m; sets++; break; }
      case 4: { int n = g.count(1, 8, 60); P[i]->NumSamplesSet(n); REQUIRE((int)P[i]->NumSamplesGet() == n, "number of samples after resize"); M_ m = genM(n, true); put(*P[i], m, true); M[i] = m; sets++; break; }
      case 5: P.emplace_back(g.chance(1, 2) ? new P_(*P[i]) : P[i]->Clone()); M.push_back(M[i]); break;
      case 6: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; break; }
      case 7: { Sample<T> s; P[i]->SampleFrom(s); std::vector<Sample<T>> l; P[i]->SampleFrom(l, 3, SampleMthd::RIPLEY); break; }
    }
    for (size_t q = 0; q < P.size(); q++) { P_& p = *P[q]; const M_& m = M[q]; int n = m.x.size(); REQUIRE((int)p.NumSamplesGet() == n, "number of samples ", p.NumSamplesGet(), " expected ", n); REQUIRE(p.DimensionGet() == 1, "dimension ", p.DimensionGet()); const std::vector<WeightedSample<T>>& l = p.ListOfSamplesGet(); std::vector<double>& c = p.CumulativePDFGet(); REQUIRE((int)l.size() == n && (int)c.size() == n + 1 && c[0] == 0, "list sizes"); R a = 0;
      for (int j = 0; j < n; j++) { R w = l[j].WeightGet(); a += m.w[j]; REQUIRE(l[j].ValueGet() == m.x[j] && p.SampleGet(j).ValueGet() == m.x[j], "sample ", j, " is ", l[j].ValueGet(), " expected ", m.x[j]); REQUIRE(w >= 0 && fabsl(w - m.w[j]) <= 1e-295L + 1e-9L * std::min(w, m.w[j]), "weight ", j, ": ", (double)w, " expected ", (double)m.w[j]); REQUIRE(fabsl(c[j + 1] - a) < 1e-9L && c[j + 1] >= c[j], "cumulative entry ", j + 1, ": ", c[j + 1], " expected ", (double)a); } }
    if (P.size() > 3) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  if (sets) g.mark();
}
static Reg b7d({"P10", "a history that replaces the sample list at least once", p10_num<double>, false, "doubles", 1});
static Reg b7i({"P10", "a history that replaces the sample list at least once", p10_num<int>, false, "ints", 1});
static void p10_uint(Gen& g) { int n = g.count(1, 8, 60); MCPdf<unsigned int> p(n, 1); RV w = genW(g, n); std::vector<WeightedSample<unsigned int>> l(n, WeightedSample<unsigned int>(1)); std::vector<unsigned> x(n); double span = g.chance(1, 2) ? 50 : std::pow(10.0, g.range(1, 9)); unsigned base = g.chance(1, 2) ? 0 : (unsigned)std::pow(10.0, g.range(1, 9)); for (int i = 0; i < n; i++) { x[i] = base + (unsigned)(g.u01() * span); l[i].ValueSet(x[i]); l[i].WeightSet((double)w[i]); } REQUIRE(p.ListOfSamplesSet(l), "set failed"); RV q = norm(w); R m = 0, c = 0; for (int i = 0; i < n; i++) m += q[i] * x[i]; if (n > 1) g.mark(); g.note("unsigned samples n=", n, " mean ", (double)m);
  if (fabsl(m - floorl(m) - 0.5L) < 1e-14L * (m + 1e8L)) g.discard(); unsigned mu = p.ExpectedValueGet(); REQUIRE(mu == (unsigned)floorl(m + 0.5L), "rounded mean ", mu, " of ", (double)m); for (int i = 0; i < n; i++) c += q[i] * ((R)x[i] - mu) * ((R)x[i] - mu); same("variance", (R)p.CovarianceGet()(1, 1), c, 1e-9L, 1 + c); }
static Reg b7({"P10", "more than one sample", p10_uint, false, "unsigned", 1});

// ------------------------------------------------ P11 mixtures
struct MC { Vec mu; Mat S; }; struct MX { std::vector<MC> c; RV w; };
static R lpdf(const Vec& x, const MC& m) { Mat v; R d = det_inv(m.S, &v); Vec e = x - m.mu; return expl(-0.5L * (x.n() * logl(2 * acosl(-1.0L)) + logl(d) + dot(e, v * e))); }
static void checkMix(Gen& g, Mixture<CV>& p, MX& m, int dim) {
  int n = m.c.size(); REQUIRE((int)p.NumComponentsGet() == n, "number of components ", p.NumComponentsGet(), " expected ", n); REQUIRE((int)p.DimensionGet() == dim, "dimension"); if (!n) return;
  std::vector<Probability> w = p.WeightsGet(); REQUIRE((int)w.size() == n, "weights size"); R s = 0; int first = -1; double best = -1;
  for (int i = 0; i < n; i++) { double x = dbl(w[i]); REQUIRE(x == dbl(p.WeightGet(i)), "weight accessors disagree"); REQUIRE(x >= 0 && fabsl(x - m.w[i]) <= 1e-295L + 1e-9L * std::min((R)x, m.w[i]), "weight ", i, ": ", x, " expected ", (double)m.w[i]); s += x; if (x > best) { best = x; first = i; } }
  REQUIRE(fabsl(s - 1) < 1e-9L, "weights sum to ", (double)s); REQUIRE(p.MostProbableComponentGet() == first, "most probable component ", p.MostProbableComponentGet(), " expected ", first);
  for (int i = 0; i < n; i++) { same("component mean", fromC(p.ComponentGet(i)->ExpectedValueGet()), m.c[i].mu, 0, 1); REQUIRE(p.ComponentsGet()[i] == p.ComponentGet(i), "component lists disagree"); same("component covariance", fromS(p.ComponentGet(i)->CovarianceGet()), m.c[i].S, 0, 1); m.w[i] = dbl(w[i]); }
  Vec x = g.chance(1, 3) ? m.c[g.range(0, n - 1)].mu : genVec(g, dim); R d = 0, mx = 0; Vec mu(dim); for (int i = 0; i < n; i++) { R q = lpdf(x, m.c[i]); d += m.w[i] * q; mx = std::max(mx, m.w[i] * q); mu = mu + m.w[i] * m.c[i].mu; }
  same("mixture density", (R)dbl(p.ProbabilityGet(toC(x))), d, 1e-9L, mx * n + 1e-290L); same("mixture mean", fromC(p.ExpectedValueGet()), mu, 1e-11L, 8);
}
static void p11(Gen& g) {
  int dim = g.count(1, 3, 7); typedef Mixture<CV> P_; std::vector<std::unique_ptr<P_>> P; std::vector<MX> M; int ops = g.count(2, 14, 50); int changes = 0; bool del = false, cp = false;
  auto comp = [&] { MC c; c.mu = genVec(g, dim); c.S = genSPD(g, dim); return c; };
  for (int k = 0; k < ops; k++) {
    int op = P.empty() ? g.range(0, 1) : g.range(0, 11), i = P.empty() ? 0 : g.range(0, (int)P.size() - 1); g.note("op ", op, " on ", i);
    if (op >= 4 && op <= 8 && M[i].c.empty()) op = 2;
    switch (op) {
      case 0: P.emplace_back(new P_((unsigned)dim)); M.push_back(MX()); break;
      case 1: { int n = g.count(1, 4, 20); MX m; std::vector<Pdf<CV>*> v; for (int q = 0; q < n; q++) { m.c.push_back(comp()); v.push_back(new Gaussian(toC(m.c[q].mu), toS(m.c[q].S))); } m.w = RV(n, 1.0L / n); g.note("from ", n, " components"); P.emplace_back(new P_(v)); M.push_back(m);
                for (auto q : v) { ((Gaussian*)q)->ExpectedValueSet(toC(genVec(g, dim))); delete q; } break; }
      case 2: { MC c = comp(); Gaussian q(toC(c.mu), toS(c.S)); REQUIRE(P[i]->AddComponent(q), "adding a component failed"); q.ExpectedValueSet(toC(genVec(g, dim))); M[i].w.push_back(M[i].c.empty() ? 1 : 0); M[i].c.push_back(c); changes++; break; }
      case 3: { MC c = comp(); Gaussian q(toC(c.mu), toS(c.S)); double w = g.chance(1, 5) ? 1.0 : g.u01(); g.note("weight ", w); REQUIRE(P[i]->AddComponent(q, Probability(w)), "adding a component failed"); bool e = M[i].c.empty(); for (auto& x : M[i].w) x *= 1 - (R)w; M[i].w.push_back(e ? 1 : (R)w); M[i].c.push_back(c); changes++; break; }
      case 4: case 5: { int n = M[i].c.size(), d = g.range(0, n - 1); g.note("delete ", d); R rest = 0; for (int q = 0; q < n; q++) if (q != d) rest += M[i].w[q]; bool ok = P[i]->DeleteComponent(d); M[i].c.erase(M[i].c.begin() + d); M[i].w.erase(M[i].w.begin() + d); del = true; changes++;
                REQUIRE(ok == (n == 1 || rest > 0), "deleting a component returned ", ok); if (n > 1) { if (rest == 0) { RV w = genW(g, n - 1, false); auto v = toP(w); REQUIRE(P[i]->WeightsSet(v), "setting weights failed"); M[i].w = w; } M[i].w = norm(M[i].w); } break; }
      case 6: { int n = M[i].c.size(); RV w = genW(g, n); g.note("weights ", showv(w)); auto v = toP(w); REQUIRE(P[i]->WeightsSet(v), "setting weights failed"); M[i].w = norm(w); changes++; break; }
      case 7: case 8: { int n = M[i].c.size(), s = g.range(0, n - 1); double a = n == 1 ? 1.0 : (g.chance(1, 5) ? 1.0 : g.chance(1, 5) ? 0.0 : g.chance(1, 4) ? 1 - std::pow(10.0, g.range(-16, -1)) : g.u01()); g.note("set weight ", s, " ", a); RV w(n); R o = 0; for (int q = 0; q < n; q++) if (q != s) o += M[i].w[q];
                for (int q = 0; q < n; q++) w[q] = q == s ? (R)a : o > 0 ? M[i].w[q] / o * (1 - (R)a) : (1 - (R)a) / (n - 1); REQUIRE(P[i]->WeightSet(s, a), "setting a weight failed"); REQUIRE(dbl(P[i]->WeightGet(s)) == a, "weight ", dbl(P[i]->WeightGet(s)), " after setting it to ", a); M[i].w = w; changes++; break; }
      case 9: P.emplace_back(g.chance(1, 2) ? new P_(*P[i]) : P[i]->Clone()); M.push_back(M[i]); cp = true; break;
      case 10: { int j = g.range(0, (int)P.size() - 1); *P[i] = *P[j]; M[i] = M[j]; cp = true; break; }
      case 11: if (!M[i].c.empty()) { Sample<CV> s; REQUIRE(P[i]->SampleFrom(s), "sampling failed"); REQUIRE((int)s.ValueGet().rows() == dim, "sample dimension"); } break;
    }
    for (size_t q = 0; q < P.size(); q++) checkMix(g, *P[q], M[q], dim);
    if (P.size() > 3) { P.erase(P.begin()); M.erase(M.begin()); }
  }
  if (changes > 1) g.mark(); if (del) g.label("deleted"); if (cp) g.label("copies");
}
static Reg b8({"P11", "a history with at least two component or weight changes", p11, false, "history", 4});
static void p11_int(Gen& g) { // mixture of discrete pdfs: probability is the weighted sum, expected value the most probable state
  int n = g.count(1, 5, 20), K = g.count(1, 4, 15); Mixture<int> x(1u); RV tot(n, 0); RV w = norm(genW(g, K, false)); std::vector<RV> ps; for (int k = 0; k < K; k++) { DiscretePdf d(n); RV p = genW(g, n, false); auto v = toP(p); d.ProbabilitiesSet(v); x.AddComponent(d); p = norm(p); for (int i = 0; i < n; i++) tot[i] += w[k] * p[i]; } auto v = toP(w); x.WeightsSet(v); if (n > 1 && K > 1) g.mark(); g.note("discrete mixture n=", n, " K=", K);
  for (int i = 0; i < n; i++) same("mixture probability", (R)dbl(x.ProbabilityGet(i)), tot[i], 1e-11L, 1); int e = x.ExpectedValueGet(); for (int i = 0; i < n; i++) REQUIRE(e >= 0 && e < n && tot[e] >= tot[i] - 1e-11L, "most probable state ", e);
  for (int q = 0; q < 5; q++) { Sample<int> s; rngctl::edge_rate(300); x.SampleFrom(s); REQUIRE(s.ValueGet() >= 0 && s.ValueGet() < n && tot[s.ValueGet()] > 0, "drew state ", s.ValueGet()); } }
static Reg b9({"P11", "several components over several states", p11_int, false, "discrete", 1});
// mixtures of user-defined pdfs over numbers
class Tri : public Pdf<double> { public: double c, h; Tri(double c_, double h_) : Pdf<double>(1), c(c_), h(h_) {} virtual Tri* Clone() const { return new Tri(*this); } virtual double ExpectedValueGet() const { return c; } virtual Probability ProbabilityGet(const double& x) const { double d = fabs(x - c) / h; return Probability(d >= 1 ? 0 : (1 - d) / h); } };
static void p11_double(Gen& g) {
  typedef Mixture<double> P_; struct M_ { std::vector<std::pair<double, double>> c; RV w; }; std::vector<std::unique_ptr<P_>> P; std::vector<M_> M; P.emplace_back(new P_(1u)); M.push_back(M_()); int changes = 0;
  for (int k = 0, ops = g.count(2, 12, 40); k < ops; k++) {
    int i = g.range(0, (int)P.size() - 1), op = M[i].c.empty() ? 0 : g.range(0, 6), n = M[i].c.size(); P_& p = *P[i]; M_& m = M[i]; g.note("op ", op, " on ", i);
    if (op <= 1) { Tri t(g.real(), 0.25 + g.pos(4)); double w = n == 0 ? 1 : g.u01(); REQUIRE(p.AddComponent(t, Probability(w)), "adding failed"); for (auto& e : m.w) e *= 1 - (R)w; m.w.push_back(n ? (R)w : 1); m.c.push_back({t.c, t.h}); t.c = 99; changes++; }
    else if (op == 2) { int d = g.range(0, n - 1); R rest = 0; for (int q = 0; q < n; q++) if (q != d) rest += m.w[q]; if (n == 1 || rest < 1e-6L) continue; REQUIRE(p.DeleteComponent(d), "deleting failed"); m.c.erase(m.c.begin() + d); m.w.erase(m.w.begin() + d); m.w = norm(m.w); changes++; }
    else if (op == 3) { RV w = genW(g, n); auto v = toP(w); REQUIRE(p.WeightsSet(v), "weights"); m.w = norm(w); changes++; }
    else if (op == 4) { if (P.size() < 3) { P.emplace_back(g.chance(1, 2) ? new P_(p) : p.Clone()); M_ c = M[i]; M.push_back(c); } }
    else if (op == 5) { int j = g.range(0, (int)P.size() - 1); p = *P[j]; m = M_(M[j]); }
    for (size_t q = 0; q < P.size(); q++) { int N = M[q].c.size(); REQUIRE((int)P[q]->NumComponentsGet() == N, "number of components"); if (!N) continue; R mu = 0, d = 0, mx = 0; double x = g.chance(1, 2) ? M[q].c[g.range(0, N - 1)].first : g.real(); for (int z = 0; z < N; z++) { REQUIRE(fabsl(dbl(P[q]->WeightGet(z)) - M[q].w[z]) <= 1e-9L * M[q].w[z] + 1e-290L, "weight ", z, " is ", dbl(P[q]->WeightGet(z)), " instead of ", (double)M[q].w[z]); Tri t(M[q].c[z].first, M[q].c[z].second); REQUIRE(P[q]->ComponentGet(z)->ExpectedValueGet() == t.c, "component ", z); R v = M[q].w[z] * dbl(t.ProbabilityGet(x)); mx += fabsl(t.c) * M[q].w[z]; d += v; mu += M[q].w[z] * t.c; } same("mixture mean", (R)P[q]->ExpectedValueGet(), mu, 1e-9L, mx + 1e-290L); same("mixture density", (R)dbl(P[q]->ProbabilityGet(x)), d, 1e-9L, d + 1e-290L); }
  }
  if (changes > 1) g.mark(); g.label("numbers");
}
static Reg b9d({"P11", "a history with at least two component or weight changes", p11_double, false, "numbers", 1});
