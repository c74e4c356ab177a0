// Property-based testing engine: recorded choice sequences, integrated shrinking,
// crash isolation (every candidate of the shrinker runs in a forked child).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>

namespace pbt {

struct Fail : std::runtime_error { explicit Fail(const std::string& m) : std::runtime_error(m) {} };
struct Discard {};

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}

struct Prng { // splitmix64
  uint64_t s; explicit Prng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
  double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

class Gen {
 public:
  std::vector<uint64_t> rec;      // choices actually used
  bool nontrivial = false;
  std::map<std::string, long> labels;
  std::set<std::string> known;    // known findings hit by this case
  std::string desc;               // human readable description of the case
  bool want_desc = false;

  // choices are mirrored here as they are made, so a crashing case leaves its choices behind
  static const size_t LIVE_MAX = (1u << 18) - 1;
  static uint64_t*& live() { static uint64_t* p = 0; return p; }
  explicit Gen(uint64_t seed) : rng_(seed), replay_(false) {}
  explicit Gen(const std::vector<uint64_t>& ch) : rng_(0), replay_(true), in_(ch) {}

  // uniform in [0,bound)
  uint64_t raw(uint64_t bound) {
    uint64_t v;
    if (bound == 0) bound = 1;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_] : 0; pos_++; if (v >= bound) v = bound - 1; }
    else v = rng_.next() % bound;
    if (rec.size() > 200000) throw Discard();
    rec.push_back(v);
    if (live() && rec.size() <= LIVE_MAX) { live()[rec.size()] = v; live()[0] = rec.size(); }
    return v;
  }
  int range(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo) + 1); }
  // as range, now and then far larger than usual
  int count(int lo, int hi, int big) { return chance(1, 40) ? range(lo, big) : range(lo, hi); }
  bool chance(int num, int den) { return (int)raw(den) >= den - num; } // shrinks to false
  template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
  // a double on a dyadic grid, magnitude about <= a; simplest value 0
  double real(double a = 4.0) {
    switch (raw(8)) {
      case 0: return 0.0;
      case 1: case 2: { int k = range(0, 3); bool s = chance(1, 2); return (s ? -1 : 1) * (double)k * (a / 4); }
      default: { int k = range(0, 4096); bool s = chance(1, 2); return (s ? -1.0 : 1.0) * k * (a / 4096.0); }
    }
  }
  double nonzero(double a = 4.0) { double v = real(a); return v == 0 ? a / 4 : v; }
  // positive in (0,a]
  double pos(double a = 4.0) { return (1 + (double)raw(4096)) * (a / 4097.0); }
  double u01() { return (double)raw(1u << 20) / (double)(1u << 20); }
  uint64_t seed() { return raw(1u << 30); }
  void label(const std::string& l) { labels[l]++; }
  void mark() { nontrivial = true; }
  template <class... A> void note(const A&... a) { if (!want_desc) return; std::ostringstream o; o.precision(17); cat(o, a...); desc += o.str() + "\n"; }
  void discard() { throw Discard(); }

 private:
  template <class A> static void cat(std::ostringstream& o, const A& a) { o << a; }
  template <class A, class... B> static void cat(std::ostringstream& o, const A& a, const B&... b) { o << a; cat(o, b...); }
  Prng rng_; bool replay_; std::vector<uint64_t> in_; size_t pos_ = 0;
};

template <class... A> std::string str(const A&... a) {
  std::ostringstream o; o.precision(17); int d[] = {(o << a, 0)...}; (void)d; return o.str();
}

struct Property {
  std::string id;
  std::string rule;               // what makes a case non-trivial
  std::function<void(Gen&)> run;
  bool fork_each = false;         // every case in its own child, from a pristine process
  std::string sub;                // name of the sub-check
  int weight = 1;                 // share of the cases of the property
};
std::vector<Property>& registry();
struct Reg { Reg(const Property& p) { registry().push_back(p); } };

[[noreturn]] inline void fail(const std::string& m) { throw Fail(m); }
#define REQUIRE(cond, ...) do { if (!(cond)) ::pbt::fail(::pbt::str(__VA_ARGS__)); } while (0)

}  // namespace pbt

// --- control of the library's random source (linked with --wrap) ---
namespace rngctl {
// real generator passes through; otherwise harness-owned values of the form k/2^32
void use_real();
void use_prng(uint64_t seed);             // deterministic pseudo random
void push_uniform(double u);              // consumed first by the next uniform draws
void push_normal(double z);               // standard normal values consumed first by the next normal draws
void edge_rate(int per_thousand);         // share of uniform draws replaced by extreme values
void set_normal_const(bool on, double z); // all normal draws return mu + sigma*z
long uniform_calls(); long normal_calls();
void reset_counts();
}
