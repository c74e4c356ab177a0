// Helpers shared by the filter harnesses.
#pragma once
#include "pbt.h"
#include "filter/filter.h"
#include <iostream>
// silences standard output (some filters report progress there)
struct Mute { std::streambuf* o; std::ostringstream s; Mute() : o(std::cout.rdbuf(s.rdbuf())) {} ~Mute() { std::cout.rdbuf(o); } };
// one of the public update overloads that fit; a model without input or parameter ignores the one it is given
template <class SV, class MV> bool doUpdateT(pbt::Gen& g, BFL::Filter<SV, MV>& f, BFL::SystemModel<SV>* s, bool sin, const SV& u, BFL::MeasurementModel<MV, SV>* z, bool zin, const MV& zv, const SV& sv) {
  bool ui = s && (sin || g.chance(1, 4)), zi = z && (zin || g.chance(1, 4));
  if (s && z) { if (ui && zi) return f.Update(s, u, z, zv, sv); if (ui) return f.Update(s, u, z, zv); if (zi) return f.Update(s, z, zv, sv); return f.Update(s, z, zv); }
  if (s) return ui ? f.Update(s, u) : f.Update(s);
  return zi ? f.Update(z, zv, sv) : f.Update(z, zv);
}
