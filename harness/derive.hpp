// Reference for the derived signals.
#pragma once
#include "alpha.hpp"

namespace derive {
using namespace ref;
inline Pwl resized(const Pwl& x, double s, double t, double fill) {
  Pwl r; bool meets = !x.empty() && x.e() >= s && x.b() <= t;
  if (!meets) { r.push(s, fill); r.push(t, fill); return r; }
  r.push(s, x.b() <= s ? x.at(s) : fill);
  for (auto& p : x.p) if (p.t > s && p.t < t) r.push(p.t, p.v);
  r.push(t, x.e() >= t ? x.at(t) : fill);
  // an endpoint coinciding with a sample is that sample
  for (auto& p : x.p) { if (p.t == s) r.p.front().v = p.v; if (p.t == t) r.p.back().v = p.v; }
  return r;
}
inline Pwl moved(Pwl x, double d) { for (auto& p : x.p) p.t += d; return x; }
/// the samples of x and y inside the common domain, as functions
inline Pwl onto(const Pwl& x, const Times& ts) { Pwl r; for (double t : ts) r.push(t, x.at(t)); return r; }
} // namespace derive
