// Comparing two returned signals with each other (implementation against implementation).
#pragma once
#include "alpha.hpp"

namespace rel {
using namespace ref;
/// Calls f(t, a(t), b(t)) at every sample time of either and inside every segment, on the common domain.
template <class Fn> void walk(const Pwl& a, const Pwl& b, Fn f) {
  if (a.empty() || b.empty()) return;
  double lo = std::max(a.b(), b.b()), hi = std::min(a.e(), b.e());
  if (lo > hi) return;
  thread_local Times ts; ts.clear(); ts.push_back(lo); ts.push_back(hi);
  for (auto* s : {&a, &b}) for (auto& q : s->p) if (q.t > lo && q.t < hi) ts.push_back(q.t);
  std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
  for (size_t i = 0; i < ts.size(); i++) {
    f(ts[i], a.at(ts[i]), b.at(ts[i]));
    if (i + 1 < ts.size()) for (double r : {0.37, 0.71}) { double t = ts[i] + (ts[i + 1] - ts[i]) * r; f(t, a.at(t), b.at(t)); }
  }
}
inline void well_formed(const Pwl& g, const std::string& what) {
  for (size_t i = 0; i < g.p.size(); i++) {
    if (!std::isfinite(g.p[i].t) || std::isnan(g.p[i].v)) mc::fail(what + ": non-finite time or NaN value in " + ref::str(g));
    if (i && !(g.p[i].t > g.p[i - 1].t)) mc::fail(what + ": times not strictly increasing in " + ref::str(g));
  }
}
inline void equal(const Pwl& a, const Pwl& b, double tol, const std::string& what, bool same_domain = true, bool wf_a = true) {
  if (wf_a) well_formed(a, what); well_formed(b, what);
  auto bad = [&](const std::string& m) { mc::fail(what + ": " + m + "\n  left  " + ref::str(a) + "\n  right " + ref::str(b)); };
  if (same_domain) {
    if (a.empty() != b.empty()) bad("one of them is empty");
    if (!a.empty() && (!bind_::near(a.b(), b.b(), tol) || !bind_::near(a.e(), b.e(), tol))) bad("domains differ");
  }
  walk(a, b, [&](double t, double u, double v) { if (!bind_::near(u, v, tol)) bad("at time " + num(t) + ": " + num(u) + " and " + num(v)); });
}
inline Pwl eval(const signal_tl::ast::Expr& e, const signal_tl::signal::Trace& tr, bool sync = false) {
  auto out = signal_tl::semantics::compute_robustness(e, tr, sync); mc::transition();
  if (!out) mc::fail("null signal");
  mc::outcome(bind_::hsig(*out));
  return bind_::pwl(*out);
}
} // namespace rel
