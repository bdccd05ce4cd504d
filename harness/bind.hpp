// Binding between the reference model and the library: conversion of formulas and signals, and the
// comparison of a returned signal with a reference function.
#pragma once
#include "explore.hpp"
#include "ref.hpp"
#include "signal_tl/signal_tl.hpp"
#include <cstring>

namespace bind_ {
namespace stl = signal_tl;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;
using stl::signal::Trace;
using ref::Pwl;

inline double ut(double t) { return t * mc::units.ts + mc::units.to; }
inline double uv(double v) { return v * mc::units.vs + mc::units.vo; }
inline double dt(double t) { return (t - mc::units.to) / mc::units.ts; }
inline double dv(double v) { return (v - mc::units.vo) / mc::units.vs; }
inline double dr(double v) { return v / mc::units.vs; } // a difference of values: robustness
inline double ds(double s) { return s * (mc::units.ts / mc::units.vs); } // a slope
inline SignalPtr sig(const Pwl& x) {
  std::vector<double> v, t;
  for (auto& q : x.p) { v.push_back(uv(q.v)); t.push_back(ut(q.t)); }
  return std::make_shared<Signal>(v, t);
}
inline Pwl pwl(const Signal& s) { Pwl r; for (auto it = s.begin(); it != s.end(); ++it) r.p.push_back({dt(it->time), dr(it->value)}); return r; } // a robustness signal
inline Pwl raw(const Signal& s) { Pwl r; for (auto it = s.begin(); it != s.end(); ++it) r.p.push_back({dt(it->time), dv(it->value)}); return r; } // a trace signal
inline Trace trace(const ref::Env& e) { Trace t; for (auto& p : e) t[p.first] = sig(p.second); return t; }

inline stl::ast::Interval interval(const ref::Node& n) {
  using ull = unsigned long long;
  double a = n.a * mc::units.ts, b = n.b * mc::units.ts;
  return n.integral && a == std::floor(a) && b == std::floor(b) ? stl::ast::Interval(ull(a), ull(b)) : stl::ast::Interval(a, b);
}
/// Library formula for a reference formula; connectives through the library's functions, or through its
/// operators (conjunctions and disjunctions grouped to the left or to the right).
enum class Writing { functions, left, right };
inline stl::ast::Expr expr(const ref::Fm& f, Writing w = Writing::functions) {
  using namespace ref; auto& n = *f;
  auto k = [&](size_t i) { return expr(n.k[i], w); };
  auto all = [&] { std::vector<stl::ast::Expr> v; for (auto& c : n.k) v.push_back(expr(c, w)); return v; };
  if (w != Writing::functions) {
    if (n.op == NOT) return ~k(0);
    if (n.op == IMPLIES) return k(0) >> k(1);
    if (n.op == XOR) return (k(0) & ~k(1)) | (~k(0) & k(1));
    if (n.op == IFF) return (k(0) >> k(1)) & (k(1) >> k(0));
    if ((n.op == AND || n.op == OR) && n.k.size() > 1) {
      auto v = all(); auto join = [&](const stl::ast::Expr& a, const stl::ast::Expr& b) { return n.op == AND ? a & b : a | b; };
      if (w == Writing::left) { auto r = v[0]; for (size_t i = 1; i < v.size(); i++) r = join(r, v[i]); return r; }
      auto r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = join(v[i], r); return r;
    }
  }
  switch (n.op) {
    case TRUE_: return stl::Const(true); case FALSE_: return stl::Const(false);
    case GT: return stl::Predicate(n.name) > uv(n.c); case GE: return stl::Predicate(n.name) >= uv(n.c);
    case LT: return stl::Predicate(n.name) < uv(n.c); case LE: return stl::Predicate(n.name) <= uv(n.c);
    case NOT: return stl::Not(k(0));
    case AND: return stl::And(all()); case OR: return stl::Or(all());
    case IMPLIES: return stl::Implies(k(0), k(1)); case XOR: return stl::Xor(k(0), k(1)); case IFF: return stl::Iff(k(0), k(1));
    case G: return stl::Always(k(0)); case F: return stl::Eventually(k(0));
    case GI: return stl::Always(k(0), interval(n));
    case FI: return stl::Eventually(k(0), interval(n));
    case U: return stl::Until(k(0), k(1));
  }
  std::abort();
}

inline std::string str(const Signal& s) { return ref::str(pwl(s)); }
inline mc::u64 hsig(const Signal& s, mc::u64 h = 7) {
  for (auto it = s.begin(); it != s.end(); ++it) { mc::u64 a, b; double t = dt(it->time) + 0.0, v = dv(it->value) + 0.0; std::memcpy(&a, &t, 8); std::memcpy(&b, &v, 8); h = mc::mix(mc::mix(h, a), b); }
  return h;
}
inline bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }

/// The library's signal must be the function ref, on exactly ref's domain.
/// check_slopes: the slope stored with every sample must be the slope to the next sample.
inline void same(const SignalPtr& out, const Pwl& want, const char* what, double tol = 1e-7, bool check_slopes = true, bool is_raw = false) {
  using ref::num;
  tol *= mc::units.loose;
  if (!out) mc::fail(std::string(what) + ": null signal");
  Pwl got = is_raw ? raw(*out) : pwl(*out);
  auto bad = [&](const std::string& m) { mc::fail(std::string(what) + ": " + m + "\n  got      " + ref::str(got) + "\n  expected " + ref::str(want)); };
  if (want.empty()) { if (!got.empty()) bad("expected an empty signal"); return; }
  if (got.empty()) bad("empty signal");
  for (size_t i = 0; i < got.p.size(); i++) {
    if (!std::isfinite(got.p[i].t) || std::isnan(got.p[i].v)) bad("non-finite time or NaN value");
    if (i && !(got.p[i].t > got.p[i - 1].t)) bad("times not strictly increasing");
  }
  if (!near(got.b(), want.b(), tol) || !near(got.e(), want.e(), tol)) bad("domain differs");
  auto at = [&](double t) {
    t = std::min(std::max(t, want.b()), want.e());
    double g = got.at(t), w = want.at(t);
    if (!near(g, w, tol)) bad("at time " + num(t) + " value " + num(g) + " instead of " + num(w));
  };
  for (auto& q : got.p) at(q.t);
  for (auto& q : want.p) at(q.t);
  for (size_t i = 0; i + 1 < got.p.size(); i++) {
    double u = got.p[i].t, w = got.p[i + 1].t;
    at(u + (w - u) * 0.29); at(u + (w - u) * 0.5); at(u + (w - u) * 0.83);
  }
  if (check_slopes) {
    size_t i = 0;
    for (auto it = out->begin(); it != out->end(); ++it, ++i) {
      if (i + 1 == got.p.size()) { if (!(it->derivative == 0)) bad("last sample has slope " + num(it->derivative)); break; }
      double end = got.p[i].v + (it->derivative == 0 ? 0 : ds(it->derivative) * (got.p[i + 1].t - got.p[i].t));
      if (!near(end, got.p[i + 1].v, tol)) bad("slope of the sample at " + num(got.p[i].t) + " is " + num(ds(it->derivative)));
    }
  }
}

/// Units in which checks that compare robustness with the reference also run.
inline std::vector<mc::Units> unit_systems(bool thorough = false) {
  auto p = [](int k) { return std::ldexp(1.0, k); };
  std::vector<mc::Units> r{{"pico", p(-40), p(-40)}, {"tera", p(40), p(40)}, {"flat", p(20), p(-30)}, {"steep", p(-20), p(30)}, {"late", 1, 1, p(33), 0, 1000}};
  if (thorough) { r.push_back({"tiny", p(-130), p(-130)}); r.push_back({"slow", p(60), p(-60)}); r.push_back({"fast", p(-60), p(60)}); r.push_back({"small", 1, p(-200)}); r.push_back({"big", 1, p(200)}); }
  return r;
}
/// ... and units for checks whose expected values are samples or exact lines (dyadic alphabets): tiny
/// differences on top of large times and values.
inline std::vector<mc::Units> unit_systems_raw(bool thorough = false) {
  auto p = [](int k) { return std::ldexp(1.0, k); };
  auto r = unit_systems(thorough);
  r.push_back({"close", p(-30), 1, 8, 0, 1e7}); r.push_back({"level", 1, p(-40), 0, 8, 1e7}); r.push_back({"high", 1, p(10), 0, p(40), 1e3}); r.push_back({"past", p(-10), 1, -p(30), 0, 1000});
  return r;
}
/// Can f be written in the current units?  (a zero-width window needs an integral interval)
inline bool writable(const ref::Fm& f) {
  auto& n = *f; for (auto& k : n.k) if (!writable(k)) return false;
  return !((n.op == ref::GI || n.op == ref::FI) && n.a == n.b && n.a * mc::units.ts != std::floor(n.a * mc::units.ts));
}
inline std::vector<ref::Fm> writable(const std::vector<ref::Fm>& fs) { std::vector<ref::Fm> r; for (auto& f : fs) if (writable(f)) r.push_back(f); return r; }

/// Space of signals: each time slot absent or one of the values.
struct SigSpace {
  std::vector<double> t, v; size_t min_n = 1;
  mc::u64 size() const { mc::u64 r = 1; for (size_t i = 0; i < t.size(); i++) r *= v.size() + 1; return r; }
  bool get(mc::u64 i, Pwl& out) const {
    out.p.clear();
    for (double x : t) { auto d = i % (v.size() + 1); i /= v.size() + 1; if (d) out.p.push_back({x, v[d - 1]}); }
    return out.p.size() >= min_n;
  }
};
/// All samples present.
struct DenseSpace {
  std::vector<double> t, v;
  mc::u64 size() const { mc::u64 r = 1; for (size_t i = 0; i < t.size(); i++) r *= v.size(); return r; }
  bool get(mc::u64 i, Pwl& out) const {
    out.p.clear();
    for (double x : t) { out.p.push_back({x, v[i % v.size()]}); i /= v.size(); }
    return true;
  }
};
inline std::string str(const ref::Env& e) { std::string r; for (auto& p : e) r += (r.empty() ? "" : "; ") + p.first + " = " + ref::str(p.second); return r; }
inline mc::u64 hpwl(const Pwl& s, mc::u64 h = 11) { for (auto& q : s.p) { mc::u64 a, b; double v = q.v + 0.0; std::memcpy(&a, &q.t, 8); std::memcpy(&b, &v, 8); h = mc::mix(mc::mix(h, a), b); } return h; }
inline mc::u64 henv(const ref::Env& e, mc::u64 h = 13) { for (auto& p : e) h = hpwl(p.second, mc::hstr(p.first, h)); return h; }

/// Evaluate and compare one formula on one trace.
inline SignalPtr check_rho(const ref::Fm& f, const stl::ast::Expr& e, const ref::Env& env, const Trace& tr, double tol = 1e-7) {
  if (mc::verbose) mc::desc("formula " + ref::str(f) + "  trace " + str(env));
  auto out = stl::compute_robustness(e, tr);
  mc::transition();
  same(out, ref::rho(f, env), "robustness", tol);
  mc::outcome(hsig(*out));
  return out;
}
} // namespace bind_
