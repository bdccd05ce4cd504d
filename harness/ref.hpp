// Reference model: STL quantitative semantics on piecewise-linear signals, written for obviousness,
// sharing nothing with the library.  Every operator is defined pointwise (eval at one instant by
// brute force over the breakpoints that matter); breakpoints are over-approximated.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
constexpr double INF = std::numeric_limits<double>::infinity();

struct Pt { double t, v; };

inline double lerp(const Pt& p, const Pt& q, double t) {
  if (p.v == q.v) return p.v;
  if (t == p.t) return p.v;
  if (t == q.t) return q.v;
  return p.v + (q.v - p.v) * ((t - p.t) / (q.t - p.t));
}

struct Pwl {
  std::vector<Pt> p;
  bool empty() const { return p.empty(); }
  double b() const { return p.front().t; }
  double e() const { return p.back().t; }
  /// value at t in the domain; constant continuation after the end (and before the begin).
  double at(double t) const {
    if (t <= p.front().t) return p.front().v;
    if (t >= p.back().t) return p.back().v;
    size_t lo = 0, hi = p.size() - 1;
    while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (p[m].t <= t) lo = m; else hi = m; }
    return lerp(p[lo], p[hi], t);
  }
  void push(double t, double v) { if (p.empty() || t > p.back().t) p.push_back({t, v}); }
};

using Times = std::vector<double>;
inline void norm(Times& x) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); }
inline Pwl build(Times ts, const std::function<double(double)>& f) {
  norm(ts); Pwl r; for (double t : ts) r.p.push_back({t, f(t)}); return r;
}
/// crossing time of the lines through (u, a0)-(w, a1) and (u, b0)-(w, b1), if strictly inside.
inline void cross(Times& out, double u, double w, double a0, double a1, double b0, double b1) {
  double d0 = a0 - b0, d1 = a1 - b1;
  if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) {
    double t = u + (w - u) * (d0 / (d0 - d1));
    if (t > u && t < w) out.push_back(t);
  }
}
inline Pwl neg(const Pwl& x) { Pwl r = x; for (auto& q : r.p) q.v = -q.v; return r; }

inline Times common(const Pwl& x, const Pwl& y) {
  Times ts; if (x.empty() || y.empty()) return ts;
  double b = std::max(x.b(), y.b()), e = std::min(x.e(), y.e());
  if (b > e) return ts;
  ts.push_back(b); ts.push_back(e);
  for (auto* s : {&x, &y}) for (auto& q : s->p) if (q.t > b && q.t < e) ts.push_back(q.t);
  norm(ts); return ts;
}
inline Times common_cross(const Pwl& x, const Pwl& y) {
  Times ts = common(x, y), c;
  for (size_t i = 0; i + 1 < ts.size(); i++) cross(c, ts[i], ts[i + 1], x.at(ts[i]), x.at(ts[i + 1]), y.at(ts[i]), y.at(ts[i + 1]));
  ts.insert(ts.end(), c.begin(), c.end()); norm(ts); return ts;
}
inline Pwl minmax(const Pwl& x, const Pwl& y, bool mx) {
  return build(common_cross(x, y), [&](double t) { return mx ? std::max(x.at(t), y.at(t)) : std::min(x.at(t), y.at(t)); });
}
/// sup/inf of x over [t+a, t+b], x held after its end.
inline double window_at(const Pwl& x, double t, double a, double b, bool mx) {
  auto better = [mx](double p, double q) { return mx ? std::max(p, q) : std::min(p, q); };
  double r = better(x.at(t + a), x.at(t + b));
  for (auto& q : x.p) if (q.t > t + a && q.t < t + b) r = better(r, q.v);
  return r;
}
/// The same functions for very long signals, in O(n log n); compared with the brute-force ones by C08, C09 and C10.
inline thread_local bool quick = false;
struct Quick { Quick() { quick = true; } ~Quick() { quick = false; } };
struct Extrema { // extremum of any range of samples
  bool mx; std::vector<std::vector<double>> m;
  Extrema(const Pwl& x, bool mx) : mx(mx) {
    m.emplace_back(); for (auto& q : x.p) m[0].push_back(q.v);
    for (size_t k = 1; (size_t(1) << k) <= x.p.size(); k++) { m.emplace_back(); for (size_t i = 0; i + (size_t(1) << k) <= x.p.size(); i++) m[k].push_back(pick(m[k - 1][i], m[k - 1][i + (size_t(1) << (k - 1))])); }
  }
  double pick(double p, double q) const { return mx ? std::max(p, q) : std::min(p, q); }
  double get(size_t i, size_t j) const { size_t k = 0; while ((size_t(2) << k) <= j - i) k++; return pick(m[k][i], m[k][j - (size_t(1) << k)]); } // samples i .. j-1
};
inline Pwl window_quick(const Pwl& x, double a, double b, bool mx) {
  Extrema ex(x, mx); double B = x.b(), E = x.e();
  auto inside = [&](double u, double w, double& r) { // extremum of the samples strictly between u and w
    auto i = std::upper_bound(x.p.begin(), x.p.end(), u, [](double t, const Pt& q) { return t < q.t; }), j = std::lower_bound(x.p.begin(), x.p.end(), w, [](const Pt& q, double t) { return q.t < t; });
    if (i >= j) return false;
    r = ex.get(size_t(i - x.p.begin()), size_t(j - x.p.begin())); return true;
  };
  Times ts{B, E}, c;
  for (auto& q : x.p) for (double d : {a, b}) if (q.t - d > B && q.t - d < E) ts.push_back(q.t - d);
  norm(ts);
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    double u = ts[i], w = ts[i + 1], m = (u + w) / 2, M;
    double a0 = x.at(u + a), a1 = x.at(w + a), b0 = x.at(u + b), b1 = x.at(w + b);
    cross(c, u, w, a0, a1, b0, b1);
    if (inside(m + a, m + b, M)) { cross(c, u, w, a0, a1, M, M); cross(c, u, w, b0, b1, M, M); }
  }
  ts.insert(ts.end(), c.begin(), c.end());
  return build(ts, [&](double t) { double r = ex.pick(x.at(t + a), x.at(t + b)), M; return inside(t + a, t + b, M) ? ex.pick(r, M) : r; });
}
inline Pwl window(const Pwl& x, double a, double b, bool mx) {
  if (x.empty()) return x;
  if (quick) return window_quick(x, a, std::isinf(b) || b > x.e() - x.b() ? std::max(a, x.e() - x.b()) : b, mx);
  double B = x.b(), E = x.e();
  if (b > E - B) b = std::max(a, E - B); // beyond that the window always reaches the end
  Times ts{B, E};
  for (auto& q : x.p) for (double d : {a, b}) if (q.t - d > B && q.t - d < E) ts.push_back(q.t - d);
  norm(ts); Times c;
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    double u = ts[i], w = ts[i + 1], m = (u + w) / 2;
    double a0 = x.at(u + a), a1 = x.at(w + a), b0 = x.at(u + b), b1 = x.at(w + b);
    cross(c, u, w, a0, a1, b0, b1);
    bool any = false; double M = 0;
    for (auto& q : x.p) if (q.t > m + a && q.t < m + b) { M = any ? (mx ? std::max(M, q.v) : std::min(M, q.v)) : q.v; any = true; }
    if (any) { cross(c, u, w, a0, a1, M, M); cross(c, u, w, b0, b1, M, M); }
  }
  ts.insert(ts.end(), c.begin(), c.end());
  return build(ts, [&](double t) { return window_at(x, t, a, b, mx); });
}
/// sup over t' in [t, end] of min(y(t'), inf over [t,t'] of x); ts = common sample times.
inline double until_at(const Pwl& x, const Pwl& y, const Times& ts, double t) {
  double best = -INF, inf = x.at(t);
  double u = t;
  best = std::min(y.at(t), inf);
  for (double w : ts) {
    if (w <= t) continue;
    double x0 = x.at(u), x1 = x.at(w), y0 = y.at(u), y1 = y.at(w);
    Times c{w};
    cross(c, u, w, x0, x1, y0, y1); cross(c, u, w, y0, y1, inf, inf); cross(c, u, w, x0, x1, inf, inf);
    for (double s : c) best = std::max(best, std::min({y.at(s), inf, x.at(s)}));
    inf = std::min(inf, x1); u = w;
  }
  return best;
}
/// From the end backwards: until at t decides within the piece that t is in, or in the rest if x lasts until then.
inline Pwl until_quick(const Pwl& x, const Pwl& y) {
  Times ts = common_cross(x, y); std::vector<Pt> r; double U = 0;
  for (size_t i = ts.size(); i--;) {
    double u = ts[i]; bool last = i + 1 == ts.size(); double w = last ? u : ts[i + 1];
    auto value = [&](double t) {
      if (last) return std::min(x.at(t), y.at(t));
      return std::max(until_at(x, y, {w}, t), std::min({x.at(t), x.at(w), U}));
    };
    if (!last) {
      Times c; double U_ = U;
      cross(c, u, w, y.at(u), y.at(w), U_, U_); cross(c, u, w, x.at(u), x.at(w), U_, U_);
      std::sort(c.begin(), c.end()); for (size_t k = c.size(); k--;) r.push_back({c[k], value(c[k])});
    }
    double v = value(u); r.push_back({u, v}); U = v;
  }
  std::reverse(r.begin(), r.end()); Pwl o; for (auto& q : r) o.push(q.t, q.v); return o;
}
inline Pwl until(const Pwl& x, const Pwl& y) {
  Times all = common(x, y); if (all.empty()) return {};
  if (quick) return until_quick(x, y);
  Times ts = common_cross(x, y), c;
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    double u = ts[i], w = ts[i + 1], U = until_at(x, y, all, w);
    cross(c, u, w, y.at(u), y.at(w), U, U); cross(c, u, w, x.at(u), x.at(w), U, U);
  }
  ts.insert(ts.end(), c.begin(), c.end());
  return build(ts, [&](double t) { return until_at(x, y, all, t); });
}

// ---- formulas --------------------------------------------------------------------------------
enum Op { TRUE_, FALSE_, GT, GE, LT, LE, NOT, AND, OR, IMPLIES, XOR, IFF, G, F, GI, FI, U };
struct Node;
using Fm = std::shared_ptr<const Node>;
struct Node { Op op; std::string name; double c = 0, a = 0, b = 0; bool integral = false; std::vector<Fm> k; };

inline Fm mk(Op o, std::vector<Fm> k = {}) { auto n = std::make_shared<Node>(); n->op = o; n->k = std::move(k); return n; }
inline Fm pred(std::string x, Op o, double c) { auto n = std::make_shared<Node>(); n->op = o; n->name = std::move(x); n->c = c; return n; }
inline Fm win(Op o, double a, double b, Fm k, bool integral = false) { auto n = std::make_shared<Node>(); n->op = o; n->a = a; n->b = b; n->integral = integral; n->k = {std::move(k)}; return n; }
inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); double r; for (int p = 1; p < 17; p++) { char s[40]; snprintf(s, 40, "%.*g", p, d); if (sscanf(s, "%lf", &r) == 1 && r == d) return s; } return b; }
inline std::string str(const Fm& f) {
  auto& n = *f; auto k = [&](size_t i) { return str(n.k[i]); };
  auto list = [&](const char* s) { std::string r = std::string("(") + s; for (auto& c : n.k) r += " " + str(c); return r + ")"; };
  switch (n.op) {
    case TRUE_: return "true"; case FALSE_: return "false";
    case GT: return "(> " + n.name + " " + num(n.c) + ")"; case GE: return "(>= " + n.name + " " + num(n.c) + ")";
    case LT: return "(< " + n.name + " " + num(n.c) + ")"; case LE: return "(<= " + n.name + " " + num(n.c) + ")";
    case NOT: return list("not"); case AND: return list("and"); case OR: return list("or");
    case IMPLIES: return list("implies"); case XOR: return list("xor"); case IFF: return list("iff");
    case G: return list("always"); case F: return list("eventually"); case U: return list("until");
    case GI: return "(always[" + num(n.a) + "," + num(n.b) + "] " + k(0) + ")";
    case FI: return "(eventually[" + num(n.a) + "," + num(n.b) + "] " + k(0) + ")";
  }
  return "?";
}
using Env = std::vector<std::pair<std::string, Pwl>>;
inline const Pwl& lookup(const Env& e, const std::string& n) { for (auto& p : e) if (p.first == n) return p.second; throw std::runtime_error("oracle: no signal"); }

inline Pwl rho(const Fm& f, const Env& env) {
  auto& n = *f; auto k = [&](size_t i) { return rho(n.k[i], env); };
  switch (n.op) {
    case TRUE_: case FALSE_: {
      double b = INF, e = -INF, v = n.op == TRUE_ ? INF : -INF;
      for (auto& s : env) { b = std::min(b, s.second.b()); e = std::max(e, s.second.e()); }
      Pwl r; r.push(b, v); r.push(e, v); return r;
    }
    case GT: case GE: { Pwl r = lookup(env, n.name); for (auto& q : r.p) q.v = q.v - n.c; return r; }
    case LT: case LE: { Pwl r = lookup(env, n.name); for (auto& q : r.p) q.v = n.c - q.v; return r; }
    case NOT: return neg(k(0));
    case AND: case OR: { Pwl r = k(0); for (size_t i = 1; i < n.k.size(); i++) r = minmax(r, k(i), n.op == OR); return r; }
    case IMPLIES: return minmax(neg(k(0)), k(1), true);
    case XOR: { Pwl a = k(0), b = k(1); return minmax(minmax(a, b, true), minmax(neg(a), neg(b), true), false); }
    case IFF: { Pwl a = k(0), b = k(1); return minmax(minmax(a, b, false), minmax(neg(a), neg(b), false), true); }
    case G: return window(k(0), 0, INF, false);
    case F: return window(k(0), 0, INF, true);
    case GI: return window(k(0), n.a, n.b, false);
    case FI: return window(k(0), n.a, n.b, true);
    case U: return until(k(0), k(1));
  }
  return {};
}
inline std::string str(const Pwl& x) {
  std::string r = "["; size_t n = x.p.size();
  for (size_t i = 0; i < n; i++) { if (n > 6000 && i == 300) { r += ", ..."; i = n - 100; } r += (r.size() > 1 ? ", (" : "(") + num(x.p[i].t) + ", " + num(x.p[i].v) + ")"; }
  return r + "]";
}
} // namespace ref
