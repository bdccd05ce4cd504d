// C12: sign of robustness against an independent Boolean dense-time monitor (interval sets).
#include "alpha.hpp"
using namespace alpha;
namespace stl = signal_tl;

namespace {
/// Boolean signal: truth at each breakpoint and on each open interval between breakpoints.
struct B {
  std::vector<double> t; std::vector<char> at, in; // in[i]: (t[i], t[i+1])
  char val(double u) const { // held beyond the end
    if (u >= t.back()) return at.back();
    if (u <= t.front()) return at.front();
    size_t i = size_t(std::upper_bound(t.begin(), t.end(), u) - t.begin()) - 1;
    return t[i] == u ? at[i] : in[i];
  }
  char mid(double u, double w) const { return val(u + (w - u) / 2); }
};
B make(Times ts, const std::function<char(double)>& f) {
  norm(ts); B b; b.t = ts;
  for (size_t i = 0; i < ts.size(); i++) { b.at.push_back(f(ts[i])); if (i + 1 < ts.size()) b.in.push_back(f(ts[i] + (ts[i + 1] - ts[i]) / 2)); }
  return b;
}
Times merge(const B& a, const B& b) {
  double lo = std::max(a.t.front(), b.t.front()), hi = std::min(a.t.back(), b.t.back());
  Times r{lo, hi}; for (auto* q : {&a, &b}) for (double t : q->t) if (t > lo && t < hi) r.push_back(t);
  norm(r); return r;
}
B bool_sat(const Fm& f, const Env& env) {
  auto& n = *f; auto k = [&](size_t i) { return bool_sat(n.k[i], env); };
  auto bin = [&](const B& a, const B& b, std::function<char(char, char)> g) { return make(merge(a, b), [&](double t) { return g(a.val(t), b.val(t)); }); };
  auto neg = [](B b) { for (auto& c : b.at) c = !c; for (auto& c : b.in) c = !c; return b; };
  auto evt = [](const B& p, double a, double b) {
    double s = p.t.front(), e = p.t.back(); Times ts{s, e};
    for (double t : p.t) for (double d : {a, b}) if (t - d > s && t - d < e) ts.push_back(t - d);
    return make(ts, [&](double t) -> char { // is p true somewhere in [t+a, t+b]?
      double u = t + a, w = t + b;
      if (p.val(u) || p.val(w)) return 1;
      for (size_t i = 0; i < p.t.size(); i++) {
        if (p.t[i] >= u && p.t[i] <= w && p.at[i]) return 1;
        if (i + 1 < p.t.size() && p.in[i] && std::max(p.t[i], u) < std::min(p.t[i + 1], w)) return 1;
      }
      return 0;
    });
  };
  switch (n.op) {
    case TRUE_: case FALSE_: { double b = INF, e = -INF; for (auto& s : env) { b = std::min(b, s.second.b()); e = std::max(e, s.second.e()); } return make({b, e}, [&](double) { return char(n.op == TRUE_); }); }
    case GT: case GE: case LT: case LE: {
      const Pwl& x = lookup(env, n.name); Times ts;
      for (size_t i = 0; i < x.p.size(); i++) { ts.push_back(x.p[i].t); if (i + 1 < x.p.size()) cross(ts, x.p[i].t, x.p[i + 1].t, x.p[i].v, x.p[i + 1].v, n.c, n.c); }
      return make(ts, [&](double t) -> char { double v = x.at(t); return n.op == GT ? v > n.c : n.op == GE ? v >= n.c : n.op == LT ? v < n.c : v <= n.c; });
    }
    case NOT: return neg(k(0));
    case AND: case OR: { B r = k(0); for (size_t i = 1; i < n.k.size(); i++) r = bin(r, k(i), [&](char p, char q) -> char { return n.op == AND ? p && q : p || q; }); return r; }
    case IMPLIES: return bin(k(0), k(1), [](char p, char q) -> char { return !p || q; });
    case XOR: return bin(k(0), k(1), [](char p, char q) -> char { return p != q; });
    case IFF: return bin(k(0), k(1), [](char p, char q) -> char { return p == q; });
    case F: return evt(k(0), 0, INF);
    case G: return neg(evt(neg(k(0)), 0, INF));
    case FI: return evt(k(0), n.a, n.b);
    case GI: return neg(evt(neg(k(0)), n.a, n.b));
    case U: {
      B p = k(0), q = k(1); Times ts = merge(p, q);
      return make(ts, [&](double t) -> char { // exists t' >= t: q(t') and p on [t, t']
        if (!p.val(t)) return 0;
        if (q.val(t)) return 1;
        double u = t;
        for (double w : ts) {
          if (w <= t) continue;
          if (!p.mid(u, w)) return 0;   // p fails right after u (truth is constant on the open interval)
          if (q.mid(u, w)) return 1;
          if (!p.val(w)) return 0;
          if (q.val(w)) return 1;
          u = w;
        }
        return 0;
      });
    }
  }
  std::abort();
}
void check(const Fm& f, const stl::ast::Expr& e, const Env& env, const stl::signal::Trace& tr) {
  if (mc::verbose) mc::desc("formula " + ref::str(f) + "  trace " + bind_::str(env));
  auto out = stl::compute_robustness(e, tr); mc::transition();
  B b = bool_sat(f, env);
  Pwl r = bind_::pwl(*out);
  if (r.empty()) mc::fail("empty robustness signal");
  u64 pos = 0, neg = 0;
  auto at = [&](double t) {
    double v = r.at(t);
    if (std::isnan(v)) mc::fail("NaN robustness at " + num(t));
    if (v > 1e-6 * mc::units.loose) { pos++; if (!b.val(t)) mc::fail("robustness " + num(v) + " at " + num(t) + " but the formula is violated; robustness " + ref::str(r)); }
    if (v < -1e-6 * mc::units.loose) { neg++; if (b.val(t)) mc::fail("robustness " + num(v) + " at " + num(t) + " but the formula is satisfied; robustness " + ref::str(r)); }
  };
  Times ts; for (auto& q : r.p) ts.push_back(q.t);
  for (double t : b.t) if (t >= r.b() && t <= r.e()) ts.push_back(t);
  norm(ts);
  for (size_t i = 0; i < ts.size(); i++) { at(ts[i]); if (i + 1 < ts.size()) { at(ts[i] + (ts[i + 1] - ts[i]) * 0.37); at(ts[i] + (ts[i + 1] - ts[i]) * 0.81); } }
  mc::info("instants_satisfied", pos); mc::info("instants_violated", neg);
  mc::outcome(bind_::hsig(*out));
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  std::vector<Fm> atoms{P("x", GT, 0.25), P("y", LT, 0.5)};
  Ops o;
  o.un = {[](Fm f) { return mk(NOT, {f}); }, [](Fm f) { return mk(G, {f}); }, [](Fm f) { return mk(F, {f}); }, [](Fm f) { return win(GI, 0.5, 1, f); }, [](Fm f) { return win(FI, 1, 2, f, true); }};
  o.bin = {[](Fm f, Fm g) { return mk(AND, {f, g}); }, [](Fm f, Fm g) { return mk(OR, {f, g}); }, [](Fm f, Fm g) { return mk(U, {f, g}); }};
  auto l1 = level(atoms, o); auto base = atoms; base.insert(base.end(), l1.begin(), l1.end());
  auto l2 = level(base, o);
  auto fam = [](const std::string& n, auto sx, auto sy, std::vector<Fm> fs, std::string b) {
    fs = bind_::writable(fs);
    auto es = std::make_shared<std::vector<stl::ast::Expr>>(); for (auto& f : fs) es->push_back(bind_::expr(f));
    auto l = std::make_shared<std::vector<Fm>>(fs);
    mc::family(n, sx.size() * sy.size() * fs.size(), [=](u64 i) {
      u64 k = i % l->size(), t = i / l->size(); Env env{{"x", {}}, {"y", {}}};
      if (!sx.get(t % sx.size(), env[0].second) || !sy.get(t / sx.size(), env[1].second)) return false;
      if (ref::common(env[0].second, env[1].second).empty()) return false; // C16 covers empty domains
      mc::state(mc::mix(bind_::henv(env), k));
      check((*l)[k], (*es)[k], env, bind_::trace(env)); mc::trace(); return true;
    }, b + "; " + std::to_string(fs.size()) + " formulas");
  };
  fam("depth1", DenseSpace{{0, 1, 2}, {-1, 0, 2}}, DenseSpace{{0, 0.5, 2}, {-1, 0.25, 3}}, l1, "three samples, three values each");
  fam("depth2", DenseSpace{{0, 1, 2}, {-1, 2}}, DenseSpace{{0, 1.5, 2}, {-1, 1}}, l2, "three samples, two values each");
  std::vector<Fm> one{mk(G, {atoms[0]}), mk(F, {atoms[0]}), win(GI, 0.5, 1.5, atoms[0]), win(FI, 0, 1, atoms[0]), win(FI, 1, INF, atoms[0]), win(GI, 0, 3, mk(NOT, {atoms[0]})), mk(U, {atoms[0], P("x", LT, 1)}), mk(U, {P("x", LT, 1), atoms[0]}), mk(OR, {atoms[0], P("x", LE, -0.5)}), mk(XOR, {atoms[0], P("x", LT, 1)}), mk(IFF, {mk(F, {atoms[0]}), mk(G, {P("x", LT, 1)})}), mk(IMPLIES, {atoms[0], win(FI, 0.5, 1, P("x", LE, 0))}), mk(AND, {mk(TRUE_), atoms[0]}), mk(U, {mk(TRUE_), atoms[0]}), mk(G, {win(FI, 0, 1, atoms[0])}), win(GI, 0, 1, mk(F, {atoms[0]})), mk(U, {win(GI, 0, 0.5, P("x", LT, 1)), mk(G, {atoms[0]})})};
  fam("long", DenseSpace{{0, 1, 2, 3, 4, 5}, {-1, 0.5, 2}}, DenseSpace{{0, 5}, {1}}, one, "six samples, three values");
  fam("binary", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1}}, DenseSpace{{0, 8}, {1}}, one, "nine samples, two values");
  fam("sparse", SigSpace{{0, 0.5, 2, 3}, {-1, 0, 2}}, SigSpace{{0, 1, 3}, {-1, 1}}, {l1[10], l1[11], mk(U, {atoms[1], atoms[0]}), mk(AND, {mk(F, {atoms[0]}), mk(G, {atoms[1]})}), mk(G, {mk(IMPLIES, {atoms[0], mk(F, {atoms[1]})})}), mk(U, {mk(NOT, {atoms[0]}), mk(AND, {atoms[0], atoms[1]})})}, "asynchronous signals (common domains only)");
  if (th) {
    fam("depth2b", DenseSpace{{0, 1, 2, 3}, {-1, 0, 2}}, DenseSpace{{0, 1.5, 3}, {-1, 1}}, l2, "four samples, three values");
    fam("long7", DenseSpace{{0, 1, 2, 3, 4, 5, 6}, {-1, 0.5, 2}}, DenseSpace{{0, 6}, {1}}, one, "seven samples");
  }
  mc::each_units(bind_::unit_systems(th), [&] {
    fam("depth1", DenseSpace{{0, 1, 2}, {-1, 0, 2}}, DenseSpace{{0, 0.5, 2}, {-1, 0.25, 3}}, l1, "three samples, three values each");
    fam("depth2", DenseSpace{{0, 1, 2}, {-1, 2}}, DenseSpace{{0, 1.5, 2}, {-1, 1}}, l2, "three samples, two values each");
    fam("long", DenseSpace{{0, 1, 2, 3}, {-1, 0.5, 2}}, DenseSpace{{0, 3}, {1}}, one, "four samples, three values");
  });
}
