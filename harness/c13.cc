// C13: robustness moves no more than the trace: all pairs of traces with the same sample times.
#include "rel.hpp"
using namespace alpha;
namespace stl = signal_tl;

namespace {
std::vector<Fm> formulas(bool th, Fm y) {
  auto x = x0(); auto o = ops_all();
  std::vector<Fm> atoms{x, y}, fs = atoms, l1 = level(atoms, o);
  fs.insert(fs.end(), l1.begin(), l1.end());
  std::vector<Fm> few{mk(AND, {x, y}), mk(OR, {y, x}), mk(U, {x, y}), win(FI, 0, 1, x), win(GI, 0.5, 1.5, y), mk(G, {x}), mk(NOT, {y})};
  auto l2 = level(few, o); fs.insert(fs.end(), l2.begin(), l2.end());
  fs.push_back(mk(XOR, {x, y})); fs.push_back(mk(IFF, {x, mk(F, {y})})); fs.push_back(mk(OR, {mk(AND, {x, mk(TRUE_)}), mk(G, {y}), mk(FALSE_)}));
  fs.push_back(mk(AND, {x, y, win(FI, 0.75, 1.25, y), mk(U, {y, x})})); fs.push_back(mk(U, {mk(TRUE_), x}));
  if (th) { auto l3 = level({mk(U, {win(FI, 0, 1, x), y}), win(GI, 0.5, 2, mk(OR, {x, y})), mk(G, {mk(IMPLIES, {x, win(FI, 0.25, 1, y)})})}, o); fs.insert(fs.end(), l3.begin(), l3.end()); }
  return fs;
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto down = std::make_shared<std::vector<Fm>>(formulas(th, P("y", LT, 0.5))), up = std::make_shared<std::vector<Fm>>(formulas(th, P("y", GT, -0.5)));
  auto fam = [=](const std::string& name, std::vector<double> tx, std::vector<double> ty, std::vector<double> vx, std::vector<double> vy, std::string b, double tol = 1e-7, bool rising = false) {
    auto fs = rising ? up : down;
    auto es = std::make_shared<std::vector<stl::ast::Expr>>(); for (auto& f : *fs) es->push_back(bind_::expr(f));
    DenseSpace sx{tx, vx}, sy{ty, vy}; u64 n = sx.size() * sy.size();
    // index = formula * n + first trace; every second trace is compared with it
    mc::family(name, fs->size() * n, [=](u64 i) {
      u64 k = i / n, a = i % n;
      struct Cache { const void* who = nullptr; u64 k = ~0ull; std::string units; std::vector<Pwl> r; std::vector<Env> e; };
      thread_local Cache c;
      const std::string f = ref::str((*fs)[k]);
      if (c.who != fs.get() || c.units != mc::units.name || c.k != k || c.r.size() != n || c.e[0][0].second.p.size() != tx.size() || c.e[0][0].second.p[0].t != tx[0] || c.e[n - 1][0].second.p.back().v != vx.back()) {
        c.who = fs.get(); c.k = k; c.units = mc::units.name; c.r.clear(); c.e.clear();
        for (u64 j = 0; j < n; j++) {
          Env env{{"x", {}}, {"y", {}}}; sx.get(j % sx.size(), env[0].second); sy.get(j / sx.size(), env[1].second);
          c.r.push_back(rel::eval((*es)[k], bind_::trace(env))); rel::well_formed(c.r.back(), f); c.e.push_back(std::move(env));
        }
      }
      if (mc::verbose) mc::desc("formula " + f + "  trace " + bind_::str(c.e[a]) + "  against all traces with the same sample times");
      mc::state(mc::mix(bind_::henv(c.e[a]), k));
      for (u64 j = a; j < n; j++) {
        double d = 0; for (int s = 0; s < 2; s++) for (size_t q = 0; q < c.e[a][s].second.p.size(); q++) d = std::max(d, std::fabs(c.e[a][s].second.p[q].v - c.e[j][s].second.p[q].v));
        auto bad = [&](const std::string& m) { mc::fail("formula " + f + ": " + m + ", but the traces differ by at most " + num(d) + "\n  trace 1 " + bind_::str(c.e[a]) + "\n  trace 2 " + bind_::str(c.e[j]) + "\n  robustness 1 " + ref::str(c.r[a]) + "\n  robustness 2 " + ref::str(c.r[j])); };
        if (c.r[a].empty() != c.r[j].empty()) bad("one robustness signal is empty");
        if (!c.r[a].empty() && (!bind_::near(c.r[a].b(), c.r[j].b(), 1e-7 * mc::units.loose) || !bind_::near(c.r[a].e(), c.r[j].e(), 1e-7 * mc::units.loose))) bad("the domains differ");
        rel::walk(c.r[a], c.r[j], [&](double t, double u, double v) { if (u != v && !(std::fabs(u - v) <= d + tol * mc::units.loose)) bad("robustness differs by " + num(std::fabs(u - v)) + " at time " + num(t)); });
        mc::trace();
      }
      mc::info("trace_pairs", n - a);
      return true;
    }, b + "; all pairs of the " + std::to_string(n) + " traces, " + std::to_string(fs->size()) + " formulas");
  };
  fam("async", {0, 1, 2.5}, {-0.5, 1, 3}, {-1, 0, 2}, {0, 1}, "x at 0, 1, 2.5 with 3 values, y at -0.5, 1, 3 with 2 values");
  fam("eps", {0, 1, 2, 3}, {0, 2, 3}, {0.25, 0.5}, {0.25, 1}, "x at 0..3 and y at 0, 2, 3 with two values each");
  const double o = 4294967296.0;
  // both operands the same way up, so that they are close together
  fam("far", {0, 1, 2.5}, {-0.5, 1, 3}, {o - 1, o, o + 2}, {o, o + 1}, "values around 2^32", far_tol, true);
  fam("far-wide", {0, 2}, {0, 1.5}, {o, o + 4, o + 9, o + 40, o + 50}, {o, o + 1, o + 5}, "values from 2^32 to 2^32 + 50", far_tol, true);
  if (th) fam("wide", {0, 1, 1.5, 3}, {0, 1, 3}, {-1, 0, 2}, {-1, 0.5, 1}, "x at 0, 1, 1.5, 3 and y at 0, 1, 3 with three values each");
  mc::each_units(bind_::unit_systems(th), [&] { fam("async", {0, 1, 2.5}, {-0.5, 1}, {-1, 0, 2}, {0, 1}, "x at 0, 1, 2.5 with 3 values, y at -0.5, 1 with 2 values"); });
}
