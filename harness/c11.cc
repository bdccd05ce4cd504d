// C11: nested formulas; compositionality (substituting a subformula by its robustness signal).
#include "alpha.hpp"
#include <set>
using namespace alpha;
namespace stl = signal_tl;

namespace {
using Un = std::function<Fm(Fm)>;
struct Named { std::string n; Un f; };
std::vector<Named> unaries() {
  auto y = y0();
  return {{"not", [](Fm f) { return mk(NOT, {f}); }}, {"G", [](Fm f) { return mk(G, {f}); }}, {"F", [](Fm f) { return mk(F, {f}); }},
          {"G[0,1]", [](Fm f) { return win(GI, 0, 1, f); }}, {"G[0.5,2]", [](Fm f) { return win(GI, 0.5, 2, f); }}, {"F[1,2]i", [](Fm f) { return win(FI, 1, 2, f, true); }}, {"F[.75,inf]", [](Fm f) { return win(FI, 0.75, INF, f); }}, {"F[0,.5]", [](Fm f) { return win(FI, 0, 0.5, f); }},
          {"and y", [y](Fm f) { return mk(AND, {f, y}); }}, {"y or", [y](Fm f) { return mk(OR, {y, f}); }}, {"U y", [y](Fm f) { return mk(U, {f, y}); }}, {"y U", [y](Fm f) { return mk(U, {y, f}); }},
          {"xor y", [y](Fm f) { return mk(XOR, {f, y}); }}, {"dup", [](Fm f) { return mk(OR, {mk(G, {f}), mk(AND, {f, mk(NOT, {f})})}); }}};
}
u64 key(const Pwl& x) { u64 h = 3; for (auto& q : x.p) { h = mc::mix(h, u64(llround(q.t * 1e6))); h = mc::mix(h, u64(llround(q.v * 1e6))); } return h; }
} // namespace

void mc_register() {
  bool th = mc::thorough();
  // 1. every formula up to depth 2 over two atoms
  std::vector<Fm> atoms{x0(), P("y", LT, 0.5)};
  auto ops = ops_all();
  auto l1 = level(atoms, ops);
  auto base = atoms; base.insert(base.end(), l1.begin(), l1.end());
  auto l2 = std::make_shared<std::vector<Fm>>(level(base, ops));
  auto depth2 = [=](const std::string& n, auto sx, auto sy, std::string b, bind_::Writing w = bind_::Writing::functions) {
    auto es = std::make_shared<std::vector<stl::ast::Expr>>(); for (auto& f : *l2) es->push_back(bind_::expr(f, w));
    u64 nt = sx.size() * sy.size();
    mc::family(n, nt * l2->size(), [=](u64 i) {
      u64 k = i % l2->size(), t = i / l2->size(); // neighbouring indices share the trace
      thread_local u64 last = ~0ull; thread_local Env env; thread_local stl::signal::Trace tr; thread_local bool ok; thread_local const void* owner = nullptr;
      if (last != t || owner != (const void*)l2.get()) {
        last = t; owner = (const void*)l2.get(); env = {{"x", {}}, {"y", {}}};
        ok = sx.get(t % sx.size(), env[0].second) && sy.get(t / sx.size(), env[1].second);
        if (ok) tr = bind_::trace(env);
      }
      if (!ok) return false;
      mc::state(mc::mix(bind_::henv(env), k));
      bind_::check_rho((*l2)[k], (*es)[k], env, tr);
      mc::trace(); return true;
    }, b + "; " + std::to_string(l2->size()) + " formulas: everything of depth 2 over two atoms, 7 unary and 4 binary constructors");
  };
  if (!th) depth2("depth2", DenseSpace{{0, 1, 2}, {-1, 2}}, DenseSpace{{0, 1.5, 2}, {-1, 1}}, "8 x 8 traces");
  else depth2("depth2", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 1.5, 2}, {-1, 1}}, "all pairs of two-valued sparse signals");
  // ... written with the operators
  if (!th) depth2("depth2-operators", DenseSpace{{0, 1, 2}, {-1, 2}}, DenseSpace{{0.5, 3}, {-1, 1}}, "8 x 4 traces, connectives written ~ & | >>", bind_::Writing::left);
  else depth2("depth2-operators", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 1.5, 2}, {-1, 1}}, "all pairs of two-valued sparse signals, connectives written ~ & | >>", bind_::Writing::left);
  std::vector<Fm> ops1{x0(), P("y", LT, 0.5), mk(NOT, {y0()}), mk(G, {x0()}), win(FI, 0.5, 1.5, y0()), mk(U, {x0(), y0()}), P("x", GT, 1), mk(AND, {x0(), y0()}), mk(OR, {y0(), P("x", LE, 1)}), mk(IMPLIES, {x0(), y0()})};
  u64 o1 = ops1.size();
  mc::family("operators", 32 * o1 * o1 * o1 * 7, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; u64 c = i / (o1 * o1 * o1 * 7), j = i % (o1 * o1 * o1 * 7);
    DenseSpace{{0, 1, 2}, {-1, 2}}.get(c % 8, env[0].second); DenseSpace{{0.5, 1.5}, {-1, 1}}.get(c / 8, env[1].second);
    Fm a = ops1[j % o1], b = ops1[j / o1 % o1], d = ops1[j / o1 / o1 % o1], f;
    switch (j / (o1 * o1 * o1)) {
      case 0: f = mk(AND, {a, b, d}); break; case 1: f = mk(OR, {a, b, d}); break; case 2: f = mk(AND, {mk(OR, {a, b}), d}); break; case 3: f = mk(OR, {mk(AND, {a, b}), d}); break;
      case 4: f = mk(IMPLIES, {mk(AND, {a, b}), mk(NOT, {d})}); break; case 5: f = mk(XOR, {mk(OR, {a, b}), d}); break; default: f = mk(U, {mk(OR, {a, b}), mk(AND, {mk(NOT, {a}), d})}); break;
    }
    auto tr = bind_::trace(env); mc::state(mc::mix(bind_::henv(env), j));
    for (auto w : {bind_::Writing::left, bind_::Writing::right}) bind_::check_rho(f, bind_::expr(f, w), env, tr);
    mc::trace(); return true;
  }, "7 combinations of any three of 10 operands, written with the operators and grouped to the left and to the right, on 8 x 4 traces");
  // 2. every chain of operators
  auto un = unaries(); u64 m = un.size();
  auto chains = [=](const std::string& n, int depth, auto sx, auto sy, std::string b, double tol = 1e-7) {
    u64 c = 1; for (int d = 0; d < depth; d++) c *= m;
    u64 nt = sx.size() * sy.size();
    mc::family(n, c * nt, [=](u64 i) {
      Env env{{"x", {}}, {"y", {}}}; u64 t = i / c, k = i % c;
      if (!sx.get(t % sx.size(), env[0].second) || !sy.get(t / sx.size(), env[1].second)) return false;
      Fm f = x0(); for (int d = 0; d < depth; d++) { f = un[k % m].f(f); k /= m; }
      auto tr = bind_::trace(env); mc::state(mc::mix(bind_::henv(env), i % c));
      bind_::check_rho(f, bind_::expr(f), env, tr, tol);
      mc::trace(); return true;
    }, b + "; every chain of " + std::to_string(depth) + " of 14 one-hole contexts");
  };
  chains("chain3", 3, DenseSpace{{0, 1, 2.5, 3}, {-1, 2}}, DenseSpace{{0, 1, 3}, {0, 1}}, "16 x 8 traces");
  if (th) chains("chain4", 4, DenseSpace{{0, 1, 2.5, 3}, {-1, 2}}, DenseSpace{{0, 1, 3}, {0, 1}}, "16 x 8 traces");
  else chains("chain4", 4, DenseSpace{{0, 1, 2.5, 3}, {-1, 2}}, DenseSpace{{0, 3}, {0, 1}}, "16 x 4 traces");
  // ... every formula of depth 3 over five operators
  Ops o5; o5.un = {ops.un[0], ops.un[1], [](Fm f) { return win(FI, 0.5, 1.5, f); }}; o5.bin = {ops.bin[0], ops.bin[2]};
  auto d2 = std::make_shared<std::vector<Fm>>(atoms); { auto a1 = level(atoms, o5), b1 = atoms; b1.insert(b1.end(), a1.begin(), a1.end()); auto a2 = level(b1, o5); d2->insert(d2->end(), a2.begin(), a2.end()); }
  auto de = std::make_shared<std::vector<stl::ast::Expr>>(); for (auto& f : *d2) de->push_back(bind_::expr(f));
  u64 dn = d2->size(), d3 = 3 * dn + 2 * dn * dn;
  std::vector<Env> d3t{{{"x", Pwl{{{0, 1}, {1, -1}, {2.5, 2}, {3, -2}}}}, {"y", Pwl{{{0, -0.5}, {2, 1.5}, {3, 0}}}}}};
  d3t.push_back({{"x", Pwl{{{0, -1}, {2, 2}, {3, 0.5}}}}, {"y", Pwl{{{-1, 2}, {0.5, -1}, {1, 1}, {4, 1}}}}}); d3t.push_back({{"x", Pwl{{{0, 2}, {3, -1}}}}, {"y", Pwl{{{0, -1}, {3, 2}}}}}); d3t.push_back({{"x", Pwl{{{0.5, 1}, {1, 1}, {2, 0}, {2.25, 3}}}}, {"y", Pwl{{{0, 0}, {1.5, 1}, {2, 0.75}}}}});
  mc::family("depth3", d3 * d3t.size(), [=](u64 i) {
    auto& env = d3t[i / d3]; u64 k = i % d3; Fm f; stl::ast::Expr e;
    if (k < 3 * dn) { u64 j = k % dn; f = o5.un[k / dn]((*d2)[j]); e = k / dn == 0 ? stl::Not((*de)[j]) : k / dn == 1 ? stl::Always((*de)[j]) : stl::Eventually((*de)[j], bind_::interval(*f)); }
    else { k -= 3 * dn; u64 a = k % dn, b = k / dn % dn; bool un = k / dn / dn; f = o5.bin[un]((*d2)[a], (*d2)[b]); e = un ? stl::Until((*de)[a], (*de)[b]) : stl::And({(*de)[a], (*de)[b]}); }
    mc::state(mc::mix(i, 3)); bind_::check_rho(f, e, env, bind_::trace(env)); mc::trace(); return true;
  }, std::to_string(d3) + " formulas: everything of depth 3 over two atoms, 3 unary and 2 binary constructors, on " + std::to_string(d3t.size()) + " trace(s)");
  // 3. closure: breadth-first search over signals; states are robustness signals, transitions contexts
  auto closure = [=](const std::string& n, int depth, u64 cap, auto sx, std::vector<Pwl> ys, std::string b) {
    mc::family(n, sx.size() * ys.size(), [=](u64 i) {
      Pwl start; if (!sx.get(i % sx.size(), start)) return false;
      const Pwl& yv = ys[i / sx.size()];
      struct St { Fm f; Pwl s; };
      std::vector<St> frontier{{x0(), start}}; std::set<u64> seen{key(start)};
      Env orig{{"x", start}, {"y", yv}}; auto otr = bind_::trace(orig);
      if (mc::verbose) mc::desc("closure from " + bind_::str(orig));
      for (int d = 0; d < depth; d++) {
        std::vector<St> nxt;
        for (auto& st : frontier) for (auto& u : un) {
          mc::heartbeat();
          Fm whole = u.f(st.f), step = u.f(pred("s", GE, 0));
          Env env{{"s", st.s}, {"y", yv}}; auto tr = bind_::trace(env);
          auto r1 = stl::compute_robustness(bind_::expr(step), tr); mc::transition();
          auto what = [&] { return "context " + u.n + " on s = " + ref::str(st.s) + ", y = " + ref::str(yv); };
          Pwl want = ref::rho(step, env);
          try { bind_::same(r1, want, "step", 1e-6); } catch (mc::Violation& v) { mc::fail(what() + "\n" + v.msg); }
          auto r2 = stl::compute_robustness(bind_::expr(whole), otr); mc::transition();
          Pwl got1 = bind_::pwl(*r1);
          try { bind_::same(r2, got1, "nested formula against substituted signal", 1e-6); } catch (mc::Violation& v) { mc::fail("formula " + ref::str(whole) + " on " + bind_::str(orig) + "; " + what() + "\n" + v.msg); }
          mc::trace(); mc::outcome(bind_::hsig(*r1));
          if (seen.size() < cap && seen.insert(key(got1)).second) { nxt.push_back({whole, got1}); mc::state(mc::mix(key(got1), key(yv))); }
        }
        frontier = std::move(nxt); if (frontier.empty()) break;
      }
      if (seen.size() >= cap) mc::info("closures_capped", 1); else mc::info("closures_complete", 1);
      return true;
    }, b + ", depth " + std::to_string(depth) + ", at most " + std::to_string(cap) + " signals each");
  };
  std::vector<Pwl> ys{Pwl{{{0, 1}, {1, -1}, {2.5, 0.5}, {3, 0.5}}}, Pwl{{{0.5, -0.5}, {2, 2}}}};
  closure("closure", th ? 4 : 3, th ? 4000 : 400, DenseSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, ys, "signals reachable by applying operators to s >= 0 from 81 signals");
  // 4. shared subformula objects (the same Expr in several places)
  SigSpace s{{0, 1, 2, 3}, {-1, 0, 2}};
  mc::family("shared", s.size() * 6, [=](u64 i) {
    Env env{{"x", {}}}; if (!s.get(i % s.size(), env[0].second)) return false;
    auto tr = bind_::trace(env); mc::state(mc::mix(bind_::henv(env), i / s.size()));
    Fm f = x0(); auto e = bind_::expr(f);
    switch (i / s.size()) {
      case 0: for (int d = 0; d < 4; d++) { f = mk(AND, {f, mk(F, {f})}); e = stl::And({e, stl::Eventually(e)}); } break;
      case 1: for (int d = 0; d < 4; d++) { f = mk(U, {f, mk(NOT, {f})}); e = stl::Until(e, stl::Not(e)); } break;
      case 2: for (int d = 0; d < 3; d++) { f = mk(OR, {f, win(GI, 0.5, 1, f), f}); e = stl::Or({e, stl::Always(e, {0.5, 1.0}), e}); } break;
      case 3: f = mk(U, {f, f}); e = stl::Until(e, e); f = mk(AND, {f, f, f}); e = stl::And({e, e, e}); break;
      case 4: { auto g = stl::Eventually(e); auto fg = mk(F, {f}); f = mk(AND, {mk(G, {fg}), mk(NOT, {mk(G, {mk(NOT, {fg})})}), fg}); e = stl::And({stl::Always(g), stl::Not(stl::Always(stl::Not(g))), g}); break; }
      case 5: for (int d = 0; d < 4; d++) { f = mk(XOR, {f, P("x", LT, 1)}); e = stl::Xor(e, bind_::expr(P("x", LT, 1))); } break;
    }
    bind_::check_rho(f, e, env, tr); mc::trace(); return true;
  }, "formula graphs sharing subformula objects, up to 4 levels of doubling");
  // the same operator applied many times
  std::vector<int> deep{5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257};
  mc::family("deep", deep.size() * un.size() * 12, [=](u64 i) {
    int d = deep[i % deep.size()]; auto& u = un[i / deep.size() % un.size()]; u64 t = i / deep.size() / un.size();
    if (u.n == "dup" || u.n == "xor y") d = std::min(d, 6); // doubles
    Env env{{"x", Pwl{{{0, double(t % 3) - 1}, {1, 2}, {2.5, -1}, {3, double(t % 4)}}}}, {"y", Pwl{{{0, 0.5}, {1, t % 2 ? -1.0 : 1.0}, {3, 0}}}}};
    Fm f = x0(); for (int k = 0; k < d; k++) { f = u.f(f); if (t >= 6 && k % 5 == 4) f = mk(NOT, {f}); }
    mc::state(mc::mix(i, d)); auto tr = bind_::trace(env);
    bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::trace(); return true;
  }, "one operator applied 5 to 257 times, with and without negations in between");
  // 5. three signals, asynchronous
  SigSpace s3{{0, 1, 2.5}, {-1, 2}};
  auto z = pred("z", GE, 0), x = x0(), y = y0();
  std::vector<Fm> f3{mk(U, {mk(AND, {x, y}), mk(OR, {z, win(FI, 0, 1, x)})}), mk(G, {mk(IMPLIES, {x, win(FI, 0.5, 1.5, mk(AND, {y, z}))})}), mk(F, {mk(AND, {win(GI, 0, 1, x), mk(NOT, {y}), mk(U, {y, z})})}), mk(IFF, {mk(G, {mk(OR, {x, y, z})}), mk(F, {z})}),
                     mk(OR, {mk(AND, {x, mk(NOT, {z})}), mk(AND, {y, mk(F, {z})}), win(GI, 1, 2, mk(XOR, {x, z}))})};
  mc::family("three", s3.size() * s3.size() * s3.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}, {"z", {}}}; u64 q = s3.size();
    if (!s3.get(i % q, env[0].second) || !s3.get(i / q % q, env[1].second) || !s3.get(i / q / q, env[2].second)) return false;
    for (auto& p : env[1].second.p) p.t += 0.25; for (auto& p : env[2].second.p) p.t -= 0.5;
    if (ref::common(env[0].second, env[1].second).empty() || ref::common(ref::minmax(env[0].second, env[1].second, true), env[2].second).empty() || ref::common(env[1].second, env[2].second).empty()) return false; // C16 covers empty domains
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : f3) bind_::check_rho(f, bind_::expr(f), env, tr);
    mc::trace(); return true;
  }, "three asynchronous signals");
  chains("far", th ? 3 : 2, far(DenseSpace{{0, 1, 2.5, 3}, {-1, 2}}), far(DenseSpace{{0, 1, 3}, {0, 1}}), "16 x 8 traces with values around 2^32", far_tol);
  mc::each_units(bind_::unit_systems(th), [&] {
    chains("chain2", 2, DenseSpace{{0, 1, 2.5, 3}, {-1, 2}}, DenseSpace{{0, 1, 3}, {0, 1}}, "16 x 8 traces");
    if (th) chains("chain3", 3, DenseSpace{{0, 1, 2.5}, {-1, 2}}, DenseSpace{{0, 1, 3}, {0, 1}}, "8 x 8 traces");
  });
}
