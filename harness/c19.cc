// C19: unsupported and ill-posed requests, at every position of a formula; interval construction.
#include "astr.hpp"
#include "rel.hpp"
using namespace alpha;
namespace stl = signal_tl;
using stl::ast::Expr;
using ull = unsigned long long;

namespace {
struct Ctx { std::string n; std::function<Expr(Expr)> f; };
std::vector<Ctx> contexts() {
  Expr x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5;
  using namespace stl;
  auto g = Eventually(x, {0.0, 1.0});
  return {
      {"not _", [](Expr h) { return Expr(std::make_shared<ast::Not>(h)); }},
      {"_ and y", [y](Expr h) { return And({h, y}); }}, {"x and _", [x](Expr h) { return And({x, h}); }}, {"false and y and _", [y](Expr h) { return And({Const(false), y, h}); }},
      {"_ or true", [](Expr h) { return Or({h, Const(true)}); }}, {"true or _", [](Expr h) { return Or({Const(true), h}); }}, {"x or _ or y", [x, y](Expr h) { return Or({x, h, y}); }},
      {"G _", [](Expr h) { return Always(h); }}, {"F _", [](Expr h) { return Eventually(h); }}, {"G[0,1] _", [](Expr h) { return Always(h, {0.0, 1.0}); }}, {"F[1,2] _", [](Expr h) { return Eventually(h, {ull(1), ull(2)}); }}, {"F[.5,inf) _", [](Expr h) { return Eventually(h, {0.5, INF}); }},
      {"_ U y", [y](Expr h) { return Until(h, y); }}, {"x U _", [x](Expr h) { return Until(x, h); }}, {"false U _", [](Expr h) { return Until(Const(false), h); }},
      {"_ implies y", [y](Expr h) { return Implies(h, y); }}, {"y implies _", [y](Expr h) { return Implies(y, h); }}, {"xor", [x](Expr h) { return Xor(x, h); }}, {"iff", [y](Expr h) { return Iff(h, y); }},
      {"_ & x", [x](Expr h) { return h & x; }}, {"x | _", [x](Expr h) { return x | h; }}, {"shared", [g](Expr h) { return And({Or({h, g}), Or({h, Not(h)})}); }},
  };
}
enum Kind { OK, NOTIMPL, ERROR };
struct Bad { std::string n; Kind k; std::function<Expr()> f; };
std::vector<Bad> bads() {
  using namespace stl;
  Expr x = Predicate("x") >= 0, y = Predicate("y") < 0.5;
  return {
      {"well posed: x", OK, [=] { return x; }}, {"well posed: x U[0,inf] y", OK, [=] { return Until(x, y, {0.0, INF}); }}, {"well posed: F[2,2] y", OK, [=] { return Eventually(y, {ull(2), ull(2)}); }},
      {"x U[1,2] y", NOTIMPL, [=] { return Until(x, y, {1.0, 2.0}); }}, {"x U[0,2] y", NOTIMPL, [=] { return Until(x, y, {0.0, 2.0}); }}, {"x U[0.5,inf) y", NOTIMPL, [=] { return Until(x, y, {0.5, INF}); }}, {"x U[0,3] y integral", NOTIMPL, [=] { return Until(x, y, {ull(0), ull(3)}); }}, {"y U[0,0] y", NOTIMPL, [=] { return Until(y, y, {ull(0), ull(0)}); }}, {"true U[0,1e300] x", NOTIMPL, [=] { return Until(Const(true), x, {0.0, 1e300}); }}, {"x U[5e-324,inf) true", NOTIMPL, [=] { return Until(x, Const(true), {5e-324, INF}); }}, {"x U[0,100] y (longer than the trace)", NOTIMPL, [=] { return Until(x, y, {0.0, 100.0}); }},
      {"missing signal", ERROR, [=] { return Predicate("nosuch") > 0; }}, {"missing signal with a prefix of a name", ERROR, [=] { return Predicate("") > 0; }}, {"missing signal, other case", ERROR, [=] { return Predicate("X") <= 0; }},
      {"G[3,1] x", ERROR, [=] { return Always(x, {ull(3), ull(1)}); }}, {"F[1,0] x", ERROR, [=] { return Eventually(x, {ull(1), ull(0)}); }}, {"x U[2,1] y", ERROR, [=] { return Until(x, y, {ull(2), ull(1)}); }}, {"G[1000,999] true", ERROR, [=] { return Always(Const(true), {ull(1000), ull(999)}); }},
  };
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto cs = std::make_shared<std::vector<Ctx>>(contexts()); auto bs = std::make_shared<std::vector<Bad>>(bads());
  std::vector<Env> traces{{{"x", Pwl{{{0, 1}, {1, -1}, {3, 2}}}}, {"y", Pwl{{{0, 0}, {2, 1}, {3, 0}}}}}, {{"x", Pwl{{{1, 0.5}}}}, {"y", Pwl{{{1, 0.25}}}}}, {{"x", Pwl{{{0, 1}, {1, 1}}}}, {"y", Pwl{{{2, 0}, {3, 1}}}}}, {{"x", Pwl{{{0.5, 1}, {1, -1}, {1.5, 1}}}}, {"y", Pwl{{{0, 0}, {4, 1}}}}}};
  u64 nc = cs->size(), nb = bs->size(), nt = traces.size();
  for (int depth = 0; depth <= (th ? 4 : 3); depth++) {
    u64 n = 1; for (int d = 0; d < depth; d++) n *= nc;
    mc::family("position-depth" + std::to_string(depth), n * nb * nt, [=](u64 i) {
      auto& env = traces[i % nt]; auto& b = (*bs)[i / nt % nb]; u64 c = i / nt / nb; std::string n;
      std::string path; { u64 k = c; for (int d = 0; d < depth; d++) { path += (d ? " in " : "") + (*cs)[k % nc].n; k /= nc; } }
      auto what = [&] { return b.n + " in context " + path + " on " + bind_::str(env); };
      if (mc::verbose) mc::desc(what());
      bool built = false, thrown = false, ni = false; std::string msg; stl::signal::SignalPtr out;
      try {
        Expr e = b.f(); u64 k = c; for (int d = 0; d < depth; d++) { e = (*cs)[k % nc].f(e); k /= nc; }
        built = true; mc::transition(depth + 1);
        out = stl::compute_robustness(e, bind_::trace(env)); mc::transition();
      } catch (const stl::not_implemented_error& e) { thrown = ni = true; msg = e.what(); } catch (const std::exception& e) { thrown = true; msg = e.what(); }
      if (b.k == OK && thrown) mc::fail(what() + " fails: " + msg);
      if (b.k == NOTIMPL && !ni) mc::fail(what() + (thrown ? " reports something else than 'not implemented': " + msg : " gives a value: " + bind_::str(*out)));
      if (b.k == ERROR && !thrown) mc::fail(what() + " gives a value: " + bind_::str(*out));
      (void)built; mc::state(i); mc::outcome(mc::mix(thrown, ni)); mc::trace(); return true;
    }, "3 well posed and " + std::to_string(nb - 3) + " ill-posed requests in every chain of " + std::to_string(depth) + " of " + std::to_string(nc) + " one-hole contexts, 4 traces (single sample and disjoint domains included)");
  }
  // a name that the trace lacks, beside operands that could settle the result without it
  std::vector<Expr> ops{stl::Const(true), stl::Const(false), stl::Predicate("x") >= 0, stl::Predicate("x") < -100, stl::Always(stl::Const(false)), stl::Not(stl::Const(true)), stl::Predicate("zz") > 0, stl::Eventually(stl::Predicate("zz") > 0, {0.0, 1.0}), stl::Not(stl::Predicate("") <= 0), stl::Until(stl::Predicate("x") > 0, stl::Predicate("xx") > 0)};
  std::vector<Env> mt{{{"x", Pwl{{{0, 1}, {1, -1}, {3, 2}}}}}, {{"x", Pwl{{{1, 0.5}}}}}, {{"x", Pwl{{{0, -1}, {3, 1}}}}, {"y", Pwl{{{0, 0}, {2, 1}, {3, 0}}}}}, {{"a", Pwl{{{0, 1}, {3, 1}}}}, {"x", Pwl{{{0, 1}, {3, 1}}}}, {"zzz", Pwl{{{1, 1}, {2, 1}}}}}, {{"x", Pwl{{{0, INF}, {3, INF}}}}}};
  u64 no = ops.size(), nm = mt.size();
  mc::family("missing-beside", 7 * no * no * no * nm * 5, [=](u64 i) {
    auto& env = mt[i % nm]; u64 c = i / nm; u64 a = c % no, b = c / no % no, d = c / no / no % no, how = c / no / no / no % 7, out = c / no / no / no / 7;
    bool miss = a > 5 || b > 5 || (how < 4 && d > 5); if (how >= 4 && d) return false;
    Expr e = how == 0 ? stl::And({ops[a], ops[b], ops[d]}) : how == 1 ? stl::Or({ops[a], ops[b], ops[d]}) : how == 2 ? stl::Or({stl::And({ops[a], ops[b]}), ops[d]}) : how == 3 ? stl::And({ops[a], stl::Or({ops[b], ops[d]})}) : how == 4 ? stl::Until(ops[a], ops[b]) : how == 5 ? stl::And({ops[a], ops[b]}) : stl::Or({ops[a], ops[b]});
    e = out == 0 ? e : out == 1 ? stl::Always(e) : out == 2 ? stl::Eventually(e, {10.0, 20.0}) : out == 3 ? stl::Or({stl::Const(true), e}) : stl::Until(stl::Const(false), e);
    auto what = [&] { return astr::str(e) + " on " + bind_::str(env); }; if (mc::verbose) mc::desc(what());
    bool thrown = false; std::string msg; stl::signal::SignalPtr r; try { r = stl::compute_robustness(e, bind_::trace(env)); } catch (const std::exception& x) { thrown = true; msg = x.what(); }
    mc::transition(); mc::state(i); mc::trace(); mc::outcome(thrown);
    if (miss && !thrown) mc::fail(what() + " names a signal that the trace lacks and gives a value: " + bind_::str(*r));
    if (!miss && thrown) mc::fail(what() + " fails: " + msg);
    return true;
  }, "7 combinations of up to 3 of 10 operands (4 with a name that the trace lacks; constants and hopeless comparisons among the others), 5 surroundings, 5 traces of 1 to 3 signals");
  // intervals
  std::vector<double> g{-INF, -1, -5e-324, -0.0, 0.0, 5e-324, 0.1, 0.5, std::nextafter(0.5, 1), 1, 2, 4294967296.0, 1e308, INF, std::nan("")};
  mc::family("interval-real", g.size() * g.size() * 4, [=](u64 i) {
    u64 how = i % 4; double a = g[i / 4 % g.size()], b = g[i / 4 / g.size()]; bool valid = a >= 0 && b > a;
    auto what = [&] { return "interval [" + num(a) + ", " + num(b) + "]"; }; if (mc::verbose) mc::desc(what());
    bool thrown = false; stl::ast::Interval iv;
    Expr x = stl::Predicate("x") > 0;
    try {
      stl::ast::Interval t(a, b); mc::transition();
      switch (how) {
        case 0: iv = t; break;
        case 1: iv = std::get<stl::ast::AlwaysPtr>(stl::Always(x, t))->interval; break;
        case 2: iv = std::get<stl::ast::EventuallyPtr>(stl::Eventually(x, {a, b}))->interval; break;
        case 3: iv = std::get<stl::ast::UntilPtr>(stl::Until(x, x, {a, b}))->interval; break;
      }
    } catch (const std::exception&) { thrown = true; }
    if (thrown == valid) mc::fail(what() + (valid ? " is rejected" : " is accepted"));
    if (valid) {
      auto [p, q] = iv.as_double(); bool all = a == 0 && b == INF;
      if (p != a || q != b) mc::fail(what() + " reports back " + num(p) + ", " + num(q));
      if (iv.is_zero_to_inf() != all || iv.has_value() == all) mc::fail(what() + " is taken for " + (all ? "bounded" : "[0, infinity)"));
    }
    mc::state(i); mc::outcome(mc::mix(valid, how)); mc::trace(); return true;
  }, "all pairs of 15 bounds, alone and inside the three operators");
  std::vector<ull> h{0, 1, 2, 3, 1000, (1ull << 24) + 1, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, (1ull << 32) + 1, 1234567890123ull, (1ull << 53) - 1, 1ull << 53, (1ull << 63) - 1, 1ull << 63, ~0ull};
  mc::family("interval-integral", h.size() * h.size(), [=](u64 i) {
    ull a = h[i % h.size()], b = h[i / h.size()]; if (mc::verbose) mc::desc("integral interval [" + std::to_string(a) + ", " + std::to_string(b) + "]");
    mc::state(i); mc::trace();
    bool thrown = false; std::pair<double, double> v; bool z = false, hv = true;
    auto tr = bind_::trace({{"x", Pwl{{{0, 1}, {1, -1}, {3, 2}}}}}); Expr x = stl::Predicate("x") > 0;
    for (int op = 0; op < 2; op++) {
      thrown = false;
      try { stl::ast::Interval t(a, b); v = t.as_double(); z = t.is_zero_to_inf(); hv = t.has_value(); (void)stl::compute_robustness(op ? stl::Always(x, t) : stl::Eventually(x, t), tr); mc::transition(2); } catch (const std::exception&) { thrown = true; }
      if (thrown != (b < a)) mc::fail("integral interval [" + std::to_string(a) + ", " + std::to_string(b) + (thrown ? "] is rejected" : "] is accepted"));
    }
    if (b >= a && (v.first != double(a) || v.second != double(b) || z || !hv)) mc::fail("integral interval [" + std::to_string(a) + ", " + std::to_string(b) + "] reports other bounds or [0, infinity)");
    mc::outcome(thrown); return true;
  }, "all pairs of 16 integral bounds");
  // until with every interval: only [0, infinity) may give a value, that of until without interval
  std::vector<double> ug{-0.0, 5e-324, 1e-300, 1e-9, 0.5, 1, 2, 3, 7, 1e9, 1e300, INF}; std::vector<ull> uh{0, 1, 2, 3, 7, 1ull << 32, 1ull << 53, (1ull << 63) - 1, 1ull << 63, ~0ull};
  auto ux = std::make_shared<std::vector<Expr>>(std::vector<Expr>{stl::Predicate("x") >= 0, stl::Predicate("y") < 0.5, stl::Const(true), stl::Const(false), stl::Always(stl::Predicate("x") > 0), stl::Until(stl::Predicate("x") > 0, stl::Predicate("y") > 0)});
  u64 nr = ug.size() * ug.size(), ni = uh.size() * uh.size(), nx = ux->size();
  mc::family("until-intervals", (nr + ni) * nx * nx * nt, [=](u64 i) {
    auto& env = traces[i % nt]; Expr p = (*ux)[i / nt % nx], q = (*ux)[i / nt / nx % nx]; u64 k = i / nt / nx / nx; bool real = k < nr; stl::ast::Interval iv; double a, b;
    if (real) { a = ug[k % ug.size()]; b = ug[k / ug.size()]; if (!(a < b)) return false; iv = stl::ast::Interval(a, b); }
    else { k -= nr; ull m = uh[k % uh.size()], n = uh[k / uh.size()]; if (n < m) return false; iv = stl::ast::Interval(m, n); a = double(m); b = double(n); }
    auto what = [&] { return "(" + astr::str(p) + ") until [" + num(a) + ", " + num(b) + "]" + (real ? "" : " (integral)") + " (" + astr::str(q) + ") on " + bind_::str(env); };
    if (mc::verbose) mc::desc(what());
    bool thrown = false, notimpl = false; std::string msg; stl::signal::SignalPtr out; auto tr = bind_::trace(env);
    try { out = stl::compute_robustness(stl::Until(p, q, iv), tr); } catch (const stl::not_implemented_error& e) { thrown = notimpl = true; msg = e.what(); } catch (const std::exception& e) { thrown = true; msg = e.what(); }
    mc::transition(); mc::state(i); mc::trace(); mc::outcome(mc::mix(thrown, notimpl));
    if (a == 0 && b == INF) {
      if (thrown) mc::fail(what() + " fails: " + msg);
      bind_::same(out, bind_::pwl(*stl::compute_robustness(stl::Until(p, q), tr)), what().c_str());
    } else if (!notimpl) mc::fail(what() + (thrown ? " reports something else than 'not implemented': " + msg : " gives a value: " + bind_::str(*out)));
    return true;
  }, "until with every real interval over 12 bounds and every integral one over 10, 6 x 6 operands, 4 traces");
  mc::family("default-interval", 1, [](u64) {
    stl::ast::Interval d; Expr x = stl::Predicate("x") > 0; mc::transition(4); mc::state(1); mc::trace();
    auto chk = [](const stl::ast::Interval& d) { auto [a, b] = d.as_double(); if (a != 0 || b != INF || !d.is_zero_to_inf() || d.has_value()) mc::fail("the interval of an operator without one is not [0, infinity)"); };
    chk(d); chk(std::get<stl::ast::AlwaysPtr>(stl::Always(x))->interval); chk(std::get<stl::ast::EventuallyPtr>(stl::Eventually(x))->interval); chk(std::get<stl::ast::UntilPtr>(stl::Until(x, x))->interval); return true;
  });
  mc::family("few-operands", 2 * 3 * 8, [](u64 i) {
    std::vector<Expr> ops{stl::Const(true), stl::Const(false), stl::Predicate("x") > 0, stl::Not(stl::Predicate("x") > 0), stl::And({stl::Predicate("x") > 0, stl::Predicate("y") > 0}), stl::Or({stl::Predicate("x") > 0, stl::Predicate("y") > 0}), stl::Always(stl::Predicate("x") > 0), stl::Until(stl::Predicate("x") > 0, stl::Predicate("y") > 0)};
    bool conj = i % 2; u64 n = i / 2 % 3; std::vector<Expr> v; for (u64 k = 0; k < n; k++) v.push_back(ops[(i / 6 + k) % 8]);
    if (mc::verbose) mc::desc(std::string(conj ? "and" : "or") + " of " + std::to_string(n) + " operands");
    for (int raw = 0; raw < 2; raw++) {
      bool thrown = false;
      try { if (conj) { if (raw) stl::ast::And{v}; else (void)stl::And(v); } else { if (raw) stl::ast::Or{v}; else (void)stl::Or(v); } } catch (const std::exception&) { thrown = true; }
      mc::transition(); if (thrown != (n < 2)) mc::fail(std::string(conj ? "and" : "or") + " of " + std::to_string(n) + " operands is " + (thrown ? "rejected" : "accepted"));
    }
    mc::state(i); mc::trace(); return true;
  }, "0, 1 and 2 operands of every kind");
}
