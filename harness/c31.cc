// C31: nesting operators does not multiply samples.  Every cyclic pattern of up to three one-hole contexts,
// repeated to growing depth, on a set of traces: the result never has more samples than a fixed multiple of
// trace samples x operators.
#include "bind.hpp"
#include "astr.hpp"
using mc::u64;
namespace stl = signal_tl;
using stl::ast::Expr;
using stl::signal::Signal;
using stl::signal::Trace;
namespace {
Expr X() { return stl::Predicate("x") >= 0.125; }
Expr Y() { return stl::Predicate("y") < 0.5; }
struct Ctx { const char* name; Expr (*f)(const Expr&); };
const std::vector<Ctx> ctx{
  {"not", [](const Expr& e) { return stl::Not(e); }},
  {"and x", [](const Expr& e) { return stl::And({e, X()}); }},
  {"or y", [](const Expr& e) { return stl::Or({Y(), e}); }},
  {"and 3", [](const Expr& e) { return stl::And({X(), stl::Not(e), Y()}); }},
  {"or 3", [](const Expr& e) { return stl::Or({stl::Not(X()), e, Y()}); }},
  {"always", [](const Expr& e) { return stl::Always(e); }},
  {"eventually", [](const Expr& e) { return stl::Eventually(e); }},
  {"always[0,0.5]", [](const Expr& e) { return stl::Always(e, {0.0, 0.5}); }},
  {"eventually[0.25,1]", [](const Expr& e) { return stl::Eventually(e, {0.25, 1.0}); }},
  {"eventually[0,inf]", [](const Expr& e) { return stl::Eventually(e, {0.0, INFINITY}); }},
  {"always[1,2]", [](const Expr& e) { return stl::Always(e, {1ull, 2ull}); }},
  {"until y", [](const Expr& e) { return stl::Until(e, Y()); }},
  {"x until", [](const Expr& e) { return stl::Until(X(), e); }},
  {"true until", [](const Expr& e) { return stl::Until(stl::Const(true), e); }},
  {"until not x", [](const Expr& e) { return stl::Until(e, stl::Not(X())); }},
};
/// an upper bound with plenty of room: at present results stay below 0.82 n (k + 1)
size_t bound(size_t n, size_t k) { return 3 * n * (k + 1); }
struct Shape { std::string name; Trace t; size_t n; };
Shape longer(int n) {
  std::vector<double> a, b, c, d; for (int i = 0; i < n; i++) { a.push_back(double((i * 7919) % 101) / 40 - 1.2); b.push_back(i * 0.25 + i % 3 * 0.0625); c.push_back(double((i * 5 + 1) % 37) / 16 - 0.9); d.push_back(i * 0.25 + i % 5 * 0.03125); }
  Shape s{"scrambled signals of " + std::to_string(n) + " samples", {}, size_t(2 * n)}; s.t["x"] = std::make_shared<Signal>(a, b); s.t["y"] = std::make_shared<Signal>(c, d); return s;
}
std::vector<Shape> shapes(bool th) {
  std::vector<Shape> r;
  auto add = [&](std::string name, std::function<double(int)> fx, int nx, double dx, std::function<double(int)> fy, int ny, double dy) { std::vector<double> a, b, c, d; for (int i = 0; i < nx; i++) { a.push_back(fx(i)); b.push_back(i * dx); } for (int i = 0; i < ny; i++) { c.push_back(fy(i)); d.push_back(i * dy); } Shape s{std::move(name), {}, size_t(nx + ny)}; s.t["x"] = std::make_shared<Signal>(a, b); s.t["y"] = std::make_shared<Signal>(c, d); r.push_back(std::move(s)); };
  add("zigzags", [](int i) { return i % 2 ? 1.0 + i * 0.0625 : -1.0; }, 9, 1, [](int i) { return i % 3 - 0.75; }, 12, 0.75);
  add("irregular", [](int i) { return double((i * 7 + 3) % 11) / 4 - 1.2; }, 13, 0.7, [](int i) { return double((i * 5 + 1) % 7) / 3 - 0.9; }, 10, 0.9);
  if (th) { add("two samples", [](int i) { return i ? 2 : -1; }, 2, 8, [](int i) { return i ? -1 : 1; }, 2, 8); add("sawteeth", [](int i) { return i % 4 * 0.7 - 1; }, 40, 0.25, [](int i) { return i % 5 ? i % 5 * -0.6 + 1 : -2.0; }, 33, 0.3); }
  return r;
}
} // namespace
void mc_register() {
  bool th = mc::thorough(); auto S = std::make_shared<std::vector<Shape>>(shapes(th)); u64 ns = S->size(), n = ctx.size();
  // long signals, less deep
  auto L = std::make_shared<std::vector<Shape>>(); for (int k : th ? std::vector<int>{100, 300, 700, 1500, 3000, 6000, 20000, 70001} : std::vector<int>{150, 1500, 12000}) L->push_back(longer(k));
  u64 nl = L->size();
  mc::family("long signals", nl * n * n, [=](u64 i) {
    auto& s = (*L)[i % nl]; int c[2] = {int(i / nl % n), int(i / nl / n)}; if (s.n > 5000 && c[0] != c[1] && !(c[0] == 8 || c[1] == 8)) return false;
    auto what = [&] { return std::string("contexts (") + ctx[c[0]].name + ", " + ctx[c[1]].name + ") repeated, on " + s.name; }; if (mc::verbose) mc::desc(what());
    Expr e = X(); size_t depth = 0; u64 h = 1;
    for (size_t d : {1, 2, 3, 4, 6, 8, 12, 16, 20}) {
      if (s.n > 50000 && d > 4) break;
      while (depth < d) { e = ctx[c[depth % 2]].f(e); depth++; }
      auto r = stl::compute_robustness(e, s.t); mc::transition(); mc::heartbeat(); size_t z = r->size(); h = mc::mix(h, z); if (getenv("C31_TOP") && z * 4 > s.n * (depth + 1)) fprintf(stderr, "%.3f %s depth %zu size %zu\n", double(z) / s.n / (depth + 1), what().c_str(), depth, z);
      if (z > bound(s.n, depth)) mc::fail(what() + " to depth " + std::to_string(depth) + " gives " + std::to_string(z) + " samples, from a trace of " + std::to_string(s.n) + " samples");
    }
    mc::state(mc::mix(h, i)); mc::outcome(h); mc::trace(); return true;
  }, "every cycle of 2 contexts to depth 20 on traces of " + std::to_string((*L)[0].n) + " to " + std::to_string(L->back().n) + " samples (beyond 5000: of one context, or with a bounded one)");
  for (int len = 1; len <= (th ? 4 : 3); len++) {
    u64 m = 1; for (int k = 0; k < len; k++) m *= n;
    mc::family("cycles-" + std::to_string(len), m * ns, [=](u64 i) {
      auto& s = (*S)[i % ns]; i /= ns; std::vector<int> c; for (int k = 0; k < len; k++) { c.push_back(i % n); i /= n; }
      auto what = [&] { std::string r; for (int k : c) r += std::string(r.empty() ? "" : ", ") + ctx[k].name; return "contexts (" + r + ") repeated, on " + s.name; }; if (mc::verbose) mc::desc(what());
      Expr e = X(); size_t depth = 0; u64 h = 1;
      for (size_t d : {2, 4, 6, 9, 12, 16, 20, th ? 40 : 28}) {
        while (depth < d) { e = ctx[c[depth % len]].f(e); depth++; }
        auto r = stl::compute_robustness(e, s.t); mc::transition(); size_t z = r->size(); h = mc::mix(h, z); static size_t top = 0; if (double(z) * 1000 / bound(s.n, depth) > top) { top = z * 1000 / bound(s.n, depth); if (getenv("C31_TOP")) fprintf(stderr, "%zu %s depth %zu size %zu\n", top, what().c_str(), depth, z); }
        if (z > bound(s.n, depth)) mc::fail(what() + " to depth " + std::to_string(depth) + " gives " + std::to_string(z) + " samples, from a trace of " + std::to_string(s.n) + " samples");
      }
      mc::state(mc::mix(h, i)); mc::outcome(h); mc::trace(); return true;
    }, "every cycle of " + std::to_string(len) + " of " + std::to_string(n) + " contexts to depth " + std::to_string(th ? 40 : 28) + ", " + std::to_string(ns) + " traces");
  }
}
