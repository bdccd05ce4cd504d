// C16: evaluation of well-posed formulas always yields a well-formed signal on the common domain.
#include "rel.hpp"
using namespace alpha;
namespace stl = signal_tl;
using stl::ast::Expr;

namespace {
#if defined(__SANITIZE_ADDRESS__)
constexpr bool san = true;
#else
constexpr bool san = false;
#endif
struct Dom { bool none = true; double b = 0, e = 0; };
Dom meet(Dom p, Dom q) { if (p.none || q.none) return {}; Dom r{false, std::max(p.b, q.b), std::min(p.e, q.e)}; if (r.b > r.e) return {}; return r; }
Dom domain(const Fm& f, const Env& env) {
  if (f->op == TRUE_ || f->op == FALSE_) { Dom r{false, INF, -INF}; for (auto& s : env) { r.b = std::min(r.b, s.second.b()); r.e = std::max(r.e, s.second.e()); } return r; }
  if (f->op <= LE) { auto& x = lookup(env, f->name); return {false, x.b(), x.e()}; }
  Dom r = domain(f->k[0], env); for (size_t i = 1; i < f->k.size(); i++) r = meet(r, domain(f->k[i], env)); return r;
}
void check(const Fm& f, const Expr& e, const Env& env, const stl::signal::Trace& tr) {
  stl::signal::SignalPtr out;
  auto where = [&] { return "formula " + ref::str(f) + " on " + bind_::str(env); };
  try { out = stl::compute_robustness(e, tr); } catch (const std::exception& x) { mc::fail(where() + ": evaluation failed: " + x.what()); }
  mc::transition();
  if (!out) mc::fail(where() + ": null signal");
  Pwl g = bind_::pwl(*out); Dom d = domain(f, env);
  for (size_t i = 0; i < g.p.size(); i++) {
    if (!std::isfinite(g.p[i].t) || std::isnan(g.p[i].v)) mc::fail(where() + ": non-finite time or NaN value in " + ref::str(g));
    if (i && !(g.p[i].t > g.p[i - 1].t)) mc::fail(where() + ": times not strictly increasing in " + ref::str(g));
  }
  if (d.none != g.empty()) mc::fail(where() + (d.none ? ": the operands share no instant, but the result is " : ": empty or partial result ") + ref::str(g));
  if (!d.none && (g.b() != d.b || g.e() != d.e)) mc::fail(where() + ": domain of " + ref::str(g) + " is not [" + num(d.b) + ", " + num(d.e) + "]");
  mc::outcome(bind_::hsig(*out));
}
std::vector<Fm> formulas(bool deep) {
  auto x = pred("x", GE, 0), y = pred("y", LT, 0.1), x2 = pred("x", LE, 1.0 / 3), T = mk(TRUE_), B = mk(FALSE_);
  std::vector<Fm> fs{x, mk(NOT, {y}), mk(AND, {x, y}), mk(OR, {x, y}), mk(AND, {y, x, x2}), mk(OR, {x2, y, x, y}), mk(IMPLIES, {x, y}), mk(XOR, {x, y}), mk(IFF, {x2, y}), mk(G, {x}), mk(F, {y}), mk(U, {x, y}), mk(U, {y, x2}),
    win(GI, 0, 0.1, x), win(FI, 0.1, 0.3, x), win(FI, 1.0 / 3, 0.7, y), win(GI, 0.2, INF, x2), win(FI, 1, 1, x, true), win(GI, 0, 1e9, x), win(FI, 5e-324, 1e-300, x), win(GI, 1e-17, 0.1, y), win(FI, 1e300, INF, x),
    mk(AND, {T, x}), mk(OR, {x, T}), mk(AND, {x, B}), mk(U, {T, y}), mk(U, {x, T}), mk(U, {B, x}), mk(U, {x, B}), mk(G, {T}), win(FI, 0.1, 0.2, B), mk(NOT, {mk(OR, {T, B})}), mk(OR, {mk(AND, {T, mk(G, {B})}), x})};
  if (deep) for (auto& f : std::vector<Fm>{mk(F, {mk(AND, {x, y})}), mk(G, {mk(U, {x, y})}), mk(U, {mk(OR, {x, y}), mk(XOR, {x2, y})}), win(FI, 0.1, 0.2, mk(AND, {x, y})), win(GI, 0.1, 0.3, win(FI, 0.2, 0.7, mk(OR, {x2, y}))), mk(U, {win(FI, 0, 0.1, x), mk(G, {y})}), mk(AND, {mk(U, {x, y}), mk(U, {y, x})}), mk(XOR, {mk(U, {x, y}), win(GI, 0.1, 1.0 / 3, x)}),
      mk(IFF, {mk(XOR, {x, y}), mk(XOR, {y, x2})}), mk(OR, {mk(AND, {x, y}), mk(AND, {mk(NOT, {x}), mk(NOT, {y})})}), mk(U, {mk(AND, {x, x2}), mk(U, {y, x})}), mk(G, {mk(IMPLIES, {x, win(FI, 0, 0.3, y)})}), win(FI, 0.1, INF, mk(U, {x, win(GI, 0, 0.2, y)})), mk(AND, {mk(OR, {x, y}), mk(OR, {x2, mk(NOT, {y})}), mk(F, {x})})}) fs.push_back(f);
  return fs;
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto fs = formulas(true); auto few = formulas(false);
  auto go = [](const std::string& name, std::vector<Fm> fl, auto sx, auto sy, std::string b) {
    auto es = std::make_shared<std::vector<Expr>>(); for (auto& f : fl) es->push_back(bind_::expr(f));
    mc::family(name, sx.size() * sy.size(), [=](u64 i) {
      Env env{{"x", {}}, {"y", {}}};
      if (!sx.get(i % sx.size(), env[0].second) || !sy.get(i / sx.size(), env[1].second)) return false;
      auto tr = bind_::trace(env); mc::state(bind_::henv(env));
      if (mc::verbose) mc::desc("trace " + bind_::str(env));
      for (size_t k = 0; k < fl.size(); k++) check(fl[k], (*es)[k], env, tr);
      mc::trace(); return true;
    }, b + "; " + std::to_string(fl.size()) + " formulas each");
  };
  double u = std::nextafter(0.1, 1), d3 = 0.1 + 0.2;
  // domains: every way two sparse signals can overlap, touch or miss
  go("domains", fs, SigSpace{{0.1, 0.2, 0.3, 0.7}, {-1, 1}}, SigSpace{{0.1, 0.2, d3, 0.7}, {0, 0.2}}, "every pair of sparse signals over times 0.1, 0.2, 0.3 / 0.1+0.2, 0.7 (0.3 and 0.1+0.2 differ in the last bit)");
  // values one ulp apart
  std::vector<double> nearv{0.1, u, std::nextafter(0.1, 0)};
  go("near-values", fs, DenseSpace{{0, 0.1, 0.3}, nearv}, DenseSpace{{0, 0.1, 0.3}, {0.0, -1e-17, std::nextafter(0.0, 1), 1e-17}}, "values one ulp apart on three shared samples");
  go("near-cross", fs, DenseSpace{{0.1, 0.3, 0.7}, san ? std::vector<double>{0, 0.1, u} : std::vector<double>{0, 0.1, u, 1.0 / 3, -0.1}}, DenseSpace{{0.1, d3, 0.7}, {0, 0.1, u}}, "crossings at and next to samples");
  // instants one ulp apart
  double t1 = std::nextafter(1.0, 2), t2 = std::nextafter(t1, 2), t0 = std::nextafter(1.0, 0);
  go("near-times", few, SigSpace{{t0, 1, t1, t2}, {-1, 0.1, 1.0 / 3}}, SigSpace{{0.5, 1, t2}, {0, 0.1, 1}}, "sample times one ulp apart");
  if (!san || th) go("near-times-deep", fs, DenseSpace{{t0, 1, t1, t2}, {-1, 0.1, 1.0 / 3}}, DenseSpace{{0.5, t1, t2}, {0, 0.1, 1}}, "sample times one ulp apart");
  // far-off times and magnitudes
  double off = 1e9 + 0.1;
  go("offset", fs, DenseSpace{{off, off + 0.1, off + 0.3}, {-0.1, 0.1, 1.0 / 3}}, DenseSpace{{off - 0.7, off + 0.2, off + 0.3}, {0, 0.1, 0.7}}, "times around 1e9");
  go("magnitude", fs, DenseSpace{{-1e6, 0.1, 1e12}, {-1e100, 1e-300, 3e15 + 0.5}}, DenseSpace{{-1e6, 1, 1e12}, {-1e-100, 0.1, 1e16}}, "magnitudes from 1e-300 to 1e100");
  go("tiny-times", few, DenseSpace{{-1e-300, 0, 3e-300}, {0, 1e-5, -1e-5}}, DenseSpace{{-1e-299, 0, 5e-301, 1e-300}, {0, 1e-3}}, "minute times (slopes stay finite)");
  go("zeros", few, DenseSpace{{-0.0, 0.5, 1}, {0.0, -0.0}}, DenseSpace{{0.0, 0.5, 1}, {0.1, -0.0}}, "signed zeros");
  // dense grid of rational slopes
  std::vector<double> r{0.1, 0.2, d3, 1.0 / 3, 0.7, -0.1};
  go("rational", few, DenseSpace{{0, 0.1, 1.0 / 3}, r}, DenseSpace{{0, 0.2, 1.0 / 3}, san ? std::vector<double>{0.1, 0.7} : r}, "inexact slopes and crossings");
  if (th) go("rational4", fs, DenseSpace{{0, 0.1, 0.2, 1.0 / 3}, r}, DenseSpace{{-0.1, 0.15, 0.2, 0.3}, {0.1, 0.7, 1.0 / 3, -0.1}}, "inexact slopes and crossings, four samples");
  // long inexact signals
  using L = Affine<LongSpace>;
  auto lx = L{LongSpace{}, 0.1, 1.0 / 3, 0.7, -0.1}, ly = L{LongSpace{}, -0.3, 0.3, 0.1, 1.0 / 30};
  struct Diag { L x; int k; u64 size() const { return 1; } bool get(u64, Pwl& o) const { return x.get(u64(k), o); } };
  for (int k = 0; k < (th ? 40 : 3); k++) go("long" + std::to_string(k), fs, lx, Diag{ly, k * 7 + 2}, "inexact signals of 40 and 150 samples");
  // three signals with partly missing overlaps
  auto x = pred("x", GE, 0), y = pred("y", LT, 0.1), z = pred("z", GT, 1.0 / 3);
  std::vector<Fm> f3{mk(AND, {x, y, z}), mk(OR, {z, x, y}), mk(AND, {mk(OR, {x, y}), z}), mk(U, {mk(AND, {x, y}), z}), mk(U, {z, mk(U, {x, y})}), mk(XOR, {mk(AND, {x, z}), y}), win(FI, 0.1, 0.3, mk(AND, {x, mk(OR, {y, z})})), mk(OR, {mk(G, {mk(AND, {x, y})}), mk(TRUE_), z}), mk(NOT, {mk(AND, {win(GI, 0, 0.2, mk(U, {x, z})), y})}), mk(F, {mk(IFF, {mk(AND, {y, z}), x})}), mk(TRUE_), mk(AND, {mk(TRUE_), z})};
  SigSpace s3{{0.1, 0.2, 0.3, 0.7}, {-1, 0.1}};
  auto e3 = std::make_shared<std::vector<Expr>>(); for (auto& f : f3) e3->push_back(bind_::expr(f));
  mc::family("three", s3.size() * s3.size() * s3.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}, {"z", {}}}; u64 q = s3.size();
    if (san && !th && i % 7) return false;
    if (!s3.get(i % q, env[0].second) || !s3.get(i / q % q, env[1].second) || !s3.get(i / q / q, env[2].second)) return false;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    if (mc::verbose) mc::desc("trace " + bind_::str(env));
    for (size_t k = 0; k < f3.size(); k++) check(f3[k], (*e3)[k], env, tr);
    mc::trace(); return true;
  }, san && !th ? "every seventh triple of sparse signals over 4 instants (all of them in the other variant)" : "all triples of sparse signals over 4 instants, 12 formulas");
}
