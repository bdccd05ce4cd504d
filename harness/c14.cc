// C14: logical laws between the library's own answers; window monotonicity.
#include "rel.hpp"
using namespace alpha;
namespace stl = signal_tl;
using stl::ast::Expr;

namespace {
struct Law { std::string n; bool same_domain; std::function<std::pair<Expr, Expr>(const Expr&, const Expr&, const Expr&)> f; };
Expr A(std::vector<Expr> v) { return stl::And(std::move(v)); }
Expr O(std::vector<Expr> v) { return stl::Or(std::move(v)); }
Expr N(const Expr& e) { return std::make_shared<stl::ast::Not>(e); } // not folded
Expr T() { return stl::Const(true); }
Expr B() { return stl::Const(false); }
std::vector<Law> laws() {
  using namespace stl;
  using ull = unsigned long long;
#define LAW_(name, sd, l, r) {name, sd, [](const Expr& p, const Expr& q, const Expr& r_) { (void)p; (void)q; (void)r_; return std::pair<Expr, Expr>{l, r}; }}
#define LAW(name, ...) LAW_(name, false, __VA_ARGS__)
#define LAWD(name, ...) LAW_(name, true, __VA_ARGS__)
  std::vector<Law> v{
      LAW("not not p = p", N(N(p)), p), LAW("~~p = p", ~~p, p),
      LAW("De Morgan and", N(A({p, q})), O({N(p), N(q)})), LAW("De Morgan or", N(O({p, q})), A({N(p), N(q)})), LAW("De Morgan and 3", N(A({p, q, r_})), O({N(p), N(q), N(r_)})),
      LAW("and commutes", A({p, q}), A({q, p})), LAW("or commutes", O({p, q}), O({q, p})), LAW("and permutes", A({p, q, r_}), A({r_, p, q})), LAW("or permutes", O({p, q, r_}), O({r_, q, p})),
      LAW("and associates", A({A({p, q}), r_}), A({p, A({q, r_})})), LAW("and flattens", A({p, q, r_}), A({p, A({q, r_})})), LAW("or associates", O({O({p, q}), r_}), O({p, O({q, r_})})), LAW("or flattens", O({p, q, r_}), O({O({p, q}), r_})),
      LAW("& is And", (p & q) & r_, A({p, q, r_})), LAW("| is Or", (p | q) | r_, O({p, q, r_})), LAW("& associates", (p & q) & r_, p & (q & r_)), LAW("| associates", (p | q) | r_, p | (q | r_)),
      LAW("and idempotent", A({p, p}), p), LAW("or idempotent", O({p, p, p}), p), LAW("absorption and", A({p, O({p, q})}), p), LAW("absorption or", O({p, A({p, q})}), p),
      LAW("distribute and", A({p, O({q, r_})}), O({A({p, q}), A({p, r_})})), LAW("distribute or", O({p, A({q, r_})}), A({O({p, q}), O({p, r_})})),
      LAW("F dual", N(Eventually(p)), Always(N(p))), LAW("G dual", N(Always(p)), Eventually(N(p))), LAW("F[.5,2] dual", N(Eventually(p, {0.5, 2.0})), Always(N(p), {0.5, 2.0})), LAW("G[0,1] dual", N(Always(p, {ull(0), ull(1)})), Eventually(N(p), {0.0, 1.0})), LAW("G[1,inf] dual", N(Always(p, {1.0, INF})), Eventually(N(p), {1.0, INF})),
      LAW("Not F dual", stl::Not(Eventually(p)), Always(stl::Not(p))),
      LAW("Not G dual", stl::Not(Always(p)), Eventually(stl::Not(p))),
      LAW("Not G is Not", stl::Not(Always(p)), N(Always(p))),
      LAW("Not F is Not", stl::Not(Eventually(p)), N(Eventually(p))),
      LAW("Not F[.5,2] dual", stl::Not(Eventually(p, {0.5, 2.0})), Always(stl::Not(p), {0.5, 2.0})),
      LAW("Not G[.5,2] dual", stl::Not(Always(p, {0.5, 2.0})), Eventually(stl::Not(p), {0.5, 2.0})),
      LAW("Not G[.5,2] is Not", stl::Not(Always(p, {0.5, 2.0})), N(Always(p, {0.5, 2.0}))),
      LAW("Not F[.5,2] is Not", stl::Not(Eventually(p, {0.5, 2.0})), N(Eventually(p, {0.5, 2.0}))),
      LAW("Not F[0,1] dual", stl::Not(Eventually(p, {ull(0), ull(1)})), Always(stl::Not(p), {ull(0), ull(1)})),
      LAW("Not G[0,1] dual", stl::Not(Always(p, {ull(0), ull(1)})), Eventually(stl::Not(p), {ull(0), ull(1)})),
      LAW("Not G[0,1] is Not", stl::Not(Always(p, {ull(0), ull(1)})), N(Always(p, {ull(0), ull(1)}))),
      LAW("Not F[0,1] is Not", stl::Not(Eventually(p, {ull(0), ull(1)})), N(Eventually(p, {ull(0), ull(1)}))),
      LAW("Not F[1,inf] dual", stl::Not(Eventually(p, {1.0, INF})), Always(stl::Not(p), {1.0, INF})),
      LAW("Not G[1,inf] dual", stl::Not(Always(p, {1.0, INF})), Eventually(stl::Not(p), {1.0, INF})),
      LAW("Not G[1,inf] is Not", stl::Not(Always(p, {1.0, INF})), N(Always(p, {1.0, INF}))),
      LAW("Not F[1,inf] is Not", stl::Not(Eventually(p, {1.0, INF})), N(Eventually(p, {1.0, INF}))),
      LAW("Not F[0,inf] dual", stl::Not(Eventually(p, {0.0, INF})), Always(stl::Not(p), {0.0, INF})),
      LAW("Not G[0,inf] dual", stl::Not(Always(p, {0.0, INF})), Eventually(stl::Not(p), {0.0, INF})),
      LAW("Not G[0,inf] is Not", stl::Not(Always(p, {0.0, INF})), N(Always(p, {0.0, INF}))),
      LAW("Not F[0,inf] is Not", stl::Not(Eventually(p, {0.0, INF})), N(Eventually(p, {0.0, INF}))),
      LAW("Not F[1,1] dual", stl::Not(Eventually(p, {ull(1), ull(1)})), Always(stl::Not(p), {ull(1), ull(1)})),
      LAW("Not G[1,1] dual", stl::Not(Always(p, {ull(1), ull(1)})), Eventually(stl::Not(p), {ull(1), ull(1)})),
      LAW("Not G[1,1] is Not", stl::Not(Always(p, {ull(1), ull(1)})), N(Always(p, {ull(1), ull(1)}))),
      LAW("Not F[1,1] is Not", stl::Not(Eventually(p, {ull(1), ull(1)})), N(Eventually(p, {ull(1), ull(1)}))),
      LAW("Not and", stl::Not(A({p, q})), N(A({p, q}))),
      LAW("Not or", stl::Not(O({p, q, r_})), N(O({p, q, r_}))),
      LAW("Not until", stl::Not(Until(p, q)), N(Until(p, q))),
      LAW("Not twice", stl::Not(stl::Not(p)), p),
      LAW("Not thrice", stl::Not(stl::Not(stl::Not(Always(p, {1.0, INF})))), Eventually(stl::Not(p), {1.0, INF})),
      LAW("Not implies", stl::Not(Implies(p, q)), A({p, N(q)})),
      LAW("Not iff", stl::Not(Iff(p, q)), Xor(p, q)),
      LAW("Not predicate", stl::Not(p), N(p)),
      LAW("~ F dual", ~(Eventually(p)), Always(~(p))),
      LAW("~ G dual", ~(Always(p)), Eventually(~(p))),
      LAW("~ G is Not", ~(Always(p)), N(Always(p))),
      LAW("~ F is Not", ~(Eventually(p)), N(Eventually(p))),
      LAW("~ F[.5,2] dual", ~(Eventually(p, {0.5, 2.0})), Always(~(p), {0.5, 2.0})),
      LAW("~ G[.5,2] dual", ~(Always(p, {0.5, 2.0})), Eventually(~(p), {0.5, 2.0})),
      LAW("~ G[.5,2] is Not", ~(Always(p, {0.5, 2.0})), N(Always(p, {0.5, 2.0}))),
      LAW("~ F[.5,2] is Not", ~(Eventually(p, {0.5, 2.0})), N(Eventually(p, {0.5, 2.0}))),
      LAW("~ F[0,1] dual", ~(Eventually(p, {ull(0), ull(1)})), Always(~(p), {ull(0), ull(1)})),
      LAW("~ G[0,1] dual", ~(Always(p, {ull(0), ull(1)})), Eventually(~(p), {ull(0), ull(1)})),
      LAW("~ G[0,1] is Not", ~(Always(p, {ull(0), ull(1)})), N(Always(p, {ull(0), ull(1)}))),
      LAW("~ F[0,1] is Not", ~(Eventually(p, {ull(0), ull(1)})), N(Eventually(p, {ull(0), ull(1)}))),
      LAW("~ F[1,inf] dual", ~(Eventually(p, {1.0, INF})), Always(~(p), {1.0, INF})),
      LAW("~ G[1,inf] dual", ~(Always(p, {1.0, INF})), Eventually(~(p), {1.0, INF})),
      LAW("~ G[1,inf] is Not", ~(Always(p, {1.0, INF})), N(Always(p, {1.0, INF}))),
      LAW("~ F[1,inf] is Not", ~(Eventually(p, {1.0, INF})), N(Eventually(p, {1.0, INF}))),
      LAW("~ F[0,inf] dual", ~(Eventually(p, {0.0, INF})), Always(~(p), {0.0, INF})),
      LAW("~ G[0,inf] dual", ~(Always(p, {0.0, INF})), Eventually(~(p), {0.0, INF})),
      LAW("~ G[0,inf] is Not", ~(Always(p, {0.0, INF})), N(Always(p, {0.0, INF}))),
      LAW("~ F[0,inf] is Not", ~(Eventually(p, {0.0, INF})), N(Eventually(p, {0.0, INF}))),
      LAW("~ F[1,1] dual", ~(Eventually(p, {ull(1), ull(1)})), Always(~(p), {ull(1), ull(1)})),
      LAW("~ G[1,1] dual", ~(Always(p, {ull(1), ull(1)})), Eventually(~(p), {ull(1), ull(1)})),
      LAW("~ G[1,1] is Not", ~(Always(p, {ull(1), ull(1)})), N(Always(p, {ull(1), ull(1)}))),
      LAW("~ F[1,1] is Not", ~(Eventually(p, {ull(1), ull(1)})), N(Eventually(p, {ull(1), ull(1)}))),
      LAW("~ and", ~(A({p, q})), N(A({p, q}))),
      LAW("~ or", ~(O({p, q, r_})), N(O({p, q, r_}))),
      LAW("~ until", ~(Until(p, q)), N(Until(p, q))),
      LAW("~ twice", ~(~(p)), p),
      LAW("~ thrice", ~(~(~(Always(p, {1.0, INF})))), Eventually(~(p), {1.0, INF})),
      LAW("~ implies", ~(Implies(p, q)), A({p, N(q)})),
      LAW("~ iff", ~(Iff(p, q)), Xor(p, q)),
      LAW("~ predicate", ~(p), N(p)),
      LAW(">> is implies", p >> q, O({N(p), q})),
      LAW("& nested windows", Always(p, {0.5, 2.0}) & Always(p, {0.5, 3.0}), A({Always(p, {0.5, 2.0}), Always(p, {0.5, 3.0})})),
      LAW("| nested windows", Eventually(p, {0.5, 2.0}) | Eventually(p, {1.0, INF}), O({Eventually(p, {0.5, 2.0}), Eventually(p, {1.0, INF})})),
      LAW("& three windows", (Always(p) & Always(q, {0.0, 1.0})) & Always(p, {1.0, INF}), A({Always(p, {1.0, INF}), Always(p), Always(q, {0.0, 1.0})})),
      LAW("true U p = F p", Until(T(), p), Eventually(p)), LAW("(true) U (p or q) = F", Until(T(), O({p, q})), Eventually(O({p, q}))), LAW("p U p = p", Until(p, p), p), LAW("false U p", Until(B(), p), A({B(), p})), LAW("p U true = p", Until(p, T()), p), LAW("p U[0,inf] q", Until(p, q, {0.0, INF}), Until(p, q)),
      LAW("U expands q", Until(p, q), A({Until(p, q), p})), LAW("p U (p U q)", Until(p, Until(p, q)), Until(p, q)), LAW("(p and q) U", Until(A({p, q}), r_), Until(A({q, p}), r_)), LAWD("U distributes over or", Until(p, O({q, r_})), O({Until(p, q), Until(p, r_)})),
      LAW("(p U q) U q", Until(Until(p, q), q), Until(p, q)),
      LAW("implies", Implies(p, q), O({N(p), q})), LAW("contraposition", Implies(p, q), Implies(N(q), N(p))), LAW("xor", Xor(p, q), A({O({p, q}), O({N(p), N(q)})})), LAW("xor as or of and", Xor(p, q), O({A({p, N(q)}), A({N(p), q})})), LAW("xor commutes", Xor(p, q), Xor(q, p)), LAW("iff", Iff(p, q), O({A({p, q}), A({N(p), N(q)})})), LAW("iff as implications", Iff(p, q), A({Implies(p, q), Implies(q, p)})), LAW("iff is not xor", Iff(p, q), N(Xor(p, q))), LAW("iff commutes", Iff(p, q), Iff(q, p)),
      LAW("true neutral", A({T(), p}), p), LAW("true neutral last", A({p, q, T()}), A({p, q})), LAW("false neutral", O({B(), p}), p), LAW("false absorbs", A({p, B()}), A({B(), p, q})), LAW("true & p", T() & p, p), LAW("p & true", p & T(), p), LAW("false | p", B() | p, p), LAW("p | false", p | B(), p), LAW("p & false", p & B(), A({p, B()})), LAW("p | true", p | T(), O({p, T()})), LAW("q & r & false", (q & r_) & B(), B()), LAW("q | r | true", (q | r_) | T(), T()), LAW("not true", N(T()), B()), LAW("~false", ~B(), T()),
      LAW("FF = F", Eventually(Eventually(p)), Eventually(p)), LAW("GG = G", Always(Always(p)), Always(p)), LAW("GFGF", Always(Eventually(Always(Eventually(p)))), Always(Eventually(p))), LAWD("F or", Eventually(O({p, q})), O({Eventually(p), Eventually(q)})), LAWD("G and", Always(A({p, q})), A({Always(p), Always(q)})),
      LAWD("F[0,2] or", Eventually(O({p, q}), {0.0, 2.0}), O({Eventually(p, {0.0, 2.0}), Eventually(q, {0.0, 2.0})})), LAWD("G[.5,1] and", Always(A({p, q}), {0.5, 1.0}), A({Always(p, {0.5, 1.0}), Always(q, {0.5, 1.0})})),
      LAW("G or p", O({Always(p), p}), p), LAW("F and p", A({Eventually(p), p}), p), LAW("F[0,1] and p", A({Eventually(p, {0.0, 1.0}), p}), p), LAW("integral interval", Eventually(p, {ull(1), ull(2)}), Eventually(p, {1.0, 2.0})), LAW("[0,inf] is unbounded", Always(p, {0.0, INF}), Always(p)), LAW("[0,100] is unbounded here", Eventually(p, {0.0, 100.0}), Eventually(p)),
      LAW("F[0,1]F[1,2] = F[1,3]", Eventually(Eventually(p, {1.0, 2.0}), {0.0, 1.0}), Eventually(p, {1.0, 3.0})), LAW("G[.5,1]G[0,1.5] = G[.5,2.5]", Always(Always(p, {0.0, 1.5}), {0.5, 1.0}), Always(p, {0.5, 2.5})), LAW("F[0,.5]F = F", Eventually(Eventually(p), {0.0, 0.5}), Eventually(p)),
      LAW("F[a,b] splits", Eventually(p, {0.5, 2.0}), O({Eventually(p, {0.5, 1.25}), Eventually(p, {1.25, 2.0})})), LAW("G[0,inf) splits", Always(p), A({Always(p, {0.0, 1.5}), Always(p, {1.5, INF})})),
      LAW("[2,2] shifts", Eventually(p, {ull(2), ull(2)}), Always(p, {ull(2), ull(2)})), LAW("[0,0] is now", Eventually(p, {ull(0), ull(0)}), p),
  };
#undef LAW
  return v;
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto ls = std::make_shared<std::vector<Law>>(laws());
  using namespace stl;
  auto xp = stl::Predicate("x") >= 0, yp = stl::Predicate("y") < 0.5, x2 = stl::Predicate("x") <= 1;
  // argument triples: atoms and small formulas in the places of p, q, r
  auto args = std::make_shared<std::vector<std::vector<Expr>>>();
  *args = {{xp, yp, x2}, {Eventually(xp, {0.0, 1.0}), yp, Always(xp)}, {Until(xp, yp), x2, Eventually(yp)}, {And({xp, yp}), Or({yp, x2}), Not(xp)}, {yp, Until(yp, xp), Always(x2, {0.5, 1.0})}};
  if (th) for (auto& v : std::vector<std::vector<Expr>>{{Xor(xp, yp), Until(x2, yp), Iff(xp, yp)}, {Always(Or({xp, yp}), {0.25, 1.5}), Eventually(And({xp, yp})), yp}}) args->push_back(v);
  // one operand in several places: the same object, an equal one, its negation
  { Expr n = Not(yp), f = Eventually(xp, {0.0, 1.0}); for (auto& v : std::vector<std::vector<Expr>>{{xp, xp, xp}, {n, n, Not(yp)}, {f, Not(f), f}, {x2, Not(x2), yp}}) args->push_back(v); }
  auto fam = [=](const std::string& name, auto sx, auto sy, std::string b, double tol = 1e-7) {
    u64 nt = sx.size() * sy.size();
    mc::family(name, nt * args->size(), [=](u64 i) {
      Env env{{"x", {}}, {"y", {}}}; u64 t = i / args->size(); auto& a = (*args)[i % args->size()];
      if (!sx.get(t % sx.size(), env[0].second) || !sy.get(t / sx.size(), env[1].second)) return false;
      if (ref::common(env[0].second, env[1].second).empty()) return false;
      auto tr = bind_::trace(env); mc::state(mc::mix(bind_::henv(env), i % args->size()));
      if (mc::verbose) mc::desc("trace " + bind_::str(env) + "  arguments number " + std::to_string(i % args->size()));
      auto &X = env[0].second, &Y = env[1].second; bool sd = X.b() == Y.b() && X.e() == Y.e();
      for (auto& l : *ls) {
        if (l.same_domain && !sd) continue; // finite traces: these hold when all signals end together
        auto [e, f] = l.f(a[0], a[1], a[2]);
        rel::equal(rel::eval(e, tr), rel::eval(f, tr), tol, "law " + l.n, false);
      }
      mc::trace(ls->size()); return true;
    }, b + "; " + std::to_string(ls->size()) + " laws, " + std::to_string(args->size()) + " argument triples");
  };
  SigSpace sp{{0, 1, 2}, {-1, 0, 2}};
  if (!th) fam("laws", sp, SigSpace{{0, 1.5, 2}, {-1, 1}}, "all pairs of sparse signals over 3 instants, domains that meet");
  else fam("laws", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, SigSpace{{0, 1.5, 2, 3.5}, {-1, 1}}, "all pairs of sparse signals over 4 instants");
  fam("dense", DenseSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, DenseSpace{{0, 0.5, 1, 3}, {-1, 1}}, "x at 0, 1, 2.5, 3 with 3 values, y at 0, 0.5, 1, 3 with 2 values");
  fam("far", far(DenseSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}), far(DenseSpace{{0, 0.5, 1, 3}, {-1, 1}}), "values around 2^32", far_tol);
  // wider windows never raise 'always' nor lower 'eventually'
  std::vector<std::pair<double, double>> w;
  std::vector<double> g{0, 0.25, 0.5, 1, 1.5, 2, 3.5, INF};
  for (double a : g) for (double b : g) if (b > a) w.push_back({a, b});
  auto ws = std::make_shared<std::vector<std::pair<double, double>>>(w);
  SigSpace s{th ? std::vector<double>{0, 1, 1.5, 2.5, 3, 4} : std::vector<double>{0, 1, 1.5, 3, 4}, {-1, 0, 2}};
  mc::family("windows", s.size(), [=](u64 i) {
    Env env{{"x", {}}}; if (!s.get(i, env[0].second)) return false;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    if (mc::verbose) mc::desc("trace " + bind_::str(env));
    auto x = stl::Predicate("x") >= 0.0;
    std::vector<Pwl> F, G;
    for (auto& [a, b] : *ws) { F.push_back(rel::eval(stl::Eventually(x, {a, b}), tr)); G.push_back(rel::eval(stl::Always(x, {a, b}), tr)); rel::well_formed(F.back(), "eventually"); rel::well_formed(G.back(), "always"); }
    Pwl P = rel::eval(x, tr), FU = rel::eval(stl::Eventually(x), tr), GU = rel::eval(stl::Always(x), tr);
    auto le = [](const Pwl& l, const Pwl& r, const std::string& what) {
      if (l.empty() || r.empty() || !bind_::near(l.b(), r.b(), 1e-7) || !bind_::near(l.e(), r.e(), 1e-7)) mc::fail(what + ": domains differ\n  " + ref::str(l) + "\n  " + ref::str(r));
      rel::walk(l, r, [&](double t, double u, double v) { if (!(u <= v + 1e-7)) mc::fail(what + ": " + num(u) + " > " + num(v) + " at time " + num(t) + "\n  lower " + ref::str(l) + "\n  upper " + ref::str(r)); });
    };
    auto nm = [](std::pair<double, double> p) { return "[" + num(p.first) + "," + num(p.second) + "]"; };
    for (size_t j = 0; j < ws->size(); j++) {
      auto wj = (*ws)[j];
      le(G[j], F[j], "always" + nm(wj) + " against eventually" + nm(wj));
      le(F[j], FU, "eventually" + nm(wj) + " against eventually"); le(GU, G[j], "always against always" + nm(wj));
      if (wj.first == 0) { le(P, F[j], "p against eventually" + nm(wj)); le(G[j], P, "always" + nm(wj) + " against p"); }
      for (size_t k = 0; k < ws->size(); k++) {
        auto wk = (*ws)[k];
        if (j == k || wk.first > wj.first || wk.second < wj.second) continue;
        le(F[j], F[k], "eventually" + nm(wj) + " against wider " + nm(wk)); le(G[k], G[j], "always" + nm(wk) + " against narrower " + nm(wj));
        mc::trace();
      }
    }
    return true;
  }, "all sparse signals over the instants, all " + std::to_string(w.size()) + " windows over 8 bounds, all nested pairs");
}
