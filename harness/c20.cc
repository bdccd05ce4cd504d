// C20: operators denote their connectives (value tables of the built AST) and never alter operands.
#include "astr.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
namespace stl = signal_tl;
using mc::u64;
using stl::ast::Expr;

// A weak reference: if the library does not define it, that is reported instead of failing to link.
namespace signal_tl::ast { Expr operator>>(const Expr& lhs, const Expr& rhs) __attribute__((weak)); }

namespace {
/// A meaning: the value (true 127, false -127, the margin by which it holds or fails in between) for every assignment of
/// values to opaque atoms: predicates and temporal subformulas, found by their text.  Not only true and false, as "a & ~a" is
/// not "false" when robustness is computed.
struct Val {
  std::array<signed char, 96> v;
  bool operator!=(const Val& o) const { return v != o.v; }
};
Val konst(bool b) { Val r; r.v.fill(b ? 127 : -127); return r; }
Val operator&(const Val& a, const Val& b) { Val r; for (size_t i = 0; i < 96; i++) r.v[i] = std::min(a.v[i], b.v[i]); return r; }
Val operator|(const Val& a, const Val& b) { Val r; for (size_t i = 0; i < 96; i++) r.v[i] = std::max(a.v[i], b.v[i]); return r; }
Val operator~(const Val& a) { Val r; for (size_t i = 0; i < 96; i++) r.v[i] = static_cast<signed char>(-a.v[i]); return r; }
template <class F> Val table(F f) { Val r; for (unsigned i = 0; i < 96; i++) r.v[i] = static_cast<signed char>(f(i)); return r; }
using Atoms = std::map<std::string, Val>;
Atoms plain;                 // filled at registration
const Atoms* atoms = &plain; // those of the family
struct Use { Use(const Atoms* a) { atoms = a; } ~Use() { atoms = &plain; } };
struct TT {
  static Val atom(const std::string& s) { auto it = atoms->find(s); if (it == atoms->end()) mc::fail("the formula contains " + s + ", which no operand contains"); return it->second; }
  Val operator()(const stl::ast::Const& c) const { return konst(c.value); }
  Val operator()(const stl::ast::Predicate& p) const { return atom(astr::str(p)); }
  Val operator()(const stl::ast::NotPtr& p) const { return ~std::visit(*this, p->arg); }
  Val operator()(const stl::ast::AndPtr& p) const { if (p->args.size() < 2) mc::fail("a conjunction of fewer than two operands"); Val r = konst(true); for (auto& a : p->args) r = r & std::visit(*this, a); return r; }
  Val operator()(const stl::ast::OrPtr& p) const { if (p->args.size() < 2) mc::fail("a disjunction of fewer than two operands"); Val r = konst(false); for (auto& a : p->args) r = r | std::visit(*this, a); return r; }
  Val operator()(const stl::ast::AlwaysPtr& p) const { return atom(astr::str(p)); }
  Val operator()(const stl::ast::EventuallyPtr& p) const { return atom(astr::str(p)); }
  Val operator()(const stl::ast::UntilPtr& p) const { return atom(astr::str(p)); }
};
Val tt(const Expr& e) { return std::visit(TT{}, e); }
struct Op { const char* n; int arity; std::function<Expr(const Expr&, const Expr&)> f; std::function<Val(const Val&, const Val&)> m; };
const std::vector<Op>& ops() {
  static const std::vector<Op> v{
      {"a & b", 2, [](const Expr& a, const Expr& b) { return a & b; }, [](const Val& a, const Val& b) { return a & b; }},
      {"a | b", 2, [](const Expr& a, const Expr& b) { return a | b; }, [](const Val& a, const Val& b) { return a | b; }},
      {"~a", 1, [](const Expr& a, const Expr&) { return ~a; }, [](const Val& a, const Val&) { return ~a; }},
      {"a >> b", 2, [](const Expr& a, const Expr& b) { return a >> b; }, [](const Val& a, const Val& b) { return ~a | b; }},
      {"Not(a)", 1, [](const Expr& a, const Expr&) { return stl::Not(a); }, [](const Val& a, const Val&) { return ~a; }},
      {"And({a, b})", 2, [](const Expr& a, const Expr& b) { return stl::And({a, b}); }, [](const Val& a, const Val& b) { return a & b; }},
      {"Or({a, b})", 2, [](const Expr& a, const Expr& b) { return stl::Or({a, b}); }, [](const Val& a, const Val& b) { return a | b; }},
      {"And({a, b, a})", 2, [](const Expr& a, const Expr& b) { return stl::And({a, b, a}); }, [](const Val& a, const Val& b) { return a & b; }},
      {"Or({a, a, b})", 2, [](const Expr& a, const Expr& b) { return stl::Or({a, a, b}); }, [](const Val& a, const Val& b) { return a | b; }},
      {"Implies(a, b)", 2, [](const Expr& a, const Expr& b) { return stl::Implies(a, b); }, [](const Val& a, const Val& b) { return ~a | b; }},
      {"Xor(a, b)", 2, [](const Expr& a, const Expr& b) { return stl::Xor(a, b); }, [](const Val& a, const Val& b) { return (a & ~b) | (~a & b); }},
      {"Iff(a, b)", 2, [](const Expr& a, const Expr& b) { return stl::Iff(a, b); }, [](const Val& a, const Val& b) { return (a & b) | (~a & ~b); }},
  };
  return v;
}
struct El { Expr e; std::string s; Val t; };
std::vector<El> base;

/// applies op k, checks meaning and operands (and, if given, everything in others)
El apply(size_t k, const El& a, const El& b, const std::vector<const El*>& others = {}) {
  auto& o = ops()[k];
  auto what = [&] { return std::string(o.n) + " with a = " + a.s + (o.arity == 2 ? ", b = " + b.s : ""); };
  if (k == 3 && !static_cast<Expr (*)(const Expr&, const Expr&)>(&stl::ast::operator>>)) mc::fail("operator >> is declared for formulas but not defined");
  El r; Val want = o.m(a.t, b.t);
  try { r.e = o.f(a.e, b.e); } catch (const mc::Violation&) { throw; } catch (const std::exception& x) { mc::fail(what() + " fails: " + x.what()); }
  mc::transition();
  r.s = astr::str(r.e); r.t = tt(r.e);
  if (r.t != want) mc::fail(what() + " gives " + r.s + ", which means something else");
  auto intact = [&](const El& q) { if (astr::str(q.e) != q.s) mc::fail(what() + " changed a formula from " + q.s + " to " + astr::str(q.e)); };
  intact(a); intact(b); for (auto* q : others) intact(*q);
  return r;
}
std::vector<El> fresh_base() {
  Expr x = stl::Predicate("x") > 0.5, y = stl::Predicate("y") <= -1;
  Expr g = stl::Always(x, {0.0, 2.0}), u = stl::Until(x, y);
  std::vector<Expr> es{stl::Const(true), stl::Const(false), x, y, g, u, stl::Not(x), stl::And({x, y}), stl::Or({x, g}), stl::And({stl::Const(true), u}), stl::Or({stl::And({x, y}), stl::Const(false), g}), stl::And({stl::Or({x, y}), stl::And({y, g})}), Expr(std::make_shared<stl::ast::Not>(stl::Const(true))), stl::Or({x, stl::Const(true)}), stl::And({stl::Const(false), y})};
  auto third = [](int p) { return table([p](unsigned i) { for (int k = 0; k < p; k++) i /= 3; return int(i % 3) * 50 - 50; }); }; // every assignment of -50, 0, 50 to four atoms
  plain = {{astr::str(x), third(0)}, {astr::str(y), third(1)}, {astr::str(g), third(2)}, {astr::str(u), third(3)}};
  std::vector<El> r; for (auto& e : es) r.push_back({e, astr::str(e), tt(e)}); return r;
}
/// Atoms that are nearly the same, so that taking one for the other shows.  A predicate means what it says about
/// the signal (80 valuations: 5 values of x, times 4 values for each of two temporal subformulas).
struct Similar { Atoms a; std::vector<El> b; };
std::vector<Similar> similar() {
  using namespace stl;
  Expr x = stl::Predicate("x") > 0.5, y = stl::Predicate("x_") > 0.5;
  std::vector<std::pair<Expr, Expr>> pairs{
      {Always(x, {0.0, 2.0}), Always(x, {0.0, 3.0})}, {Always(x, {0.0, 2.0}), Always(x, {1.0, 2.0})}, {Eventually(x, {1.0, 2.0}), Always(x, {1.0, 2.0})}, {Always(x), Always(y)},
      {Always(x), Always(x, {1.0, std::numeric_limits<double>::infinity()})}, {Until(x, y), Until(y, x)}, {Until(x, y), Until(x, y, {0.0, 5.0})}, {Eventually(x), Eventually(Eventually(x))}, {Always(Or({x, y})), Always(And({x, y}))}, {Eventually(stl::Predicate("x") > 0.5), Eventually(stl::Predicate("x") > 0.75)}};
  static const double val[5] = {0.25, 0.5, 0.625, 0.75, 1}; static const int tv[4] = {-100, -9, 9, 100};
  std::vector<Similar> r;
  for (auto& [t1, t2] : pairs) {
    std::vector<stl::ast::Predicate> ps{stl::Predicate("x") > 0.5, stl::Predicate("x") >= 0.5, stl::Predicate("x") < 0.5, stl::Predicate("x") > 0.75, stl::Predicate("x") <= 0.625};
    Similar s;
    // 64 times the robustness, and one more or less at equality, so that strictness counts
    for (auto& p : ps) s.a[astr::str(p)] = table([&](unsigned i) { int d = int(64 * (val[i % 5] - p.rhs)); switch (p.op) { case stl::ast::ComparisonOp::GT: return d - 1; case stl::ast::ComparisonOp::GE: return d + 1; case stl::ast::ComparisonOp::LT: return -d - 1; default: return -d + 1; } });
    s.a[astr::str(t1)] = table([&](unsigned i) { return tv[i / 5 % 4]; }); s.a[astr::str(t2)] = table([&](unsigned i) { return tv[i / 20 % 4]; });
    Use use(&s.a);
    for (auto& e : std::vector<Expr>{ps[0], ps[1], ps[2], ps[3], ps[4], t1, t2, stl::Not(t1), stl::And({ps[0], t1}), stl::Or({t2, ps[3]}), stl::And({ps[3], ps[4]}), stl::Or({ps[2], ps[3]})}) s.b.push_back({e, astr::str(e), tt(e)});
    r.push_back(std::move(s));
  }
  return r;
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto B = std::make_shared<std::vector<El>>(fresh_base()); u64 nb = B->size(), no = ops().size();
  // one application, then a second one to the result and any operand, in either order, all four formulas watched
  mc::family("two-steps", no * nb * nb * no * nb * 2, [=](u64 i) {
    u64 k = i % no, j = i / no % nb, l = i / no / nb % nb, k2 = i / no / nb / nb % no, m = i / no / nb / nb / no % nb, side = i / no / nb / nb / no / nb;
    if (mc::verbose) mc::desc(std::string(ops()[k].n) + " on " + (*B)[j].s + ", " + (*B)[l].s + "; then " + ops()[k2].n + " with " + (*B)[m].s);
    El r = apply(k, (*B)[j], (*B)[l]); mc::state(mc::hstr(r.s));
    El s = side ? apply(k2, (*B)[m], r, {&(*B)[j], &(*B)[l]}) : apply(k2, r, (*B)[m], {&(*B)[j], &(*B)[l]});
    mc::state(mc::hstr(s.s)); mc::outcome(mc::hstr(s.s)); mc::trace(); return true;
  }, "12 operators on all pairs of 15 formulas, then 12 operators on the result and each of the 15, both sides");
  // the same with atoms that are nearly the same
  auto S = std::make_shared<std::vector<Similar>>(similar()); u64 ns = S->size(), nq = (*S)[0].b.size();
  mc::family("similar", ns * no * nq * nq * no * nq * 2, [=](u64 i) {
    auto& s = (*S)[i % ns]; i /= ns; auto& Q = s.b; Use use(&s.a);
    u64 k = i % no, j = i / no % nq, l = i / no / nq % nq, k2 = i / no / nq / nq % no, m = i / no / nq / nq / no % nq, side = i / no / nq / nq / no / nq;
    if (!th && k != k2 && k > 3) return false; // quick: mixed pairs begin with &, |, ~ or >>
    if (mc::verbose) mc::desc(std::string(ops()[k].n) + " on " + Q[j].s + ", " + Q[l].s + "; then " + ops()[k2].n + " with " + Q[m].s);
    El r = apply(k, Q[j], Q[l]); El t = side ? apply(k2, Q[m], r, {&Q[j], &Q[l]}) : apply(k2, r, Q[m], {&Q[j], &Q[l]});
    mc::state(mc::hstr(t.s)); mc::outcome(mc::hstr(t.s)); mc::trace(); return true;
  }, "two applications (as before) over " + std::to_string(ns) + " sets of " + std::to_string(nq) + " formulas whose atoms differ in a bound, a comparison, an interval, an operator or the order of operands only");
  mc::family("similar-chains", ns * 4 * nq * nq * nq * nq, [=](u64 i) {
    auto& s = (*S)[i % ns]; i /= ns; auto& Q = s.b; Use use(&s.a); u64 mode = i % 4, c = i / 4; El cur = Q[c % nq]; c /= nq; std::vector<El> kept{cur}; std::vector<const El*> w;
    for (int d = 0; d < 3; d++) { const El& o = Q[c % nq]; c /= nq; w.clear(); for (auto& q : kept) w.push_back(&q); cur = apply(mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? size_t(d % 2) : size_t(1 - d % 2), cur, o, w); kept.push_back(cur); }
    if (mc::verbose) mc::desc("chain ending in " + cur.s);
    mc::state(mc::hstr(cur.s)); mc::trace(); return true;
  }, "all chains of three & and | over each of these sets, every intermediate watched");
  // both operands are results; x op x sharing
  auto L1 = std::make_shared<std::vector<El>>();
  auto grow = [=] { if (!L1->empty()) return; std::set<std::string> seen; for (u64 k = 0; k < no; k++) { if (k == 3 && !static_cast<Expr (*)(const Expr&, const Expr&)>(&stl::ast::operator>>)) continue; for (auto& a : *B) for (auto& b : *B) { try { El r = apply(k, a, b); if (seen.insert(r.s).second) L1->push_back(r); } catch (const mc::Violation&) {} } } };
  grow();
  u64 n1 = L1->size();
  mc::family("results", n1 * n1, [=](u64 i) {
    auto &a = (*L1)[i % n1], &b = (*L1)[i / n1];
    if (!th && a.s.size() + b.s.size() > 210) return false;
    if (mc::verbose) mc::desc("all operators with a = " + a.s + ", b = " + b.s);
    for (u64 k = 0; k < no; k++) { El r = apply(k, a, b); mc::outcome(mc::hstr(r.s)); }
    mc::state(i); mc::trace(); return true;
  }, "12 operators on all pairs of the " + std::to_string(n1) + " distinct formulas built by one application" + (th ? "" : " (pairs of at most 210 characters)"));
  // accumulation: folding a growing formula with &= / |= style loops while keeping every intermediate
  mc::family("chains", 4 * nb * nb * nb * nb, [=](u64 i) {
    u64 mode = i % 4, c = i / 4; El cur = (*B)[c % nb]; c /= nb; std::vector<El> kept{cur}; std::vector<const El*> w;
    for (int d = 0; d < 3; d++) {
      const El& o = (*B)[c % nb]; c /= nb; w.clear(); for (auto& q : kept) w.push_back(&q);
      size_t k = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? size_t(d % 2) : size_t(1 - d % 2);
      cur = apply(k, cur, o, w); kept.push_back(cur);
    }
    if (mc::verbose) mc::desc("chain ending in " + cur.s);
    mc::state(mc::hstr(cur.s)); mc::trace(); return true;
  }, "all chains of three & and | over 15 formulas, every intermediate watched");
  // long accumulation: the same, over many operands
  mc::family("long-chains", 6 * nb * nb, [=](u64 i) {
    u64 mode = i % 6, a = i / 6 % nb, b = i / 6 / nb; const int n = th ? 300 : 70; std::vector<El> kept{(*B)[a]}; std::vector<const El*> w;
    for (int d = 0; d < n; d++) {
      const El& o = (*B)[(b + (mode >= 4 ? d : 0)) % nb]; size_t k = mode == 0 || mode == 4 ? 0 : mode == 1 || mode == 5 ? 1 : mode == 2 ? size_t(d % 2) : d % 16 == 15 ? 2 : 0; const El cur = kept.back();
      bool watch = (d & (d + 1)) == 0 || d + 1 == n; w.clear(); if (watch) for (auto& q : kept) w.push_back(&q);
      if (cur.s.size() > 20000) break;
      kept.push_back(d % 3 == 2 && mode != 3 ? apply(k, o, cur, w) : apply(k, cur, o, w));
    }
    if (mc::verbose) mc::desc("chain of " + std::to_string(n) + " ending in " + kept.back().s.substr(0, 400));
    mc::state(mc::hstr(kept.back().s)); mc::trace(); return true;
  }, "chains of 70 (thorough 300) & and | (and ~) over all pairs of 15 formulas, every intermediate watched");
  mc::family("many-operands", 64 * nb * 2, [=](u64 i) {
    u64 n = 2 + i % 64 * (i % 64 > 40 ? 13 : 1), j = i / 64 % nb; bool c = i / 64 / nb; std::vector<Expr> v; Val m = konst(c); std::string os;
    for (u64 k = 0; k < n; k++) { auto& e = (*B)[(j + k * k) % nb]; v.push_back(e.e); if (c) m = m & e.t; else m = m | e.t; os += astr::str(e.e) + ";"; }
    if (mc::verbose) mc::desc(std::string(c ? "And" : "Or") + " of " + std::to_string(n) + " operands"); auto keep = v;
    El r; r.e = c ? stl::And(v) : stl::Or(v); r.s = astr::str(r.e); r.t = tt(r.e); mc::transition();
    if (r.t != m) mc::fail(r.s + " does not mean its " + std::to_string(n) + " operands");
    std::string after; for (auto& e : v) after += astr::str(e) + ";"; if (after != os) mc::fail("the operand list changed");
    for (u64 k : {u64(0), u64(1), u64(3), u64(7), u64(8)}) for (u64 q = 0; q < nb; q += n > 64 ? 5 : 1) { apply(k, r, (*B)[q]); apply(k, (*B)[q], r); }
    mc::state(i); mc::trace(); return true;
  }, "And and Or of 2 to 821 operands, then combined with each of 15 formulas (3 beyond 64 operands)");
  // predicates
  std::vector<double> c{0, -1, 0.5, std::nextafter(0.5, 1), 1e308, 5e-324, std::numeric_limits<double>::infinity()};
  std::vector<std::string> nm{"x", "y", "", "xx", "a_rather_long_signal_name_that_does_not_fit_inline"};
  using stl::ast::ComparisonOp;
  auto pred = [=](u64 i) { stl::ast::Predicate p = stl::Predicate(nm[i % nm.size()]); double b = c[i / nm.size() % c.size()]; switch (i / nm.size() / c.size() % 4) { case 0: return p > b; case 1: return p >= b; case 2: return p < b; } return p <= b; };
  u64 np = nm.size() * c.size() * 4;
  mc::family("predicates", np * np, [=](u64 i) {
    static const ComparisonOp op[4] = {ComparisonOp::GT, ComparisonOp::GE, ComparisonOp::LT, ComparisonOp::LE};
    auto p = pred(i % np), q = pred(i / np); u64 a = i % np, b = i / np; mc::transition(2);
    if (mc::verbose) mc::desc(astr::str(p) + " and " + astr::str(q));
    auto chk = [&](const stl::ast::Predicate& p, u64 j) { if (p.name != nm[j % nm.size()] || p.rhs != c[j / nm.size() % c.size()] || p.op != op[j / nm.size() / c.size()]) mc::fail("comparison gives " + astr::str(p)); };
    chk(p, a); chk(q, b);
    if ((p == q) != (a == b) || (p != q) == (a == b)) mc::fail(astr::str(p) + " and " + astr::str(q) + " compare " + (p == q ? "equal" : "different"));
    // comparing again replaces operator and bound and leaves the original alone
    auto r = p < q.rhs; mc::transition(); if (r.name != p.name || r.op != ComparisonOp::LT || r.rhs != q.rhs) mc::fail("re-comparison gives " + astr::str(r)); chk(p, a);
    mc::state(i); mc::trace(); return true;
  }, "all pairs of predicates over 5 names, 7 bounds, 4 comparisons");
  mc::family("constants", 4, [](u64 i) { bool a = i & 1, b = i & 2; auto p = stl::Const(a), q = stl::Const(b); if (p.value != a || (p == q) != (a == b) || (p != q) == (a == b)) mc::fail("constants"); mc::transition(); mc::state(i); mc::trace(); return true; });
}
