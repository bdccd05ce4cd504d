// C17: purity and independence of history: every sequence of operations over a shared pool of
// objects; after each operation the result is compared with the model of the current contents and
// every other object with its snapshot.
#include "astr.hpp"
#include "derive.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/parser.hpp"
#include <sstream>
#include <map>
#include <unordered_map>
using namespace alpha;
namespace stl = signal_tl;
using stl::ast::Expr;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;

namespace {
using Snap = std::vector<Sample>;
Snap snap(const Signal& s) { Snap r; for (auto it = s.begin(); it != s.end(); ++it) r.push_back(*it); return r; }
bool eq(const Snap& a, const Snap& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].time != b[i].time || a[i].value != b[i].value || a[i].derivative != b[i].derivative) return false;
  return true;
}
Pwl pw(const Snap& s) { Pwl r; for (auto& q : s) r.p.push_back({q.time, q.value}); return r; }
struct Obj { SignalPtr s; Snap m; std::string name; };

struct Pool {
  Obj x, y; std::vector<Obj> R; std::vector<Expr> F; std::vector<Fm> Fm_; std::vector<std::string> Fs; stl::signal::Trace tr, other; Snap other_x;
  bool y_alias = false; std::string log;

  static Obj mk_obj(const Pwl& p, std::string n) { auto s = bind_::sig(p); return {s, snap(*s), n}; }
  void addf(Expr e, Fm f) { Fs.push_back(astr::str(e)); F.push_back(std::move(e)); Fm_.push_back(std::move(f)); }
  explicit Pool(bool same_times) {
    x = mk_obj(Pwl{{{0, 1}, {1, -1}, {2, -1}, {3, -1}}}, "x");
    y = mk_obj(same_times ? Pwl{{{0, 0}, {1, 1}, {2, 0.25}, {3, 1}}} : Pwl{{{0.5, 0}, {1.5, 1}, {3, 0.25}}}, "y");
    tr["x"] = x.s; tr["y"] = y.s;
    other["x"] = bind_::sig(Pwl{{{0, 7}, {3, 9}}}); other["y"] = bind_::sig(Pwl{{{0, -3}, {1, 0}, {3, 8}}}); other_x = snap(*other["x"]);
    Fm a = x0(), b = P("y", LT, 0.5); Expr ea = bind_::expr(a), eb = bind_::expr(b);
    addf(ea, a); addf(eb, b);
    addf(stl::Eventually(ea, {0.0, 1.0}), win(FI, 0, 1, a));
    addf(stl::And({ea, eb}), mk(AND, {a, b}));
    addf(stl::Until(F[2], F[3]), mk(U, {Fm_[2], Fm_[3]}));
    addf(stl::Always(stl::Or({F[3], stl::Not(ea)})), mk(G, {mk(OR, {Fm_[3], mk(NOT, {a})})}));
  }
  [[noreturn]] void bad(const std::string& m) { mc::fail("after " + log + ": " + m); }
  void intact() {
    auto chk = [&](const Obj& o) { if (!eq(snap(*o.s), o.m)) bad(o.name + " changed: it was " + ref::str(pw(o.m)) + ", it is " + bind_::str(*o.s) + " (or a slope changed)"); };
    chk(x); chk(y); for (auto& r : R) chk(r);
    for (size_t i = 0; i < F.size(); i++) if (astr::str(F[i]) != Fs[i]) bad("formula " + Fs[i] + " became " + astr::str(F[i]));
    if (tr.size() != 2 || tr["x"] != x.s || tr["y"] != y.s || other.size() != 2 || !eq(snap(*other["x"]), other_x)) bad("a trace changed");
  }
  Env env() { return {{"x", pw(x.m)}, {"y", pw(y.m)}}; }
  void keep(SignalPtr s, const std::string& n) {
    for (auto& o : R) if (o.s == s) bad(n + " handed out an object handed out before: " + o.name);
    if (s == x.s || s == y.s) bad(n + " handed out its argument");
    if (s->size() > 1 && s->begin() == x.s->begin()) bad(n + " shares storage");
    R.push_back({s, snap(*s), n});
  }
  const Pwl& want(size_t k, const Env& e) {
    static std::unordered_map<u64, Pwl> memo; u64 h = mc::hstr(ref::str(Fm_[k]), bind_::henv(e));
    auto it = memo.find(h); if (it == memo.end()) { if (memo.size() > 200000) memo.clear(); it = memo.emplace(h, ref::rho(Fm_[k], e)).first; }
    return it->second;
  }
  void eval(size_t k) {
    auto o = stl::compute_robustness(F[k], tr); mc::transition();
    try { bind_::same(o, want(k, env()), "evaluation", 1e-7); } catch (mc::Violation& v) { bad("robustness of " + ref::str(Fm_[k]) + " on " + bind_::str(env()) + ": " + v.msg); }
    keep(o, "robustness of " + ref::str(Fm_[k]));
  }
  void push(Obj& o, double dt, double v) {
    double t = o.m.empty() ? 0 : o.m.back().time + dt;
    o.s->push_back(t, v); mc::transition();
    Snap now = snap(*o.s);
    if (now.size() != o.m.size() + 1 || now.back().time != t || now.back().value != v || now.back().derivative != 0) bad("append to " + o.name + " gave " + bind_::str(*o.s));
    if (!o.m.empty()) { auto& p = o.m.back(); double d = (v - p.value) / (t - p.time); if (!bind_::near(now[now.size() - 2].derivative, d, 1e-9 * (1 + std::fabs(d)))) bad("append to " + o.name + ": slope before the appended sample is " + num(now[now.size() - 2].derivative)); p.derivative = now[now.size() - 2].derivative; }
    o.m.push_back(now.back());
    if (!eq(now, o.m)) bad("append to " + o.name + " changed earlier samples: " + bind_::str(*o.s));
  }
  void same(const SignalPtr& s, const Pwl& w, const std::string& n) { try { bind_::same(s, w, n.c_str(), 1e-9); } catch (mc::Violation& v) { bad(v.msg); } }
};

#if defined(WITH_PARSER)
constexpr int NOPS = 28;
#else
constexpr int NOPS = 26;
#endif
const char* names[] = {"eval f0", "eval f1", "eval f2", "eval f3", "eval f4", "eval f5", "eval newest formula", "append to x", "append to y", "append to newest result", "replace x", "use newest result as y",
                       "simplify", "resize", "shift", "resize_shift", "synchronize", "copy", "read", "print", "combine with &", "combine with |", "rejected append", "rejected evaluations", "eval on another trace", "overwrite x in place", "parse", "rejected parse"};

/// first printed text of each structure / signal content seen by this process
std::map<std::string, std::string>& texts() { static std::map<std::string, std::string> t; return t; }

void step(Pool& p, int op) {
  p.log += (p.log.empty() ? "" : ", ") + std::string(names[op]);
  switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5: p.eval(size_t(op)); break;
    case 6: p.eval(p.F.size() - 1); break;
    case 7: p.push(p.x, 1, 2); break;
    case 8: p.push(p.y, 0.5, -1); break;
    case 9: if (!p.R.empty() && (!p.y_alias || p.R.back().s != p.y.s)) p.push(p.R.back(), 1, 5); break;
    case 10: {
      Pwl n = pw(p.x.m); for (auto& q : n.p) q.v = 0.5 - q.v; // same times, other values; the old object is released first
      p.x.s.reset(); p.tr.erase("x"); p.x = Pool::mk_obj(n, "replaced x"); p.tr["x"] = p.x.s; break;
    }
    case 11: if (!p.R.empty()) { auto o = p.R.back(); p.R.pop_back(); if (o.m.empty()) break; p.y = o; p.tr["y"] = p.y.s; } break;
    case 12: { auto s = p.x.s->simplify(); mc::transition(); p.same(s, pw(p.x.m), "simplify"); p.keep(s, "simplified x"); break; }
    case 13: { auto s = p.x.s->resize(0.5, 4.5, 9); mc::transition(); p.same(s, derive::resized(pw(p.x.m), 0.5, 4.5, 9), "resize"); p.keep(s, "resized x"); break; }
    case 14: { auto s = p.x.s->shift(2); mc::transition(); p.same(s, derive::moved(pw(p.x.m), 2), "shift"); p.keep(s, "shifted x"); break; }
    case 15: { auto s = p.x.s->resize_shift(-1, 2.5, 9, -1); mc::transition(); p.same(s, derive::moved(derive::resized(pw(p.x.m), -1, 2.5, 9), -1), "resize_shift"); p.keep(s, "resized and shifted x"); break; }
    case 16: {
      auto [a, b] = stl::signal::synchronize(p.x.s, p.y.s); mc::transition(); auto e = p.env(); auto ts = ref::common(e[0].second, e[1].second);
      p.same(a, derive::onto(e[0].second, ts), "synchronize, first"); p.same(b, derive::onto(e[1].second, ts), "synchronize, second");
      if (a == b) p.bad("synchronize handed out one object twice");
      p.keep(a, "synchronized x"); p.keep(b, "synchronized y");
      auto [c, d] = stl::signal::synchronize(p.x.s, p.x.s); mc::transition();
      p.same(c, pw(p.x.m), "x synchronized with itself, first"); p.same(d, pw(p.x.m), "x synchronized with itself, second");
      if (c == d) p.bad("synchronize handed out one object twice");
      p.keep(c, "x synchronized with itself"); p.keep(d, "x synchronized with itself, second"); break;
    }
    case 17: { auto s = std::make_shared<Signal>(*p.x.s); mc::transition(); if (!eq(snap(*s), p.x.m)) p.bad("the copy differs"); p.keep(s, "copy of x"); break; }
    case 18: {
      Pwl m = pw(p.x.m); const Signal& c = *p.x.s;
      for (double t : {m.b(), m.b() + 0.75, m.e()}) if (t <= m.e()) { double v = c.at(t).value; mc::transition(); if (!bind_::near(v, m.at(t), 1e-9)) p.bad("x at " + num(t) + " is " + num(v)); }
      size_t n = 0; for (auto it = c.begin_at(0.5); it != c.end_at(2); ++it) n++;
      size_t w = 0; for (auto& q : m.p) w += q.t >= 0.5 && q.t <= 2; if (n != w) p.bad("window iteration visits " + std::to_string(n) + " samples");
      for (auto& o : p.R) { n = 0; for (auto it = o.s->rbegin(); it != o.s->rend(); ++it) n++; if (n != o.m.size()) p.bad("reverse iteration"); }
      break;
    }
    case 19: {
      auto put = [&](const std::string& k, const std::string& t) { mc::transition(); auto r = texts().emplace(k, t); if (r.first->second != t) p.bad("printing " + k + " gave " + r.first->second + " before and " + t + " now"); };
      for (size_t i = 0; i < p.F.size(); i++) { std::ostringstream o; ::operator<<(o, p.F[i]); put("formula " + p.Fs[i], o.str()); }
      put("signal " + ref::str(pw(p.x.m)), fmt::to_string(*p.x.s)); if (!p.R.empty()) put("signal " + ref::str(pw(p.R.back().m)), fmt::to_string(*p.R.back().s));
      break;
    }
    case 20: { if (p.F.size() > 9) break; Expr e = p.F.back() & p.F[3]; Expr f = p.F[3] & p.F[0]; p.addf(f, mk(AND, {p.Fm_[3], p.Fm_[0]})); p.addf(e, mk(AND, {p.Fm_[p.Fm_.size() - 2], p.Fm_[3]})); mc::transition(2); break; }
    case 21: { if (p.F.size() > 9) break; Expr e = p.F.back() | p.F[1]; p.addf(e, mk(OR, {p.Fm_.back(), p.Fm_[1]})); Expr g = ~(p.F.back() | stl::Const(false)); p.addf(g, mk(NOT, {p.Fm_.back()})); mc::transition(2); break; }
    case 22: {
      for (double t : {p.x.m.back().time, p.x.m.back().time - 0.5, -100.0, std::nan("")}) { bool thrown = false; try { p.x.s->push_back(t, 4); } catch (const std::exception&) { thrown = true; } mc::transition(); if (!thrown) p.bad("an append at " + num(t) + " was accepted"); }
      break;
    }
    case 23: {
      // everything else is evaluated before what fails
      auto all = p.F; all.push_back(stl::Predicate("nosuch") > 1); auto miss = stl::And(all); all.back() = stl::Until(p.F[5], stl::And({p.F[4], p.F[1]}), {1.0, 2.0}); auto bu = stl::Or(all);
      for (auto& e : {Expr(miss), Expr(bu)}) { bool thrown = false; try { (void)stl::compute_robustness(e, p.tr); } catch (const std::exception&) { thrown = true; } mc::transition(); if (!thrown) p.bad("an ill-posed evaluation succeeded"); }
      break;
    }
    case 24: {
      Env e{{"x", bind_::pwl(*p.other["x"])}, {"y", bind_::pwl(*p.other["y"])}};
      for (size_t k : {size_t(2), size_t(3)}) { auto o = stl::compute_robustness(p.F[k], p.other); mc::transition(); p.same(o, p.want(k, e), "evaluation on another trace"); if (k == 3) p.keep(o, "robustness on another trace"); }
      break;
    }
    case 25: {
      // the same object and times, other values
      Pwl n = pw(p.x.m); for (auto& q : n.p) q.v = 0.25 - q.v;
      auto o = bind_::sig(n); p.x.m = snap(*o); if (p.x.m.size() % 2) *p.x.s = *o; else *p.x.s = std::move(*o); mc::transition();
      if (!eq(snap(*p.x.s), p.x.m)) p.bad("assigning to x gave " + bind_::str(*p.x.s)); break;
    }
#if defined(WITH_PARSER)
    case 26: {
      auto s = stl::parser::from_string("(define-formula f (and (< 0 x) (not (<= y 5.5)))) (assert f (until f (or f true)))"); mc::transition();
      const std::string f = "(and (> x 0x0p+0) (not (<= y 0x1.6p+2)))";
      if (!s || s->formulas.size() != 1 || s->assertions.size() != 1 || astr::str(s->formulas.at("f")) != f || astr::str(s->assertions.at("f")) != "(until " + f + " (or " + f + " true))") p.bad("parsing gave something else");
      break;
    }
    case 27: {
      for (const char* t : {"(assert g f)", "(define-formula f (and x", "(define-formula a (< x 1)) (define-formula a (< x 1))"}) { bool thrown = false; try { (void)stl::parser::from_string(t); } catch (const std::exception&) { thrown = true; } mc::transition(); if (!thrown) p.bad(std::string("accepted ") + t); }
      break;
    }
#endif
  }
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
#if defined(__SANITIZE_ADDRESS__)
  int depth = th ? 4 : 3;
#else
  int depth = th ? 5 : 4;
#endif
  for (bool same : {false, true})
    for (int d = depth; d <= depth; d++) {
      u64 n = 1; for (int k = 0; k < d; k++) n *= NOPS;
      mc::family(same ? "history-sync" : "history-async", n, [=](u64 i) {
        Pool p(same); u64 h = 5;
        if (mc::verbose) { std::string l; u64 j = i; for (int k = 0; k < d; k++) { l += (k ? ", " : "") + std::string(names[j % NOPS]); j /= NOPS; } mc::desc("history: " + l + "; x = " + ref::str(pw(p.x.m)) + ", y = " + ref::str(pw(p.y.m))); }
        u64 j = i;
        for (int k = 0; k < d; k++) {
          step(p, int(j % NOPS)); j /= NOPS; p.intact();
          h = mc::mix(bind_::henv(p.env()), p.F.size()); for (auto& r : p.R) h = bind_::hsig(*r.s, h);
          mc::state(h);
        }
        mc::outcome(h); mc::trace(); return true;
      }, "every sequence of " + std::to_string(d) + " of " + std::to_string(NOPS) + " operations over one pool (two signals, six formulas sharing subformulas, all earlier results)");
    }
  // results are the caller's own: whatever was asked before, appending to one result changes no other one, no argument, and nothing asked later
  auto x = x0(), y = P("y", LT, 0.5), T = mk(TRUE_), Fa = mk(FALSE_); auto nt = [](Fm f) { return mk(NOT, {f}); };
  std::vector<Fm> base{x, y, T, Fa, nt(x), mk(AND, {x, y}), mk(OR, {x, Fa}), mk(OR, {y, T}), mk(G, {x}), mk(F, {mk(AND, {x, y})}), win(GI, 0.5, 1.5, mk(OR, {x, y})), win(FI, 0, INF, y), win(FI, 100, 200, x), mk(U, {x, y}), mk(U, {T, x}), mk(U, {mk(AND, {x, y}), x})}, own;
  for (auto& f : base) { own.push_back(f); own.push_back(nt(f)); own.push_back(mk(G, {f})); own.push_back(mk(F, {f})); own.push_back(win(GI, 0, 1, f)); own.push_back(win(FI, 0.5, 2, f)); own.push_back(mk(AND, {f, x})); own.push_back(mk(OR, {y, f})); own.push_back(mk(U, {f, x})); own.push_back(mk(U, {y, f})); }
  std::vector<Env> oe{{{"x", Pwl{{{0, 1}, {1, -1}, {3, 2}}}}, {"y", Pwl{{{0, 0}, {2, 1}, {3, 0}}}}}, {{"x", Pwl{{{0, 1}, {1, -1}}}}, {"y", Pwl{{{2, 0}, {3, 1}}}}}, {{"x", Pwl{{{1, 0.5}}}}, {"y", Pwl{{{1, 0.25}}}}}, {{"x", Pwl{{{0, 2}, {2, 1}}}}, {"y", Pwl{{{2, 0}, {4, 1}}}}}, {{"x", Pwl{{{3, 2}}}}, {"y", Pwl{{{0, 1}, {1, 1}}}}}, {{"x", Pwl{{{0, -1}, {1, -1}, {2, -1}}}}, {"y", Pwl{{{0, -1}, {1, -1}, {2, -1}}}}}};
  u64 on = own.size(), en = oe.size();
  mc::family("own-results", on * en * en, [=](u64 i) {
    auto& f = own[i % on]; auto &e1 = oe[i / on % en], &e2 = oe[i / on / en]; auto E = bind_::expr(f); auto t1 = bind_::trace(e1), t2 = bind_::trace(e2);
    auto what = [&] { return ref::str(f) + " on " + bind_::str(e1) + " and " + bind_::str(e2); }; if (mc::verbose) mc::desc(what());
    auto s1 = snap(*t1["x"]), s2 = snap(*t1["y"]);
    auto a = stl::compute_robustness(E, t1), b = stl::compute_robustness(E, t1), c = stl::compute_robustness(E, t2), d = stl::compute_robustness(bind_::expr(f), t2); mc::transition(4);
    std::vector<SignalPtr> all{a, b, c, d}; std::vector<Snap> sn; for (auto& o : all) sn.push_back(snap(*o));
    for (size_t k = 0; k < all.size(); k++) {
      all[k]->push_back(all[k]->empty() ? 0.0 : all[k]->end_time() + 1, 5); mc::transition();
      for (size_t j = 0; j < all.size(); j++) if (j != k && !eq(snap(*all[j]), sn[j])) mc::fail(what() + ": appending to one result changed another one");
      sn[k] = snap(*all[k]);
      if (!eq(snap(*t1["x"]), s1) || !eq(snap(*t1["y"]), s2)) mc::fail(what() + ": appending to the result changed the trace");
    }
    try { bind_::check_rho(f, E, e1, t1); bind_::check_rho(f, E, e2, t2); } catch (mc::Violation& v) { mc::fail(what() + ", after its earlier results were appended to: " + v.msg); }
    mc::state(mc::mix(i, 17)); mc::trace(); return true;
  }, std::to_string(on) + " formulas on all pairs of 6 traces (one sample, disjoint and touching domains among them), every result appended to");
  mc::family("own-signals", en * en * 6, [=](u64 i) {
    Pwl ps[5] = {oe[i % en][0].second, oe[i % en][1].second, oe[i / en % en][0].second, oe[i / en % en][1].second, {}}; int op = int(i / en / en);
    std::vector<SignalPtr> in; for (auto& q : ps) in.push_back(bind_::sig(q)); if (mc::verbose) mc::desc("operation " + std::to_string(op) + " on signals " + ref::str(ps[0]) + ", " + ref::str(ps[1]) + ", " + ref::str(ps[2]) + ", " + ref::str(ps[3]));
    auto ask = [&] {
      std::vector<SignalPtr> r;
      for (size_t a = 0; a < in.size(); a++) switch (op) {
        case 0: r.push_back(in[a]->simplify()); break; case 1: r.push_back(in[a]->shift(1)); break; case 2: r.push_back(in[a]->shift(0)); break;
        case 3: r.push_back(in[a]->resize(10, 20, 3)); r.push_back(in[a]->resize(0.5, 2.5, 3)); r.push_back(in[a]->resize(-100, 100, 3)); if (!in[a]->empty()) r.push_back(in[a]->resize(in[a]->begin_time(), in[a]->end_time(), 3)); break;
        case 4: r.push_back(in[a]->resize_shift(10, 20, 3, 1)); r.push_back(in[a]->resize_shift(0, 2, 3, 0)); break;
        default: for (size_t b = 0; b < in.size(); b++) { auto [p, q] = stl::signal::synchronize(in[a], in[b]); r.push_back(p); r.push_back(q); }
      }
      mc::transition(r.size()); return r;
    };
    auto r1 = ask(), r2 = ask(); std::vector<SignalPtr> all = r1; all.insert(all.end(), r2.begin(), r2.end()); all.insert(all.end(), in.begin(), in.end());
    std::vector<Snap> sn; for (auto& o : all) sn.push_back(snap(*o)); auto orig = sn;
    for (size_t k = 0; k < r1.size() + r2.size(); k++) {
      all[k]->push_back(all[k]->empty() ? 0.0 : all[k]->end_time() + 1, 5); mc::transition();
      for (size_t j = 0; j < all.size(); j++) if (j != k && !eq(snap(*all[j]), sn[j])) mc::fail("operation " + std::to_string(op) + ": appending to one result changed another one or an argument");
      sn[k] = snap(*all[k]);
    }
    auto r3 = ask(); for (size_t k = 0; k < r3.size(); k++) if (!eq(snap(*r3[k]), orig[k])) mc::fail("operation " + std::to_string(op) + " gives another result after its earlier results were appended to: " + bind_::str(*r3[k]) + " instead of " + ref::str(pw(orig[k])));
    mc::state(mc::mix(i, 18)); mc::trace(); return true;
  }, "simplify, shift, resize, resize_shift and synchronize on every two traces' signals and an empty one, every result appended to");
  // one operation repeated many times, then each other one
  std::vector<int> reps{2, 4, 8, 9, 16, 17, 33, 65, 129, 257, 513};
#if defined(__SANITIZE_ADDRESS__)
  reps = {5, 17, 65};
#endif
  for (bool same : {false, true})
    mc::family(same ? "repetition-sync" : "repetition-async", reps.size() * NOPS * NOPS, [=](u64 i) {
      int r = reps[i % reps.size()]; int a = int(i / reps.size() % NOPS), b = int(i / reps.size() / NOPS);
      Pool p(same); if (mc::verbose) mc::desc(std::string(names[a]) + ", " + std::to_string(r) + " times, then " + names[b] + " and " + names[a]);
      auto trim = [&] { if (p.R.size() > 12) p.R.erase(p.R.begin(), p.R.begin() + 8); if (p.F.size() > 8) { p.F.resize(6); p.Fm_.resize(6); p.Fs.resize(6); } };
      u64 h = 5; int done = 0;
      for (; done < r; done++) {
        p.log.clear(); step(p, a); trim(); mc::heartbeat();
        if (p.x.m.size() > 200 || p.y.m.size() > 200) { done++; break; }
        if ((done & (done + 1)) == 0) p.intact();
      }
      p.log = std::string(names[a]) + " " + std::to_string(done) + " times"; p.intact();
      for (int o : {b, a, 2, b, 4}) { step(p, o); p.intact(); }
      h = mc::mix(bind_::henv(p.env()), p.F.size()); for (auto& q : p.R) h = bind_::hsig(*q.s, h);
      mc::state(h); mc::outcome(h); mc::trace(); return true;
    }, "every operation repeated 2 to 513 times, followed by every other one");
#if !defined(__SANITIZE_ADDRESS__)
  // ... and very many times
  std::vector<int> many{1025, 4097, 65537}; if (th) many.push_back(1100000);
  mc::family("many-repetitions", many.size() * NOPS, [=](u64 i) {
    int r = many[i % many.size()], a = int(i / many.size()); Pool p(false); if (mc::verbose) mc::desc(std::string(names[a]) + ", " + std::to_string(r) + " times, then every other operation");
    int done = 0; u64 h = 5;
    for (; done < r; done++) {
      p.log.clear(); step(p, a); mc::heartbeat();
      if (p.R.size() > 12) p.R.erase(p.R.begin(), p.R.begin() + 8);
      if (p.F.size() > 8) { p.F.resize(6); p.Fm_.resize(6); p.Fs.resize(6); }
      if (p.x.m.size() > 200 || p.y.m.size() > 200) { done++; break; }
    }
    p.log = std::string(names[a]) + " " + std::to_string(done) + " times"; p.intact();
    for (int b = 0; b < NOPS; b++) { step(p, b); p.intact(); }
    h = mc::mix(bind_::henv(p.env()), p.F.size()); for (auto& q : p.R) h = bind_::hsig(*q.s, h);
    mc::state(h); mc::outcome(h); mc::trace(); return true;
  }, "every operation repeated 1025, 4097 and 65537 times, then all operations");
#endif
}
