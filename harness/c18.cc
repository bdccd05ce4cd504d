// C18: two threads over shared formulas, signals and texts, under every schedule with a bounded
// number of preemptions at accesses to memory both touch.
#include "astr.hpp"
#include <cmath>
#include <typeinfo>
#include "sched.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/parser.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace ref;
namespace stl = signal_tl;
using mc::u64;
using stl::ast::Expr;
using stl::signal::Signal;
using stl::signal::SignalPtr;

namespace {
struct World {
  stl::signal::Trace tr; Expr f, g, h, alw, evt, both, unt, unt2, many, anym; std::vector<Expr> win, leaf; SignalPtr s; std::string spec, bad, file, all, spec2; std::vector<std::string> bads;
  World() {
    tr["x"] = bind_::sig(Pwl{{{0, 1}, {1, -1}, {2, -1}, {3, 0.5}}}); tr["y"] = bind_::sig(Pwl{{{0.5, 0}, {1.5, 1}, {3, 0.25}}});
    s = tr["x"];
    auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5;
    auto a = stl::And({x, y}); auto ev = stl::Eventually(x, {0.0, 1.0});
    f = stl::Until(ev, stl::Or({a, stl::Not(y)})); g = stl::Always(stl::And({a, ev, stl::Const(true)}), {0.5, 1.5}); h = stl::Xor(a, y);
    alw = stl::Always(x); evt = stl::Eventually(stl::Not(y)); both = stl::Always(stl::Eventually(stl::And({x, y})));
    unt = stl::Until(x, y, {0.0, INFINITY}); unt2 = stl::Until(stl::Const(true), stl::Until(y, x));
    win = {stl::Eventually(x, {0.5, 1.5}), stl::Always(y, {1ull, 2ull}), stl::Always(x, {1.0, INFINITY}), stl::Eventually(y, {0.0, INFINITY}), stl::Eventually(stl::Always(x, {0.0, 0.75}), {0.25, 2.0})};
    leaf = {stl::Predicate("x") > 0.25, stl::Predicate("x") <= 0.25, y, stl::Const(true), stl::Const(false), stl::Not(x), stl::Not(stl::Const(true))};
    many = stl::And({x, y, stl::Not(x), stl::Const(true), stl::Predicate("y") <= 3}); anym = stl::Or({x, y, stl::Not(y), stl::Const(false)});
    all = "(define-formula p (< x 1)) (define-formula q (>= 2.5e-1 y)) ; c\n(define-formula n (not p))(define-formula o (or p q n)) (define-formula i (implies p q)) (define-formula e (iff p q)) (define-formula z (xor q o))"
          "(assert a (always (eventually p))) (assert u (until true (and q false i))) (assert k ((((> y 7)))))";
    spec2 = "(define-formula p (> x 0)) (assert r (and p (eventually (<= y 0.5)) (always (or p (< 3 x)))))";
    bads = {"(define-formula f (and x", "(assert)", "(define-formula f (not g))", "(define-formula f (< x 1)) (define-formula f (< x 2))", "nothing", "(define-formula f (< x y))"};
    spec = "(define-formula f (and (< 0 x) (not (<= y 5.5e1)))) ; comment\n(assert f (until f (or f true (eventually (always f)))))";
    bad = "(define-formula f (and x (or true false))) (assert g (implies true))";
    file = mc::scratch() + "/spec";
  }
};
World& W() { static World w; return w; }
std::string show(const SignalPtr& s) { std::string r; if (!s) return "null"; for (auto it = s->begin(); it != s->end(); ++it) r += "(" + astr::dbl(it->time) + "," + astr::dbl(it->value) + "," + astr::dbl(it->derivative) + ")"; return r; }
std::string show(const stl::Specification& s) { std::string r; for (auto& p : s.formulas) r += p.first + "=" + astr::str(p.second) + ";"; r += "|"; for (auto& p : s.assertions) r += p.first + "=" + astr::str(p.second) + ";"; return r; }
std::string shared_state() { auto& w = W(); return show(w.tr["x"]) + "/" + show(w.tr["y"]) + "/" + astr::str(w.f) + astr::str(w.g) + astr::str(w.h) + "/" + w.spec + w.bad + std::to_string(w.tr.size()) + astr::str(w.alw) + astr::str(w.evt) + astr::str(w.both) + astr::str(w.unt) + astr::str(w.many) + astr::str(w.anym); }

struct Op { const char* name; std::function<std::string()> f; };
/// The same on large objects: code that only shares something (a buffer, a cache, a worker) beyond some size.
struct Large {
  stl::signal::Trace tr; Expr wide, deep, mix, unb; std::string spec, bad, nest; SignalPtr s;
  Large() {
    auto wave = [](int n, double t0, int k) { auto r = std::make_shared<Signal>(); for (int i = 0; i < n; i++) r->push_back(t0 + i * 0.5, (i * k) % 23 - 11); return r; };
    tr["x"] = wave(300, 0, 7); tr["y"] = wave(280, 0.25, 11); for (int i = 0; i < 40; i++) tr["z" + std::to_string(i)] = wave(3, 0, i); s = tr["x"];
    Expr x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5;
    std::vector<Expr> ks; for (int i = 0; i < 40; i++) ks.push_back(i % 3 ? Expr(stl::Predicate("z" + std::to_string(i)) > i) : i % 2 ? x : y);
    wide = stl::And(ks); deep = x; for (int i = 0; i < 40; i++) deep = i % 2 ? stl::Not(deep) : i % 4 ? stl::Always(deep, {0.0, 1.0}) : stl::Or({deep, y});
    mix = stl::Until(stl::Eventually(x, {0.5, 8.0}), stl::Always(y, {0.0, 90.0}));
    unb = stl::Always(stl::Or({stl::Eventually(x), stl::Always(y), stl::Not(stl::Always(x, {2.0, INFINITY}))})); std::vector<Expr> os; for (int i = 0; i < 30; i++) os.push_back(i % 2 ? Expr(stl::Predicate("z" + std::to_string(i)) <= i) : i % 4 ? x : stl::Not(y)); unb = stl::Until(unb, stl::Or(os)); 
    for (int i = 0; i < 60; i++) spec += "(define-formula formula_" + std::to_string(i) + (i % 3 ? " (and (< x " + std::to_string(i) + ".5) (not formula_" + std::to_string(i - 1) + "))" : std::string(" (eventually (> y 1e3))")) + ") ; comment\n";
    nest = "(assert n "; for (int i = 0; i < 24; i++) nest += i % 3 ? "(or (< x " + std::to_string(i) + ") " : "(not "; nest += "true" + std::string(24, ')') + ")";
    bad = spec + "(assert g nowhere)"; spec += "(assert g (or"; for (int i = 0; i < 60; i++) spec += " formula_" + std::to_string(i); spec += "))";
  }
};
Large& L() { static Large w; return w; }
std::string safely(const std::function<std::string()>& f) { try { return f(); } catch (const std::exception& e) { return std::string("<") + typeid(e).name() + " " + e.what() + ">"; } }
std::string eval(const Expr& e) { return safely([&] { return show(stl::compute_robustness(e, W().tr)); }); }
std::string text(const Expr& e) { std::ostringstream o; ::operator<<(o, e); return o.str() + fmt::format("{}", e) + astr::str(e); }
std::vector<Op>& ops() {
  static std::vector<Op> v{
      {"evaluate f", [] { return eval(W().f); }},
      {"evaluate g", [] { return eval(W().g); }},
      {"evaluate h", [] { return eval(W().h); }},
      {"evaluate unbounded always/eventually", [] { return eval(W().alw) + eval(W().evt) + eval(W().both); }},
      {"evaluate windows", [] { std::string r; for (auto& e : W().win) r += eval(e); return r; }},
      {"evaluate until", [] { return eval(W().unt) + eval(W().unt2); }},
      {"evaluate predicates, constants, negation", [] { std::string r; for (auto& e : W().leaf) r += eval(e); return r; }},
      {"evaluate and/or of many", [] { return eval(W().many) + eval(W().anym); }},
      {"evaluate on a trace of its own", [] {
         stl::signal::Trace t; t["x"] = std::make_shared<Signal>(std::vector<double>{0, 2, -1, 3}, std::vector<double>{0, 1, 2, 3}); t["y"] = std::make_shared<Signal>(std::vector<double>{1, 0}, std::vector<double>{0, 3});
         std::string r; for (auto* e : {&W().f, &W().g, &W().alw, &W().evt, &W().unt, &W().many}) r += show(stl::compute_robustness(*e, t)); return r + show(stl::compute_robustness(W().win[0], t)) + show(t["x"]); }},
      {"evaluate one point", [] { stl::signal::Trace t; t["x"] = std::make_shared<Signal>(std::vector<double>{2}, std::vector<double>{1}); t["y"] = t["x"]; std::string r; for (auto* e : {&W().f, &W().g, &W().h, &W().alw, &W().unt}) r += safely([&] { return show(stl::compute_robustness(*e, t)); }); return r; }},
      {"simplify, resize, shift", [] { auto& s = W().s; return show(s->simplify()) + show(s->resize(-0.5, 2.5, 4)) + show(s->shift(0.25)) + show(s->resize_shift(0.5, 4, 9, -1)); }},
      {"synchronize, copy", [] { auto [a, b] = stl::signal::synchronize(W().tr["x"], W().tr["y"]); return show(a) + show(b) + show(std::make_shared<Signal>(*W().s)); }},
      {"build signals", [] {
         Signal a; a.push_back(0, 1); a.push_back(2, 3); a.push_back(stl::signal::Sample{2.5, -1}); Signal b(a); b.push_back(4, 4); auto c = std::make_shared<Signal>(b);
         std::string r = safely([&] { a.push_back(1, 1); return std::string("accepted"); }) + safely([] { Signal z(std::vector<double>{1, 2}, std::vector<double>{0}); return std::string("accepted"); }) + safely([] { Signal z(std::vector<double>{1, 2}, std::vector<double>{3, 1}); return std::string("accepted"); });
         auto [p, q] = stl::signal::synchronize(c, W().s); return r + show(std::make_shared<Signal>(a)) + show(c) + show(p) + show(q) + show(c->simplify()); }},
      {"combine", [] { auto& w = W(); auto e = ((w.f & w.g) | ~w.h) & stl::And({w.g, w.f}); return astr::str(e) + astr::str(stl::Iff(w.f, w.h)) + astr::str(stl::Always(w.g)) + astr::str(w.h & (stl::Predicate("q") > 2.5)); }},
      {"build formulas", [] {
         auto& w = W(); std::string r; auto p = stl::Predicate("p") > 1, q = stl::Predicate("q") <= 2;
         for (auto& e : {stl::And({p, q, w.f}), stl::Or({w.f, w.g, w.h}), stl::Not(w.alw), ~stl::Not(p), stl::Implies(w.f, p), stl::Xor(q, w.g), stl::Iff(p, q), stl::Until(p, q, {0.0, 2.0}), stl::Until(w.f, p), stl::Eventually(w.h, {1ull, 4ull}), stl::Always(q, {0.5, INFINITY}), stl::Const(true) & p, stl::Const(false) | q, w.many & w.many, w.anym | p, w.many | w.anym, stl::Const(true) & stl::Const(false)}) r += astr::str(e) + ";";
         return r + safely([&] { return astr::str(stl::And({p})); }) + safely([&] { return astr::str(stl::Always(p, {3.0, 1.0})); }); }},
      {"print", [] { auto& w = W(); std::ostringstream o; ::operator<<(o, w.f); return o.str() + fmt::format("{} {} {}", w.g, w.h, *w.s); }},
      {"print every kind", [] { auto& w = W(); std::string r = text(w.alw) + text(w.evt) + text(w.unt) + text(w.unt2) + text(w.many) + text(w.anym); for (auto& e : w.win) r += text(e); for (auto& e : w.leaf) r += text(e); return r + fmt::format("{}", W().s->front()); }},
      {"read", [] { auto& s = *W().s; std::string r; for (double t : {0.0, 0.25, 1.0, 2.75, 3.0}) r += astr::dbl(s.at(t).value) + " "; for (auto it = s.begin_at(0.5); it != s.end_at(2); ++it) r += astr::dbl(it->time); try { (void)s.at(9); r += "none"; } catch (const std::exception& e) { r += e.what(); } return r; }},
      {"read everything", [] { auto& s = *W().s; std::string r = astr::dbl(s.begin_time()) + astr::dbl(s.end_time()) + astr::dbl(s.front().value) + astr::dbl(s.back().value) + std::to_string(s.size()) + std::to_string(s.empty()); for (size_t i = 0; i < s.size(); i++) { auto p = s.at_idx(i); r += astr::dbl(p.interpolate(1.25)) + astr::dbl(p.time_intersect(s.front())) + (p < s.front() ? "<" : ">"); } for (auto it = s.rbegin(); it != s.rend(); ++it) r += astr::dbl(it->value); return r + safely([&] { return std::to_string(s.at_idx(77).time); }) + (W().tr["x"] == W().s ? "same" : "other"); }},
      {"parse", [] { return show(*stl::parser::from_string(W().spec)); }},
      {"parse every kind of term", [] { return show(*stl::parser::from_string(W().all)); }},
      {"rejected parse", [] { return safely([] { return show(*stl::parser::from_string(W().bad)); }); }},
      {"rejected parses", [] { std::string r; for (auto& t : W().bads) r += safely([&] { return show(*stl::parser::from_string(t)); }); return r; }},
      {"parse file", [] { return show(*stl::parser::from_file(W().file)); }},
      {"parse and evaluate", [] { auto s = stl::parser::from_string(W().spec2); return eval(s->assertions.at("r")) + text(s->formulas.at("p")); }},
      {"missing signal, bounded until", [] { std::string r; for (auto& e : {Expr(stl::Predicate("nosuch") > 1), stl::Until(W().f, W().g, {1.0, 2.0})}) try { r += show(stl::compute_robustness(e, W().tr)); } catch (const std::exception& x) { r += x.what(); } return r; }},
  };
  return v;
}
std::vector<Op>& large_ops() {
  auto ev = [](const Expr& e) { return safely([&] { return show(stl::compute_robustness(e, L().tr)); }); };
  static std::vector<Op> v{
      {"evaluate on long signals", [=] { return ev(L().mix); }},
      {"evaluate unbounded operators on long signals", [=] { return ev(L().unb); }},
      {"evaluate 40 operands", [=] { return ev(L().wide); }},
      {"evaluate a deep formula", [=] { return ev(L().deep); }},
      {"simplify, resize, shift, synchronize, copy and read long signals", [] {
         auto& s = *L().s; auto [a, b] = stl::signal::synchronize(L().tr["x"], L().tr["y"]);
         std::string r = show(s.simplify()) + show(s.resize(3.25, 1000, 4)) + show(s.shift(0.25)) + show(s.resize_shift(0.5, 90, 9, -1)) + show(a) + show(b) + show(std::make_shared<Signal>(s));
         for (double t = 0; t < 140; t += 3.3) r += astr::dbl(s.at(t).value) + " "; for (auto it = s.begin_at(20); it != s.end_at(120); ++it) r += astr::dbl(it->time); return r; }},
      {"build long signals", [] {
         Signal a; std::vector<double> v, t; std::vector<stl::signal::Sample> l; for (int i = 0; i < 300; i++) { a.push_back(i, i % 7); v.push_back(i % 5); t.push_back(i * 0.5); l.push_back({i * 1.0, i % 3 * 1.0, 0}); }
         return show(std::make_shared<Signal>(a)) + show(std::make_shared<Signal>(v, t)) + show(std::make_shared<Signal>(l)); }},
      {"combine large formulas", [] { return text((L().wide & L().deep) | ~L().mix) + text(L().wide & L().wide) + text(stl::Implies(L().deep, L().wide)); }},
      {"print large objects", [] { return text(L().wide) + text(L().deep) + fmt::format("{}", *L().s); }},
      {"parse a long text", [] { return show(*stl::parser::from_string(L().spec)) + show(*stl::parser::from_string(L().nest)); }},
      {"reject a long text", [] { return safely([] { return show(*stl::parser::from_string(L().bad)); }) + safely([] { return show(*stl::parser::from_string(L().nest + " )")); }) + safely([] { Signal a(*L().s); a.push_back(3, 3); return std::string("accepted"); }); }},
  };
  return v;
}
std::string large_state() { std::string r = shared_state() + astr::str(L().wide) + astr::str(L().deep) + astr::str(L().mix) + astr::str(L().unb) + L().nest + L().spec + L().bad; for (auto& p : L().tr) r += p.first + show(p.second); return std::to_string(mc::hstr(r)); }
} // namespace

void mc_register() {
  bool th = mc::thorough();
  W(); L();
  constexpr u64 SL = 8;
  for (bool large : {false, true})
  for (bool warmed : {false, true}) {
  const int K = (th ? 2 : 1) - large; auto& v = large ? large_ops() : ops(); u64 n = v.size(); auto shared_state = large ? large_state : ::shared_state;
  mc::family(std::string(large ? "large objects" : "schedules") + (warmed ? " after use" : ""), n * n * SL, [=, &v](u64 i) {
    u64 slice = i % SL, pa = i / SL % n, pb = i / SL / n;
    if (pa > pb || (K == 0 && slice)) return false; // both orders are explored below
    { std::ifstream t(W().file); if (!t) { std::string tmp = W().file + std::to_string(getpid()); { std::ofstream o(tmp); o << W().spec; } rename(tmp.c_str(), W().file.c_str()); } }
    auto& A = v[pa].f; auto& B = v[pb].f; std::function<void()> warm; if (warmed) warm = [&] { B(); A(); }; std::function<std::string()> none = [] { return std::string(); };
    sched::Locations shared; std::vector<std::uint32_t> sw; int start = 0;
    auto what = [&] { std::string r = std::string(warmed ? "after both operations were executed once; " : "") + "thread A: " + v[pa].name + ", thread B: " + v[pb].name + "; " + (start ? "B" : "A") + " first"; int k = start; for (auto p : sw) { r += std::string(", switch away from ") + (k ? "B" : "A") + " before its access " + std::to_string(p); k = 1 - k; } return r; };
    auto before = shared_state();
    auto ra = sched::run(0, {}, A, none, shared_state, shared), rb = sched::run(1, {}, none, B, shared_state, shared);
    if (!ra.ok || !rb.ok) mc::fail(what() + ": fails when run alone: " + ra.error + rb.error);
    if (ra.after != before || rb.after != before) mc::fail(what() + ": run alone, a shared object changed\n  before " + before + "\n  after " + ra.after + "\n  after " + rb.after);
    u64 nrun = 0, nover = 0;
    auto check = [&](const sched::Run& r) {
      nrun++; mc::transition(r.steps[0] + r.steps[1]); mc::heartbeat();
      u64 h = mc::mix(pa, pb); h = mc::mix(h, u64(start) + (warmed ? 2 : 0)); for (auto p : sw) h = mc::mix(h, p); mc::state(h);
      if (!r.error.empty() || !r.ok) mc::fail(what() + ": " + r.error);
      if (r.result[0] != ra.result[0]) mc::fail(what() + ": thread A got\n  " + r.result[0] + "\nbut alone it gets\n  " + ra.result[0]);
      if (r.result[1] != rb.result[1]) mc::fail(what() + ": thread B got\n  " + r.result[1] + "\nbut alone it gets\n  " + rb.result[1]);
      if (r.after != before) mc::fail(what() + ": a shared object changed\n  before " + before + "\n  after  " + r.after);
      mc::outcome(mc::hstr(r.result[0] + "|" + r.result[1])); mc::trace();
    };
    if (mc::verbose) mc::desc(what());
    for (int round = 0; round < 6; round++) {
      bool grew = false;
      for (start = 0; start < 2; start++) {
        std::function<void(int)> go = [&](int k) {
          auto r = sched::run(start, sw, A, B, shared_state, shared, warm); grew |= r.grew; nover += r.overflowed; check(r);
          if (k >= K) return;
          int t = (start + k) % 2; u64 from = k >= 2 ? sw[size_t(k - 2)] : 0;
          auto pts = r.points[t];
          for (size_t j = 0; j < pts.size(); j++) { if (pts[j] <= from) continue; if (k == 0 && j % SL != slice) continue; sw.push_back(pts[j]); go(k + 1); sw.pop_back(); }
        };
        sw.clear(); go(0);
      }
      if (!grew) { mc::info("schedules", nrun); mc::info("schedules with unwatched accesses", nover); mc::info("shared_locations", slice == 0 ? shared.size() : 0); return true; }
    }
    mc::fail(what() + ": the set of shared locations does not settle");
  }, std::to_string(n) + " operations over " + (large ? "large " : "") + "shared objects in every pair, every schedule with at most " + std::to_string(K) + " preemption(s) at accesses to memory touched by both threads, both starting threads, each schedule in a fresh process");
  }
}
