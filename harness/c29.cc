// C29: running out of memory.  Every allocation of every operation fails in turn (alone, or with all
// later ones); the operation must end with std::bad_alloc or its normal result, without a crash or a
// leak and with every existing object as it was; afterwards everything works as if it had not been tried.
#include "astr.hpp"
#include "bind.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/parser.hpp"
#include <cstdlib>
#include <fstream>
#include <new>
#include <sstream>
#include <unistd.h>
using mc::u64;
namespace stl = signal_tl;
using stl::ast::Expr;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;

namespace fault {
bool armed = false, later = false; u64 count = 0, at = ~0ull, live = 0;
void* get(std::size_t n, std::size_t align, bool nothrow) {
  if (armed) { u64 k = count++; if (k == at || (later && k > at)) { if (nothrow) return nullptr; throw std::bad_alloc(); } }
  void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  live++; return p;
}
void put(void* p) { if (p) { live--; std::free(p); } }
/// the library calls of an operation run inside this: only their allocations fail
template <class F> auto lib(F f) { struct G { G() { armed = true; } ~G() { armed = false; } } g; return f(); }
} // namespace fault
void* operator new(std::size_t n) { return fault::get(n, 0, false); }
void* operator new[](std::size_t n) { return fault::get(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return fault::get(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return fault::get(n, std::size_t(a), false); }
void operator delete(void* p) noexcept { fault::put(p); }
void operator delete[](void* p) noexcept { fault::put(p); }
void operator delete(void* p, std::size_t) noexcept { fault::put(p); }
void operator delete[](void* p, std::size_t) noexcept { fault::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { fault::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { fault::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { fault::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { fault::put(p); }

namespace {
using fault::lib;
std::string show(const Signal& s) { std::string r = std::to_string(s.size()) + ":"; for (auto it = s.begin(); it != s.end(); ++it) r += "(" + astr::dbl(it->time) + "," + astr::dbl(it->value) + "," + astr::dbl(it->derivative) + ")"; return r; }
std::string show(const SignalPtr& s) { return s ? show(*s) : "null"; }
std::string show(const stl::Specification& s) { std::string r; for (auto& p : s.formulas) r += p.first + "=" + astr::str(p.second) + ";"; r += "|"; for (auto& p : s.assertions) r += p.first + "=" + astr::str(p.second) + ";"; return r; }

const std::string LX = "a signal with a long name", LY = "another signal with a long name";
struct World {
  stl::signal::Trace tr, one; SignalPtr x, y, full, none; Signal copy; std::vector<Expr> f; std::map<std::string, Expr> named; std::string spec, file; std::unique_ptr<stl::Specification> sp;
  World() {
    x = tr[LX] = std::make_shared<Signal>(std::vector<double>{1, -1, -1, 0.5}, std::vector<double>{0, 1, 2, 3});
    y = tr[LY] = std::make_shared<Signal>(std::vector<double>{0, 1, 0.25}, std::vector<double>{0.5, 1.5, 3});
    full = std::make_shared<Signal>(); for (int k = 0; k < 8; k++) full->push_back(k, k % 3); // no spare capacity
    none = std::make_shared<Signal>(); copy = *y; one[LX] = std::make_shared<Signal>(std::vector<double>{2}, std::vector<double>{1}); one[LY] = one[LX];
    auto a = stl::Predicate(LX) >= 0, b = stl::Predicate(LY) < 0.5; auto c = stl::And({a, b}), e = stl::Eventually(a, {0.0, 1.0});
    f = {a, c, stl::Or({c, stl::Not(b), stl::Const(true)}), stl::Until(e, stl::Or({c, stl::Not(b)})), stl::Always(stl::And({c, e, stl::Const(true)}), {0.5, 1.5}), stl::Eventually(stl::Always(stl::Xor(a, b))), stl::And({a, b, stl::Not(a), stl::Const(true), stl::Predicate(LY) <= 3, stl::Predicate(LX) > 0.125}), stl::Always(b, {1ull, 2ull}), stl::Until(stl::Const(true), stl::Until(b, a)), stl::Not(stl::Implies(c, stl::Iff(a, b)))};
    named["first formula of the world"] = f[3];
    spec = "(define-formula a_formula_with_a_long_name (and (< 0 a_signal_with_a_long_name) (not (<= y 5.5e1)))) ; comment\n(define-formula p (< x 1))(define-formula e (iff p (xor p true)))"
           "(assert f (until a_formula_with_a_long_name (or p true (eventually (always e))))) (assert an_assertion_with_a_long_name (implies e (> y 2.5)))";
    sp = stl::parser::from_string("(define-formula p (> x 0)) (assert r (and p (eventually (<= y 0.5))))");
  }
  std::string text() const {
    std::string r; for (auto* t : {&tr, &one}) for (auto& p : *t) r += p.first + "=" + show(p.second) + ";";
    for (auto& s : {x, y, full, none}) r += show(s) + ";"; r += show(copy); for (auto& e : f) r += astr::str(e) + ";"; for (auto& p : named) r += p.first + "=" + astr::str(p.second); return r + spec + show(*sp);
  }
};
struct Op { std::string name; std::function<std::string(World&)> f; };
/// an operation that is an error even with memory: its kind of error is its result (the message may be
/// cut short: standard streams swallow the exception)
std::string error(const std::function<std::string()>& f) { try { return f(); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { return std::string("<") + typeid(e).name() + ">"; } }
std::vector<Op>& ops() {
  static std::vector<Op> v; if (!v.empty()) return v;
  auto add = [&](std::string n, std::function<std::string(World&)> f) { v.push_back({std::move(n), std::move(f)}); };
  // signals
  add("append to a signal", [](World& w) { lib([&] { w.x->push_back(4, 2); }); return show(w.x); });
  add("append a sample to a full signal", [](World& w) { lib([&] { w.full->push_back(Sample{9.5, -3}); }); return show(w.full); });
  add("append to an empty signal", [](World& w) { lib([&] { w.none->push_back(1, 1); }); return show(w.none); });
  add("append to a copy", [](World& w) { lib([&] { w.copy.push_back(3.5, 1); }); return show(w.copy); });
  add("rejected append", [](World& w) { return error([&] { lib([&] { w.x->push_back(2.5, 2); }); return std::string("accepted"); }); });
  add("construct from values and times", [](World&) { std::vector<double> a{1, 2, 4, 4, 5}, b{0, 1, 2, 3.5, 4}; return show(lib([&] { return std::make_shared<Signal>(a, b); })); });
  add("construct from samples", [](World&) { std::vector<Sample> a{{0, 1}, {1, 3}, {2.5, 3}}; return show(lib([&] { return std::make_shared<Signal>(a); })); });
  add("rejected construction", [](World&) { std::vector<double> a{1, 2, 4}, b{0, 1, 1}, c{0}; return error([&] { lib([&] { Signal s(a, b); }); return std::string("accepted"); }) + error([&] { lib([&] { Signal s(a, c); }); return std::string("accepted"); }); });
  add("copy a signal", [](World& w) { return show(lib([&] { return std::make_shared<Signal>(*w.full); })); });
  add("assign a signal", [](World& w) { Signal s(*w.y); std::string before = show(s); try { lib([&] { s = *w.full; }); } catch (const std::bad_alloc&) { if (show(s) != before && show(s) != show(w.full)) mc::fail("an assignment that ran out of memory left " + show(s)); throw; } return show(s); });
  add("simplify", [](World& w) { return show(lib([&] { return w.x->simplify(); })); });
  add("resize", [](World& w) { return show(lib([&] { return w.x->resize(-0.5, 4.5, 9); })); });
  add("shift", [](World& w) { return show(lib([&] { return w.x->shift(2); })); });
  add("resize and shift", [](World& w) { return show(lib([&] { return w.full->resize_shift(0.5, 2.5, 9, -1); })); });
  add("synchronize", [](World& w) { auto p = lib([&] { return stl::signal::synchronize(w.x, w.y); }); return show(std::get<0>(p)) + show(std::get<1>(p)); });
  add("read a signal", [](World& w) { return astr::dbl(lib([&] { return w.x->at(1.25).value + (*w.x->begin_at(0.5)).time; })); });
  add("rejected reads", [](World& w) { return error([&] { return astr::dbl(lib([&] { return w.x->at(9).value; })); }) + error([&] { return astr::dbl(lib([&] { return w.none->at(0).value; })); }); });
  // formulas
  add("predicate", [](World&) { std::string n = LX; return astr::str(lib([&] { return Expr(stl::Predicate(n) > 1.5); })); });
  add("and", [](World& w) { return astr::str(lib([&] { return stl::And({w.f[0], w.f[1], w.f[3]}); })); });
  add("or", [](World& w) { return astr::str(lib([&] { return stl::Or({w.f[2], w.f[4]}); })); });
  add("not", [](World& w) { return astr::str(lib([&] { return stl::Not(w.f[6]); })) + astr::str(lib([&] { return ~w.f[9]; })); });
  add("implies", [](World& w) { return astr::str(lib([&] { return stl::Implies(w.f[1], w.f[3]); })); });
  add("xor", [](World& w) { return astr::str(lib([&] { return stl::Xor(w.f[1], w.f[0]); })); });
  add("iff", [](World& w) { return astr::str(lib([&] { return stl::Iff(w.f[2], w.f[5]); })); });
  add("operator &", [](World& w) { return astr::str(lib([&] { return w.f[1] & w.f[0]; })) + astr::str(lib([&] { return w.f[0] & w.f[6]; })) + astr::str(lib([&] { return w.f[6] & w.f[1]; })); });
  add("operator |", [](World& w) { return astr::str(lib([&] { return w.f[2] | w.f[0]; })) + astr::str(lib([&] { return w.f[0] | w.f[2]; })) + astr::str(lib([&] { return w.f[2] | w.f[2]; })); });
  add("operator >>", [](World& w) { return astr::str(lib([&] { return w.f[2] >> w.f[1]; })); });
  add("always", [](World& w) { return astr::str(lib([&] { return stl::Always(w.f[1]); })) + astr::str(lib([&] { return stl::Always(w.f[1], {0.5, 2.0}); })); });
  add("eventually", [](World& w) { return astr::str(lib([&] { return stl::Eventually(w.f[1]); })) + astr::str(lib([&] { return stl::Eventually(w.f[1], {1ull, 2ull}); })); });
  add("until", [](World& w) { return astr::str(lib([&] { return stl::Until(w.f[1], w.f[0]); })) + astr::str(lib([&] { return stl::Until(w.f[1], w.f[0], {0.0, 2.0}); })); });
  add("rejected formulas", [](World& w) { return error([&] { return astr::str(lib([&] { return stl::And({w.f[0]}); })); }) + error([&] { return astr::str(lib([&] { return stl::Always(w.f[0], {3.0, 1.0}); })); }); });
  add("copy formulas", [](World& w) { auto c = lib([&] { return w.f; }); std::string r; for (auto& e : c) r += astr::str(e); return r; });
  // evaluation
  for (int k = 0; k < 10; k++) add("evaluate formula " + std::to_string(k), [k](World& w) { return show(lib([&] { return stl::compute_robustness(w.f[k], w.tr); })); });
  for (int k = 0; k < 10; k += 3) add("evaluate formula " + std::to_string(k) + " at one point", [k](World& w) { return show(lib([&] { return stl::compute_robustness(w.f[k], w.one); })); });
  add("rejected evaluations", [](World& w) { std::string r; for (auto& e : {Expr(stl::Predicate("no signal has this name") > 1), stl::Until(w.f[0], w.f[1], {1.0, 2.0}), stl::Always(w.f[0], {3ull, 1ull})}) r += error([&] { return show(lib([&] { return stl::compute_robustness(e, w.tr); })); }); return r; });
  // printing
  for (int k = 0; k < 10; k += 3) add("print formula " + std::to_string(k), [k](World& w) { std::string r = lib([&] { return fmt::format("{}", w.f[k]); }); return r + lib([&] { return fmt::to_string(w.f[k]); }); });
  add("print a formula to a stream", [](World& w) { std::ostringstream o; o.exceptions(std::ios::badbit | std::ios::failbit); lib([&] { ::operator<<(o, w.f[2]); }); return o.str(); });
  add("print a signal", [](World& w) { return lib([&] { return fmt::format("{}", *w.full); }) + lib([&] { return fmt::format("{}", w.x->front()); }); });
  // parsing
  add("parse", [](World& w) { auto s = lib([&] { return stl::parser::from_string(w.spec); }); return s ? show(*s) : "null"; });
  add("parse a file", [](World&) { auto p = mc::scratch() + "/c29"; stdfs::path path(p); auto s = lib([&] { return stl::parser::from_file(path); }); return s ? show(*s) : "null"; });
  std::vector<std::string> bads{"(define-formula f (and x", "(assert a (until f (and a_name_that_is_long another_name_that_is_long)))", "(define-formula f (< x 1)) (define-formula f (< x 2))", "nothing", "(assert a (< x 1e400))", "(assert a true) (assert a false)", "(assert a (until (< x 1) (< y 2) (< z 3)))"};
  for (auto& t : bads) add("rejected parse of " + t, [t](World&) { return error([&] { auto s = lib([&] { return stl::parser::from_string(t); }); return show(*s); }); });
  add("copy a specification", [](World& w) { auto s = lib([&] { return stl::Specification(*w.sp); }); return show(s); });
  return v;
}
/// The same on large objects: code that works in blocks, reserves, pools or splits beyond some size.
struct Big {
  stl::signal::Trace tr; SignalPtr x; Expr wide, deep, win, unb; std::string spec, nest, bad, nestbad;
  Big() {
    auto wave = [](int n, double t0, int k) { auto r = std::make_shared<Signal>(); for (int i = 0; i < n; i++) r->push_back(t0 + i * 0.5, (i * k) % 23 - 11); return r; };
    x = tr["x"] = wave(100, 0, 7); tr["y"] = wave(90, 0.25, 11); for (int i = 0; i < 20; i++) tr["z" + std::to_string(i)] = wave(3, 0, i);
    Expr a = stl::Predicate("x") >= 0, b = stl::Predicate("y") < 0.5; std::vector<Expr> ks; for (int i = 0; i < 20; i++) ks.push_back(i % 3 ? Expr(stl::Predicate("z" + std::to_string(i)) > i) : i % 2 ? a : b);
    wide = stl::And({stl::And(ks), stl::Or(ks)}); deep = a; for (int i = 0; i < 24; i++) deep = i % 2 ? stl::Not(deep) : i % 4 ? stl::Always(deep) : stl::Or({deep, b});
    win = stl::And({stl::Eventually(a, {0.5, 8.0}), stl::Always(b, {0.0, 90.0})}); unb = stl::Until(stl::Eventually(a), stl::Always(stl::Or({a, b})));
    for (int i = 0; i < 24; i++) spec += "(define-formula a_formula_with_a_long_name_" + std::to_string(i) + (i % 3 ? " (and (< a_signal_with_a_long_name " + std::to_string(i) + ".5) (not a_formula_with_a_long_name_" + std::to_string(i - 1) + "))" : std::string(" (eventually (> y 1e3))")) + ") ; comment\n";
    bad = spec + "(assert g nowhere)"; spec += "(assert g (or"; for (int i = 0; i < 24; i++) spec += " a_formula_with_a_long_name_" + std::to_string(i); spec += "))";
    nest = "(assert n "; for (int i = 0; i < 24; i++) nest += i % 3 ? "(or (< x " + std::to_string(i) + ") " : i % 2 ? "(not " : "(and true "; nestbad = nest + "nowhere" + std::string(25, ')'); nest += "true" + std::string(25, ')');
  }
  std::string text() const { std::string r = astr::str(wide) + astr::str(deep) + astr::str(win) + astr::str(unb); for (auto& p : tr) r += p.first + show(p.second); return r; }
};
Big& B() { static Big b; return b; }
std::vector<Op>& big_ops() {
  static std::vector<Op> v; if (!v.empty()) return v;
  auto add = [&](std::string n, std::function<std::string(World&)> f) { v.push_back({std::move(n), std::move(f)}); };
  for (int n : {2, 4, 16, 32, 64, 128, 256, 512, 1024, 4096, 65536}) for (bool tight : {false, true}) add("append to a signal of " + std::to_string(n) + (tight ? " samples, a copy" : " samples"), [n, tight](World&) {
    auto s = std::make_shared<Signal>(); for (int i = 0; i < n; i++) s->push_back(i, i % 5); if (tight) s = std::make_shared<Signal>(*s); auto sum = [&] { u64 h = s->size(); for (auto& q : *s) { u64 w[3]; std::memcpy(w, &q, 24); h = mc::mix(h, mc::mix(w[0], mc::mix(w[1], w[2]))); } return h; }; u64 was = sum();
    try { lib([&] { s->push_back(n + 0.5, 9); }); } catch (const std::bad_alloc&) { if (sum() != was) mc::fail("an append that ran out of memory changed the signal of " + std::to_string(n) + " samples"); throw; }
    return std::to_string(sum()); });
  add("construct long signals", [](World&) { std::vector<double> a, t; std::vector<Sample> l; for (int i = 0; i < 100; i++) { a.push_back(i % 7); t.push_back(i); l.push_back({i * 1.0, i % 5 * 1.0, 0}); } return show(lib([&] { return std::make_shared<Signal>(a, t); })) + show(lib([&] { return std::make_shared<Signal>(l); })); });
  add("derive from a long signal", [](World&) { auto& x = B().x; return show(lib([&] { return x->simplify(); })) + show(lib([&] { return x->resize(3.25, 100, 9); })) + show(lib([&] { return x->shift(2); })) + show(lib([&] { return x->resize_shift(-1, 20, 9, 1); })); });
  add("synchronize long signals", [](World&) { auto p = lib([&] { return stl::signal::synchronize(B().x, B().tr["y"]); }); return show(std::get<0>(p)) + show(std::get<1>(p)); });
  add("evaluate windows on long signals", [](World&) { return show(lib([&] { return stl::compute_robustness(B().win, B().tr); })); });
  add("evaluate unbounded operators on long signals", [](World&) { return show(lib([&] { return stl::compute_robustness(B().unb, B().tr); })); });
  add("evaluate 20 operands", [](World&) { return show(lib([&] { return stl::compute_robustness(B().wide, B().tr); })); });
  add("evaluate a deep formula", [](World&) { return show(lib([&] { return stl::compute_robustness(B().deep, B().tr); })); });
  add("combine large formulas", [](World&) { auto& b = B(); return astr::str(lib([&] { return (b.wide & b.deep) | (b.win >> b.wide); })); });
  add("print large objects", [](World&) { auto& b = B(); return lib([&] { return fmt::format("{}", b.wide); }) + lib([&] { return fmt::to_string(b.deep); }) + lib([&] { return fmt::to_string(*b.x); }); });
  add("parse a long text", [](World&) { auto s = lib([&] { return stl::parser::from_string(B().spec); }); return show(*s); });
  add("parse a deep text", [](World&) { auto s = lib([&] { return stl::parser::from_string(B().nest); }); return show(*s); });
  add("reject a long text", [](World&) { return error([&] { auto s = lib([&] { return stl::parser::from_string(B().bad); }); return show(*s); }); });
  add("reject a deep text", [](World&) { return error([&] { auto s = lib([&] { return stl::parser::from_string(B().nestbad); }); return show(*s); }); });
  return v;
}
/// the text of one attempt; "" and failed = true when it ran out of memory
std::string attempt(const Op& o, World& w, bool& failed) {
  failed = false; fault::count = 0;
  try { return o.f(w); } catch (const std::bad_alloc&) { failed = true; return ""; }
}
} // namespace

void mc_register() {
  bool th = mc::thorough(); auto& v = ops(); u64 n = v.size(); constexpr u64 SL = 16;
  { std::ofstream o(mc::scratch() + "/c29"); World w; o << w.spec; }
  auto base = std::make_shared<std::vector<std::string>>(n); // results with memory, filled when first needed
  auto want = [=](u64 k) -> const std::string& { auto& s = (*base)[k]; if (s.empty()) { World w; bool failed; fault::at = ~0ull; fault::later = false; s = attempt(ops()[k], w, failed); if (failed) mc::fail(ops()[k].name + " runs out of memory by itself"); } return s; };
  mc::family("single", n * SL * 2, [=](u64 i) {
    u64 later = i % 2, slice = i / 2 % SL, k = i / 2 / SL; auto& o = ops()[k]; if (mc::verbose) mc::desc(o.name + (later ? ", memory lasts for n allocations" : ", its n-th allocation fails"));
    for (u64 q = 0; q < n; q++) want(q); // everything lazily initialised is, before allocations are counted
    World ref; std::string before = ref.text(); const std::string& expected = want(k);
    bool failed = false; { World w; attempt(o, w, failed); } u64 N = 0; { World w; fault::at = ~0ull; attempt(o, w, failed); N = fault::count; }
    for (u64 a = slice; a < N; a += SL) {
      auto what = [&] { return o.name + " with " + (later ? "memory for " + std::to_string(a) + " allocations" : "allocation " + std::to_string(a) + " of " + std::to_string(N) + " failing"); };
      World w; std::string r; r.reserve(4096); u64 live = fault::live; fault::at = a; fault::later = later;
      try { r = attempt(o, w, failed); } catch (const mc::Violation& x) { fault::at = ~0ull; fault::later = false; mc::fail(what() + ": " + x.msg); } catch (const std::exception& e) { fault::at = ~0ull; fault::later = false; mc::fail(what() + " throws " + typeid(e).name() + ": " + e.what()); }
      fault::at = ~0ull; fault::later = false; mc::transition();
      if (failed) {
        if (fault::live != live) { // something may have been kept for later, once; a leak happens every time
          long lost = long(fault::live - live); bool every = lost > 0;
          for (int t = 0; t < 3 && every; t++) { bool f2; World u; u64 l = fault::live; fault::at = a; fault::later = later; try { attempt(o, u, f2); } catch (...) {} fault::at = ~0ull; fault::later = false; every = fault::live > l; }
          if (every) mc::fail(what() + " leaks " + std::to_string(lost) + " allocation(s)");
        }
        std::string now = w.text(); if (now != before) mc::fail(what() + " changed an object; before\n  " + before + "\nafter\n  " + now);
        bool f2; std::string again = attempt(o, w, f2); mc::transition(); if (again != expected) mc::fail(what() + ", then with memory, gives\n  " + again + "\ninstead of\n  " + expected);
        if (!later || th) { // and every other operation
          World u; try { fault::at = a; fault::later = later; attempt(o, u, f2); } catch (...) {} fault::at = ~0ull; fault::later = false;
          for (u64 q = 0; q < n; q++) { if (q <= 3) continue; mc::transition(); if (attempt(ops()[q], u, f2) != want(q)) mc::fail(what() + ", then " + ops()[q].name + " gives something else than otherwise"); mc::heartbeat(); } // (0-3 append to objects others read)
        }
      } else if (r != expected) mc::fail(what() + " gives\n  " + r + "\ninstead of\n  " + expected);
      mc::state(mc::mix(i, a)); mc::outcome(mc::mix(k, failed)); mc::trace();
    }
    mc::info("allocations failed", N > slice ? (N - slice + SL - 1) / SL : 0); return true;
  }, std::to_string(n) + " operations, every allocation of each failing alone and with all later ones; then the operation again and every other operation");
  mc::family("double", n * SL, [=](u64 i) {
    u64 slice = i % SL, k = i / SL; auto& o = ops()[k]; if (mc::verbose) mc::desc(o.name + ", two attempts that run out of memory at every pair of allocations");
    for (u64 q = 0; q < n; q++) want(q);
    World ref; std::string before = ref.text(); const std::string& expected = want(k); bool failed = false; u64 N = 0; { World w; fault::at = ~0ull; attempt(o, w, failed); N = fault::count; }
    if (N > u64(th ? 1500 : 120)) N = th ? 1500 : 120;
    for (u64 a = slice; a < N; a += SL) for (u64 b = 0; b < N; b++) {
      auto what = [&] { return o.name + " running out of memory at its allocation " + std::to_string(a) + ", then at " + std::to_string(b); };
      World w; bool f1, f2, f3; std::string r1, r2;
      try { fault::at = a; r1 = attempt(o, w, f1); if (!f1) break; fault::at = b; r2 = attempt(o, w, f2); if (!f2) break; } catch (const std::exception& e) { fault::at = ~0ull; mc::fail(what() + ": " + e.what()); }
      fault::at = ~0ull; mc::transition(3); if (w.text() != before) mc::fail(what() + " changed an object; before\n  " + before + "\nafter\n  " + w.text());
      if (attempt(o, w, f3) != expected) mc::fail(what() + ", then with memory, gives something else than otherwise");
      mc::state(mc::mix(mc::mix(i, a), b)); mc::outcome(k); mc::trace(); mc::heartbeat();
    }
    fault::at = ~0ull; return true;
  }, "two failed attempts in a row, at every pair of the first " + std::string(th ? "1500" : "120") + " allocations");
  auto& bv = big_ops(); u64 bn = bv.size();
  mc::family("large", bn * SL * 2, [=](u64 i) {
    u64 later = i % 2, slice = i / 2 % SL, k = i / 2 / SL; auto& o = big_ops()[k]; if (mc::verbose) mc::desc(o.name + (later ? ", memory lasts for n allocations" : ", its n-th allocation fails"));
    std::string before = B().text(), expected; World w; bool failed = false; attempt(o, w, failed); { fault::at = ~0ull; expected = attempt(o, w, failed); } u64 N = fault::count;
    for (u64 a = slice; a < N; a += SL) {
      auto what = [&] { return o.name + " with " + (later ? "memory for " + std::to_string(a) + " allocations" : "allocation " + std::to_string(a) + " of " + std::to_string(N) + " failing"); };
      std::string r; u64 live = fault::live; fault::at = a; fault::later = later;
      try { r = attempt(o, w, failed); } catch (const mc::Violation& x) { fault::at = ~0ull; fault::later = false; mc::fail(what() + ": " + x.msg); } catch (const std::exception& e) { fault::at = ~0ull; fault::later = false; mc::fail(what() + " throws " + typeid(e).name() + ": " + e.what()); }
      fault::at = ~0ull; fault::later = false; mc::transition();
      if (!failed && r != expected) mc::fail(what() + " gives\n  " + r + "\ninstead of\n  " + expected);
      if (failed && fault::live != live) {
        bool every = fault::live > live;
        for (int t = 0; t < 3 && every; t++) { bool f2; u64 l = fault::live; fault::at = a; fault::later = later; try { attempt(o, w, f2); } catch (...) {} fault::at = ~0ull; fault::later = false; every = fault::live > l; }
        if (every) mc::fail(what() + " leaks");
      }
      r.clear(); if (B().text() != before) mc::fail(what() + " changed an object");
      bool f2; if (attempt(o, w, f2) != expected) mc::fail(what() + ", then with memory, gives something else than otherwise"); mc::transition();
      mc::state(mc::mix(i, a)); mc::outcome(mc::mix(k, failed)); mc::trace(); mc::heartbeat();
    }
    mc::info("allocations failed", N > slice ? (N - slice + SL - 1) / SL : 0); return true;
  }, std::to_string(bn) + " operations on large objects (appends at 2 to 65536 samples, signals of 100 samples, 20 operands, 24 levels, 24 definitions), every allocation of each failing alone and with all later ones");
}
