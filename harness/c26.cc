// C26: printing is injective on formulas and signals, deterministic, and the same by every route.
#include "astr.hpp"
#include "signal_tl/fmt.hpp"
#include <set>
#include <sstream>
#include <unordered_map>
std::string streamed(const signal_tl::ast::Expr& e) { std::ostringstream o; o << e; return o.str(); }
std::string streamed_after(const signal_tl::ast::Expr& e) { std::ostringstream o; o << std::hex << std::scientific; o.precision(2); o << "[" << e << "]"; std::string s = o.str(); return s.substr(1, s.size() - 2); }
using mc::u64;
namespace {
namespace stl = signal_tl;
using stl::ast::Expr;
const double INF = std::numeric_limits<double>::infinity();
const std::vector<double> consts{0, 1, -1, 0.1, std::nextafter(0.1, 1), 0.5, 10, 100, 1e15, 1e16, 1e17, 123456789.123, 123456789.124, 1e300, 1e-300, 5e-324, 1.0 / 3, 0.1 + 0.2, 0.3, -0.3, 1e-5, 100000, 1000000, 9007199254740992, 9007199254740994, 3.0000000000000004, 3, INF, -INF};
const std::vector<std::string> names{"x", "y", "xx", "x_", "X", "a1", "G", "F", "U", "inf", "true_", "rather_long_signal_name_0123456789_0123456789"};
/// intervals as pairs; every entry denotes another interval
std::vector<stl::ast::Interval> intervals() {
  std::vector<stl::ast::Interval> r{{}};
  for (double a : {0.0, 1.0, 0.5, 0.1, 10.0}) for (double b : {1.0, 2.0, 10.0, 10.5, 100.0, 1e20, INF}) if (b > a && !(a == 0 && b == INF)) r.push_back({a, b});
  r.push_back({3ull, 7ull}); r.push_back({0ull, 3ull}); r.push_back({12ull, 30000000000ull}); return r;
}
using Cmp = Expr (*)(const std::string&, double);
const Cmp cmps[4] = {[](const std::string& n, double c) -> Expr { return stl::Predicate(n) > c; }, [](const std::string& n, double c) -> Expr { return stl::Predicate(n) >= c; }, [](const std::string& n, double c) -> Expr { return stl::Predicate(n) < c; }, [](const std::string& n, double c) -> Expr { return stl::Predicate(n) <= c; }};
/// The formula space: leaves, then one and two levels over a small set of operands, each built afresh on request.
struct Space {
  std::vector<stl::ast::Interval> iv = intervals();
  u64 nleaf = 2 + 4 * names.size() * consts.size();
  bool th;
  explicit Space(bool t) : th(t) {}
  Expr leaf(u64 i) const { if (i < 2) return stl::Const(i == 0); i -= 2; return cmps[i % 4](names[i / 4 % names.size()], consts[i / 4 / names.size()]); }
  // small leaves
  u64 ns() const { return 7; }
  Expr small(u64 i) const { switch (i) { case 0: return stl::Const(true); case 1: return stl::Const(false); case 2: return stl::Predicate("x") > 0; case 3: return stl::Predicate("x") <= 0.5; case 4: return stl::Predicate("y") > 0; case 5: return stl::Predicate("y") >= -1; } return stl::Predicate("F") < 1; }
  // depth 1 over small leaves: unary (not, G/F without interval, with two intervals), binary and ternary and/or, until
  u64 nun() const { return 7; }
  Expr un(u64 o, const Expr& e) const { switch (o) { case 0: return std::make_shared<stl::ast::Not>(e); case 1: return stl::Always(e); case 2: return stl::Eventually(e); case 3: return stl::Always(e, {0.0, 1.0}); case 4: return stl::Eventually(e, {0.0, 1.0}); case 5: return stl::Always(e, {1.0, INF}); } return stl::Eventually(e, {1.0, INF}); }
  u64 nbin() const { return 5; }
  Expr bin(u64 o, const Expr& a, const Expr& b) const { switch (o) { case 0: return stl::And({a, b}); case 1: return stl::Or({a, b}); case 2: return stl::Until(a, b); case 3: return stl::Until(a, b, {0.0, 1.0}); } return stl::Until(a, b, {1.0, INF}); }
  u64 n1(u64 s) const { return s + nun() * s + nbin() * s * s; }
  template <typename Sub> Expr grow(u64 i, u64 s, Sub&& sub) const { // level over s operands, operands themselves included
    if (i < s) return sub(i); i -= s;
    if (i < nun() * s) return un(i % nun(), sub(i / nun())); i -= nun() * s;
    u64 o = i % nbin(); i /= nbin(); return bin(o, sub(i % s), sub(i / s));
  }
  Expr d1(u64 i) const { return grow(i, ns(), [&](u64 k) { return small(k); }); }
  Expr d1n(u64 i) const { return grow(i, 3, [&](u64 k) { return small(k + 2); }); } // narrow: 3 + 21 + 45
  struct Part { const char* n; u64 size; std::function<Expr(u64)> f; };
  std::vector<Part> parts() const {
    std::vector<Part> p; auto self = *this;
    p.push_back({"leaves", nleaf, [self](u64 i) { return self.leaf(i); }});
    p.push_back({"intervals", 5 * iv.size() * 2, [self](u64 i) { auto& v = self.iv[i / 5 % self.iv.size()]; u64 w = i / 5 / self.iv.size(); Expr a = self.small(2 + 2 * w), b = self.small(3); switch (i % 5) { case 0: return stl::Always(a, v); case 1: return stl::Eventually(a, v); case 2: return stl::Until(a, b, v); case 3: return stl::Until(b, a, v); } return stl::Always(stl::Eventually(a, v), v); }});
    u64 s1 = n1(ns()); // 301
    p.push_back({"two levels", n1(s1), [self, s1](u64 i) { return self.grow(i, s1, [&](u64 k) { return self.d1(k); }); }});
    u64 k = th ? 12 : 9; // n-ary over mixed operands
    auto pick = [self](u64 j) -> Expr { static const u64 ix[12] = {2, 4, 0, 7 + 2 * 7, 7 + 2 * 7 + 1, 7 + 2 * 7 + 3, 7 + 49 + 5 * (2 + 7 * 4), 7 + 49 + 5 * (2 + 7 * 4) + 1, 7 + 49 + 5 * (2 + 7 * 4) + 2, 7 + 49 + 5 * (4 + 7 * 2), 7 + 49 + 5 * (4 + 7 * 2) + 1, 3}; return self.d1(ix[j]); };
    for (int n = 3; n <= 5; n++) { u64 z = 2; for (int q = 0; q < n; q++) z *= k; p.push_back({"n-ary", z, [=](u64 i) { bool c = i % 2; i /= 2; std::vector<Expr> v; for (int q = 0; q < n; q++) { v.push_back(pick(i % k)); i /= k; } return c ? stl::And(v) : stl::Or(v); }}); }
    u64 s1n = n1(3); u64 s2n = n1(s1n); // 69, 69 + 483 + 23805
    p.push_back({"three levels", nun() * s2n + (th ? nbin() * s2n * 3 * 2 : 0), [self, s1n, s2n](u64 i) { auto two = [&](u64 j) { return self.grow(j, s1n, [&](u64 q) { return self.d1n(q); }); }; if (i < self.nun() * s2n) return self.un(i % self.nun(), two(i / self.nun())); i -= self.nun() * s2n; u64 o = i % self.nbin(); i /= self.nbin(); bool sw = i % 2; i /= 2; Expr a = self.small(2 + i % 3), b = two(i / 3); return sw ? self.bin(o, b, a) : self.bin(o, a, b); }});
    return p;
  }
};
/// Keeps for every text the hash of the structure that printed it (built once per worker, over the whole space).
struct Table { std::unordered_map<u64, std::pair<u64, u64>> m; bool built = false; }; // text hash -> structure hash, index
} // namespace
void mc_register() {
  bool th = mc::thorough();
  auto sp = std::make_shared<Space>(th); auto parts = std::make_shared<std::vector<Space::Part>>(sp->parts());
  u64 total = 0; for (auto& p : *parts) total += p.size;
  auto at = [=](u64 i) { for (auto& p : *parts) { if (i < p.size) return p.f(i); i -= p.size; } throw std::runtime_error("index"); };
  auto tab = std::make_shared<Table>();
  // One pass per worker fills the table with the first structure printed as each text; every case then
  // looks its own text up.  A collision is a pair, so it is seen whichever worker runs it.
  auto build = [=] { if (tab->built) return; tab->m.reserve(total * 2); for (u64 i = 0; i < total; i++) { Expr e = at(i); u64 s = mc::hstr(astr::str(e)), t = mc::hstr(fmt::to_string(e)); tab->m.emplace(t, std::make_pair(s, i)); if (i % 4096 == 0) mc::heartbeat(); } tab->built = true; };
  mc::family("formulas", total, [=](u64 i) {
    Expr e = at(i); std::string s = astr::str(e); if (mc::verbose) mc::desc(s);
    std::string t = fmt::to_string(e); mc::transition();
    build();
    auto f = tab->m.find(mc::hstr(t)); if (f == tab->m.end()) mc::fail(s + " prints differently the second time: " + t);
    if (f->second.first != mc::hstr(s)) mc::fail("both " + s + " and " + astr::str(at(f->second.second)) + " print " + t);
    Expr c = e, d = at(i);
    if (fmt::to_string(c) != t || fmt::to_string(d) != t) mc::fail("equal formulas " + s + " print " + t + " and " + fmt::to_string(d));
    mc::transition(2);
    std::string routes[7] = {fmt::format("{}", e), streamed(e), streamed_after(e), fmt::format("<{}|{}>", 1, e), "", "", ""};
    routes[3] = routes[3].substr(3, routes[3].size() - 4);
    { fmt::memory_buffer b; fmt::format_to(std::back_inserter(b), "{}", e); routes[4] = fmt::to_string(b); }
    routes[5] = std::visit([](const auto& n) { using N = std::decay_t<decltype(n)>; if constexpr (std::is_same_v<N, stl::ast::Const> || std::is_same_v<N, stl::ast::Predicate>) return fmt::to_string(n); else return fmt::to_string(*n); }, e);
    { std::string q; fmt::format_to(std::back_inserter(q), "{0}{0}", e); if (q != t + t) mc::fail(s + " prints " + q + " when printed twice"); routes[6] = q.substr(0, q.size() / 2); }
    for (auto& r : routes) { mc::transition(); if (r != t) mc::fail(s + " prints " + t + " by one route and " + r + " by another"); }
    if (astr::str(e) != s) mc::fail("printing changed the formula");
    mc::state(mc::hstr(s)); mc::outcome(mc::hstr(t)); mc::trace(); return true;
  }, "all pairs of " + std::to_string(total) + " formulas: leaves over 12 names and 29 constants, " + std::to_string(sp->iv.size()) + " intervals, two levels over 7 leaves, n-ary up to 5, three levels; 8 routes");
  // large formulas: every two of one kind and size differ in one place, so their texts must differ; the text of a formula must also be repeatable
  // (beyond 257 elements, only the changes at some places are compared)
  mc::family("large-formulas", 5 * 36, [=](u64 i) {
    static const int N[36] = {2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 128, 257, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 1999, 2049, 4097, 70001}; int n = N[i % 36]; u64 kind = i / 36; if (kind == 2 || kind == 3) if (n > 2000) return false;
    auto make = [&](int at) -> Expr { // at < 0: the plain one, otherwise element `at` is changed
      auto el = [&](int k) -> Expr { return stl::Predicate("x") > (k == at ? 7.5 : double(k % 3)); };
      if (kind < 2) { std::vector<Expr> v; for (int k = 0; k < n; k++) v.push_back(el(k)); return kind ? stl::Or(v) : stl::And(v); }
      if (kind == 4) { std::string nm(size_t(n), 'n'); if (at >= 0) nm[size_t(at)] = 'm'; return stl::Always(stl::Predicate(nm) <= 0.5); }
      Expr e = stl::Predicate("y") < 1; for (int k = 0; k < n; k++) { if (kind == 2) { switch ((k == at ? k + 1 : k) % 3) { case 0: e = std::make_shared<stl::ast::Not>(e); break; case 1: e = stl::Always(e); break; default: e = stl::Eventually(e, {0.0, 2.0}); } } else e = k % 2 ? stl::Until(el(k), e) : stl::Until(e, el(k)); }
      return e;
    };
    if (mc::verbose) mc::desc("formulas of kind " + std::to_string(kind) + " and size " + std::to_string(n) + ": " + astr::str(make(-1)).substr(0, 300));
    std::set<std::string> seen; for (int at = -1; at < n; at++) { if (n > 257 && at > 1 && at < n - 2 && at != n / 2 && at != n / 4 && at != n / 3) continue; Expr e = make(at); mc::heartbeat(); std::string t = fmt::to_string(e); mc::transition(2); if (!seen.insert(t).second) mc::fail("two formulas of kind " + std::to_string(kind) + " and size " + std::to_string(n) + " print the same text, one with element " + std::to_string(at) + " changed: " + t.substr(0, 1500)); if (fmt::to_string(make(at)) != t || streamed(e) != t || fmt::format("{}", e) != t) mc::fail("a formula of size " + std::to_string(n) + " prints differently by another route"); mc::state(mc::hstr(t)); }
    mc::trace(); return true;
  }, "all pairs within a kind (and, or, unary tower, until tower, name) and size (2 to 257; some of the pairs up to 70001) that differ in one place");
  // signals
  static const std::vector<double> ts{0, 0.1, std::nextafter(0.1, 1), 0.3, 0.1 + 0.2, 1, 1e6, 1e17}, vs{0, 1, -1, 0.1, 1.0 / 3, 1e300, -5e-324, INF};
  struct SigSp { static bool get(u64 i, ref::Pwl& x, int n) { x.p.clear(); u64 mask = i % 256; i /= 256; int c = __builtin_popcountll(mask); if (c > n) return false; for (int k = 0; k < 8; k++) if (mask >> k & 1) { x.p.push_back({ts[k], vs[i % 8]}); i /= 8; } return i == 0; } };
  int n = th ? 4 : 3; u64 z = 256; for (int k = 0; k < n; k++) z *= 8;
  auto st = std::make_shared<Table>();
  auto text = [](const ref::Pwl& x) { return fmt::to_string(*bind_::sig(x)); };
  auto sbuild = [=] { if (st->built) return; for (u64 i = 0; i < z; i++) { ref::Pwl x; if (!SigSp::get(i, x, n)) continue; st->m.emplace(mc::hstr(text(x)), std::make_pair(bind_::hpwl(x), i)); if (i % 4096 == 0) mc::heartbeat(); } st->built = true; };
  mc::family("signals", z, [=](u64 i) {
    ref::Pwl x; if (!SigSp::get(i, x, n)) return false;
    if (mc::verbose) mc::desc(ref::str(x));
    auto s = bind_::sig(x); std::string t = fmt::to_string(*s); mc::transition(); sbuild();
    auto f = st->m.find(mc::hstr(t)); if (f == st->m.end()) mc::fail("the signal " + ref::str(x) + " prints differently the second time");
    if (f->second.first != bind_::hpwl(x)) { ref::Pwl y; SigSp::get(f->second.second, y, n); mc::fail("both " + ref::str(x) + " and " + ref::str(y) + " print " + t); }
    // every time and value, in order
    std::vector<double> nums; const char* p = t.c_str(); while (*p) { char* e = nullptr; if (isdigit((unsigned char)*p) || *p == '-' || *p == '.' || *p == 'i') { double d = strtod(p, &e); if (e != p) { nums.push_back(d); p = e; continue; } } p++; }
    size_t k = 0; for (auto& q : x.p) for (double d : {q.t, q.v}) { while (k < nums.size() && nums[k] != d) k++; if (k == nums.size()) mc::fail("the signal " + ref::str(x) + " prints " + t + ", which does not show " + ref::num(d)); k++; }
    stl::signal::Signal copy = *s; if (fmt::to_string(copy) != t || fmt::format("{}", *s) != t) mc::fail("routes disagree on the signal " + ref::str(x)); mc::transition(2);
    std::string first; if (!x.empty()) { first = fmt::to_string(*s->begin()); if (t.find(first) == std::string::npos) mc::fail("the sample prints " + first + " but the signal " + t); }
    mc::state(bind_::hpwl(x)); mc::outcome(mc::hstr(t)); mc::trace(); return true;
  }, "all pairs of signals of up to " + std::to_string(n) + " samples over 8 times and 8 values");
  mc::family("long-signals", 300, [](u64 i) {
    ref::Pwl x; for (u64 k = 0; k <= i; k++) x.p.push_back({double(k) / 3, double((k * 7) % 11)}); auto s = bind_::sig(x); std::string t = fmt::to_string(*s); mc::transition();
    std::vector<double> nums; const char* p = t.c_str(); while (*p) { char* e = nullptr; if (isdigit((unsigned char)*p) || *p == '-') { double d = strtod(p, &e); if (e != p) { nums.push_back(d); p = e; continue; } } p++; }
    size_t k = 0; for (auto& q : x.p) for (double d : {q.t, q.v}) { while (k < nums.size() && nums[k] != d) k++; if (k == nums.size()) mc::fail("a signal of " + std::to_string(i + 1) + " samples prints " + t); k++; }
    mc::state(i); mc::trace(); return true;
  }, "signals of 1 to 300 samples");
  static const std::vector<u64> big = th ? std::vector<u64>{301, 400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 9999, 10000, 10001, 16385, 32769, 65535, 65536, 65537, 100001, 131073} : std::vector<u64>{400, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097, 10001, 65537};
  mc::family("very-long-signals", big.size(), [](u64 i) {
    // against the same signal with one sample changed: the texts must differ
    u64 n = big[i]; ref::Pwl x; for (u64 k = 0; k < n; k++) x.p.push_back({double(k) / 3, double((k * 7) % 11)}); auto text = [](const ref::Pwl& x) { return fmt::to_string(*bind_::sig(x)); }; std::string t = text(x); mc::transition(2);
    if (text(x) != t) mc::fail("a signal of " + std::to_string(n) + " samples prints differently the second time");
    for (u64 k : {u64(0), u64(1), n / 4, n / 2, n / 2 + 1, n - 2, n - 1}) { auto y = x; y.p[k].v += 0.5; mc::transition(); if (text(y) == t) mc::fail("a signal of " + std::to_string(n) + " samples prints the same when its sample number " + std::to_string(k) + " is another one"); auto z = x; z.p.erase(z.p.begin() + long(k)); mc::transition(); if (text(z) == t) mc::fail("a signal of " + std::to_string(n) + " samples prints the same without its sample number " + std::to_string(k)); mc::heartbeat(); }
    const char* p = t.c_str(); size_t k = 0; bool second = false; while (*p && k < n) { char* e = nullptr; if (isdigit((unsigned char)*p) || *p == '-') { double d = strtod(p, &e); if (e != p) { if (d == (second ? x.p[k].v : x.p[k].t)) { if (second) k++; second = !second; } p = e; continue; } } p++; }
    if (k < n) mc::fail("a signal of " + std::to_string(n) + " samples prints its first " + std::to_string(k) + " only: " + t.substr(0, 200) + " ... " + t.substr(t.size() > 200 ? t.size() - 200 : 0));
    mc::state(i); mc::trace(); return true;
  }, "signals of " + std::to_string(big.front()) + " to " + std::to_string(big.back()) + " samples (" + std::to_string(big.size()) + " sizes): every sample shows, and changing or leaving out one of 7 changes the text");
}
