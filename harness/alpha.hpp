// Shared alphabets: operand formulas, long signal shapes, pair families.
#pragma once
#include "bind.hpp"
#include <numeric>

namespace alpha {
using namespace ref;
using bind_::DenseSpace;
using bind_::SigSpace;
using mc::u64;

inline Fm P(const char* x, Op o, double c) { return pred(x, o, c); }
inline Fm x0() { return pred("x", GE, 0); }
inline Fm y0() { return pred("y", GE, 0); }

/// A family running a fixed list of formulas on every pair (x, y) of two signal spaces.
template <class SX, class SY>
void pairs(const std::string& name, SX sx, SY sy, std::vector<Fm> fs, std::string bounds, double tol = 1e-7) {
  fs = bind_::writable(fs);
  auto exprs = std::make_shared<std::vector<signal_tl::ast::Expr>>();
  for (auto& f : fs) exprs->push_back(bind_::expr(f));
  mc::family(name, sx.size() * sy.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}};
    if (!sx.get(i % sx.size(), env[0].second) || !sy.get(i / sx.size(), env[1].second)) return false;
    auto tr = bind_::trace(env);
    mc::state(bind_::henv(env));
    for (size_t k = 0; k < fs.size(); k++) bind_::check_rho(fs[k], (*exprs)[k], env, tr, tol);
    mc::trace();
    return true;
  }, bounds + "; " + std::to_string(fs.size()) + " formulas each");
}
/// ... and on every single signal x.
template <class SX>
void singles(const std::string& name, SX sx, std::vector<Fm> fs, std::string bounds, double tol = 1e-7, bool quick = false) {
  fs = bind_::writable(fs);
  auto exprs = std::make_shared<std::vector<signal_tl::ast::Expr>>();
  for (auto& f : fs) exprs->push_back(bind_::expr(f));
  // one index per (signal, formula) so that big formula lists are shared out evenly
  u64 n = sx.size();
  mc::family(name, n * fs.size(), [=](u64 i) {
    Env env{{"x", {}}};
    if (!sx.get(i % n, env[0].second)) return false;
    u64 k = i / n;
    auto tr = bind_::trace(env);
    mc::state(mc::mix(bind_::henv(env), k)); mc::heartbeat();
    ref::quick = quick; bind_::check_rho(fs[k], (*exprs)[k], env, tr, tol); ref::quick = false;
    mc::trace();
    return true;
  }, bounds + "; " + std::to_string(fs.size()) + " formulas");
}

/// Long shapes: n samples, spacing pattern and value pattern chosen by the index.
struct LongSpace {
  std::vector<int> lens{40, 150};
  u64 size() const { return lens.size() * 3 * 5 * 6; }
  bool get(u64 i, Pwl& out) const {
    int n = lens[i % lens.size()]; i /= lens.size();
    int sp = int(i % 3); i /= 3; int shape = int(i % 5); i /= 5; int par = int(i % 6);
    out.p.clear(); double t = sp == 2 ? -3.5 : 0;
    static const int periods[6] = {2, 3, 5, 7, 16, 40};
    int per = periods[par];
    for (int j = 0; j < n; j++) {
      double v = 0; int ph = j % per;
      switch (shape) {
        case 0: v = ph < per / 2 + 1 ? ph : per - ph; break;          // triangle
        case 1: v = ph; break;                                        // saw up
        case 2: v = per - ph; break;                                  // saw down
        case 3: v = (j * (par * 2 + 3) * 7919) % 11 - 5; break;       // scrambled
        case 4: v = (j < n / 2 ? j : n - j) * 0.5 - (j == n / 3 ? 9 + par : 0); break; // mountain with a spike
      }
      out.p.push_back({t, v});
      t += sp == 0 ? 1.0 : sp == 1 ? 0.25 + 0.5 * (j % 3) : (j % 4 == 3 ? 3.0 : 0.5);
    }
    return true;
  }
};
/// Sizes around powers of two: 8 signals (4 shapes, 2 spacings) of each length.
struct SizeSpace {
  std::vector<int> lens;
  u64 size() const { return lens.size() * 8; }
  bool get(u64 i, Pwl& out) const {
    int n = lens[i / 8], shape = int(i % 4), sp = int(i / 4 % 2); out.p.clear(); double t = 0;
    for (int j = 0; j < n; j++) {
      double v = 0;
      switch (shape) {
        case 0: v = (j * 7919) % 101 - 50; break;               // scrambled
        case 1: v = j < n / 2 ? j : n - j; v *= 0.25; break;      // one mountain: monotonic runs of n/2
        case 2: v = (j / 16) % 7 - (j % 64 == 63 ? 9 : 0); break; // plateaus and spikes
        case 3: v = (n - j) * 0.125 + (j % 3); break;             // falling, with ripples
      }
      out.p.push_back({t, v}); t += sp ? 0.25 + 0.5 * (j % 4) : 1;
    }
    return true;
  }
};
/// One formula of every kind over x and y; the first two are constants.
inline std::vector<Fm> kinds() {
  auto x = x0(), y = pred("y", GE, 0); auto n = [](Fm f) { return mk(NOT, {f}); };
  return {mk(TRUE_), mk(FALSE_), x, y, P("x", LT, 0.5), P("y", LE, 0.25), P("x", GT, 1), n(x), n(n(y)), mk(AND, {x, y}), mk(OR, {y, x}), mk(AND, {x, mk(TRUE_), y}), mk(OR, {n(x), y, mk(FALSE_)}), mk(IMPLIES, {x, y}), mk(XOR, {x, y}), mk(IFF, {x, y}), mk(G, {x}), mk(F, {y}), mk(F, {x}), mk(G, {y}),
          win(GI, 0.5, 1.5, x), win(FI, 0, 2, y, true), win(FI, 1, INF, x), win(GI, 0, INF, y), win(FI, 3, 4, x), win(FI, 0, 0.25, y), mk(U, {x, y}), mk(U, {y, x}), mk(U, {mk(TRUE_), x})};
}
/// ... and under one more operator.
inline std::vector<Fm> kinds2() {
  std::vector<Fm> r = kinds(); auto k = r.size();
  for (size_t j = 2; j < k; j++) for (Op o : {NOT, G, F}) r.push_back(mk(o, {r[j]}));
  for (size_t j = 2; j < k; j++) { r.push_back(win(GI, 0.25, 1.25, r[j])); r.push_back(win(FI, 0, 1, r[j])); r.push_back(mk(AND, {r[j], x0()})); r.push_back(mk(OR, {r[j], pred("y", GE, 0)})); }
  return r;
}
/// Strictly rising and falling signals, and such with a few turns.
/// (dip: the first sample lies beyond the last one)
struct StairSpace {
  std::vector<int> lens;
  u64 size() const { return lens.size() * 8; }
  bool get(u64 i, Pwl& o) const { int n = lens[i / 8], s = int(i % 4); bool dip = i / 4 % 2; o.p.clear(); for (int j = 0; j < n; j++) o.p.push_back({double(j), (s % 2 ? 1 : -1) * 0.25 * j + (s > 1 && j > n - n / 8 ? (s % 2 ? -1 : 1) * 0.5 * (j - (n - n / 8)) : 0)}); if (dip) o.p[0].v = (s % 2 ? 1 : -1) * 0.5 * n; return true; }
};
/// A long signal beside one of 1 to 3 samples, wherever that one begins and ends.
struct SkewSpace {
  std::vector<int> lens;
  u64 size() const { return lens.size() * 2 * 2 * 2 * 100; }
  bool get(u64 i, Pwl& x, Pwl& y) const {
    int n = lens[i % lens.size()]; i /= lens.size(); int sp = int(i % 2), in = int(i / 2 % 2), val = int(i / 4 % 2); i /= 8; int b = int(i % 10), e = int(i / 10);
    x.p.clear(); y.p.clear(); double t = 0; for (int j = 0; j < n; j++) { x.p.push_back({t, double((j * 7919) % 11 - 5)}); t += sp ? 0.25 + 0.5 * (j % 4) : 1; }
    auto T = [&](int j) { return x.p[size_t(std::min(std::max(j, 0), n - 1))].t; };
    double pl[10] = {T(0) - 2.5, T(0), T(0) + 0.125, T(1), T(n / 3), T(n / 2), T(n / 2) + 0.125, T(n - 1) - 0.125, T(n - 1), T(n - 1) + 3};
    if (pl[e] < pl[b] || (b > e && pl[e] <= pl[b]) || (n > 1100 && (b * 10 + e + sp * 3 + val + in * 2) % 7)) return false;
    y.push(pl[b], val ? -1.5 : 0.25); if (in) y.push((pl[b] + pl[e]) / 2 + 0.0625, val ? 3 : -0.5);
    if (!y.p.empty() && y.e() >= pl[e] && (in || pl[e] > pl[b])) return false;
    y.push(pl[e], val ? 2 : 0.25); return true;
  }
};
inline std::vector<int> skew_sizes(bool th) { std::vector<int> r{1, 2, 3, 5, 17, 33, 65, 129, 257, 1025, 4097}; if (th) { r.push_back(16385); r.push_back(65537); } return r; }
inline std::vector<int> sizes(int upto) { std::vector<int> r; for (int n : {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 5000}) if (n <= upto) r.push_back(n); return r; }
/// Beyond 2^15 and 2^16 samples (compared with the quick forms of the reference).
inline std::vector<int> big_sizes(bool th) { return th ? std::vector<int>{8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073} : std::vector<int>{32769, 65537}; }
/// Every permutation of 0..k-1 as values at unit spacing.
struct PermSpace {
  int k; double dt = 1;
  u64 size() const { u64 r = 1; for (int j = 2; j <= k; j++) r *= u64(j); return r; }
  bool get(u64 i, Pwl& out) const {
    std::vector<int> pool(size_t(k), 0); std::iota(pool.begin(), pool.end(), 0); out.p.clear();
    for (int j = k; j >= 1; j--) { auto d = size_t(i % u64(j)); i /= u64(j); out.p.push_back({dt * (k - j), double(pool[d])}); pool.erase(pool.begin() + long(d)); }
    return true;
  }
};
/// A space transformed affinely in time and value.
template <class S> struct Affine {
  S s; double t0, ts, v0, vs;
  u64 size() const { return s.size(); }
  bool get(u64 i, Pwl& o) const { if (!s.get(i, o)) return false; for (auto& q : o.p) { q.t = t0 + ts * q.t; q.v = v0 + vs * q.v; } return true; }
};

/// The quick forms of the reference against the brute-force ones.
template <class SX, class SY>
void references(SX sx, SY sy, std::vector<Fm> fs) {
  mc::family("reference", sx.size() * sy.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}};
    if (!sx.get(i % sx.size(), env[0].second) || !sy.get(i / sx.size(), env[1].second)) return false;
    for (auto& f : fs) {
      Pwl p = rho(f, env), q; { ref::Quick k; q = rho(f, env); }
      auto bad = [&] { mc::fail("oracle: two forms of the reference differ for " + ref::str(f) + " on " + bind_::str(env) + "\n  " + ref::str(p) + "\n  " + ref::str(q)); };
      if (p.empty() != q.empty()) bad();
      if (p.empty()) continue;
      if (p.b() != q.b() || p.e() != q.e()) bad();
      for (auto* s : {&p, &q}) for (size_t j = 0; j < s->p.size(); j++) for (double t : {s->p[j].t, (s->p[j].t + s->p[j ? j - 1 : j].t) / 2}) if (!bind_::near(p.at(t), q.at(t), 1e-9)) bad();
    }
    mc::state(bind_::henv(env)); return true;
  }, "the quick forms of the reference, used for very long signals, against the brute-force ones");
}
/// Values far from zero that differ by little (in proportion): robustness far from zero as well.
template <class S> Affine<S> far(S s) { return {std::move(s), 0, 1, 4294967296.0, 1}; }
constexpr double far_tol = 1e-3;

/// Distances of very different sizes in one signal.
inline SigSpace mixed(int k) {
  double p = std::ldexp(1.0, -20), P = std::ldexp(1.0, 20);
  if (k == 0) return SigSpace{{0, p, 1, P, P + 0.25}, {-1, 2}};
  if (k == 1) return SigSpace{{0, 2 * p, 0.5, P / 2, P + 0.125}, {-0.5, 1}};
  return SigSpace{{0, p, 1, P, P + 0.25}, {-1, 0, 2}};
}
/// All formulas of the given depth over atoms and operator sets.
struct Ops { std::vector<std::function<Fm(Fm)>> un; std::vector<std::function<Fm(Fm, Fm)>> bin; };
inline std::vector<Fm> level(const std::vector<Fm>& prev, const Ops& o) {
  std::vector<Fm> r;
  for (auto& u : o.un) for (auto& f : prev) r.push_back(u(f));
  for (auto& b : o.bin) for (auto& f : prev) for (auto& g : prev) r.push_back(b(f, g));
  return r;
}
inline Ops ops_all() {
  Ops o;
  o.un = {[](Fm f) { return mk(NOT, {f}); }, [](Fm f) { return mk(G, {f}); }, [](Fm f) { return mk(F, {f}); },
          [](Fm f) { return win(GI, 0, 1, f); }, [](Fm f) { return win(GI, 0.5, 2, f); }, [](Fm f) { return win(FI, 1, 2, f, true); }, [](Fm f) { return win(FI, 0.75, INF, f); }};
  o.bin = {[](Fm f, Fm g) { return mk(AND, {f, g}); }, [](Fm f, Fm g) { return mk(OR, {f, g}); }, [](Fm f, Fm g) { return mk(U, {f, g}); }, [](Fm f, Fm g) { return mk(IMPLIES, {f, g}); }};
  return o;
}
} // namespace alpha
