// C10: unbounded until, dense time.
#include "alpha.hpp"
using namespace alpha;

void mc_register() {
  bool th = mc::thorough();
  auto x = x0(), y = y0();
  auto u = [](Fm f, Fm g) { return mk(U, {f, g}); };
  auto n = [](Fm f) { return mk(NOT, {f}); };
  auto T = mk(TRUE_), Fa = mk(FALSE_);
  std::vector<Fm> fs{u(x, y), u(y, x), u(P("x", LT, 1), P("y", GT, 0.5)), u(n(x), y), n(u(x, n(y)))};
  std::vector<Fm> more{u(x, u(y, x)), u(u(x, y), y), u(mk(AND, {x, y}), mk(OR, {x, y})), mk(G, {u(x, y)}), u(mk(F, {x}), y), u(x, mk(G, {y})), mk(F, {u(y, x)}), u(x, win(FI, 0, 1, y)), win(GI, 0.5, 1, u(x, y)), mk(OR, {u(x, y), mk(G, {x})})};
  std::vector<Fm> self{u(x, x), u(x, n(x)), u(x, P("x", LT, 0.5)), u(P("x", GT, 0.5), P("x", LT, -0.5)), u(T, x), u(x, T), u(Fa, x), u(x, Fa), u(T, T), u(Fa, T)};
  SigSpace s3{{0, 1, 2}, {-1, 0, 1, 2}}, s4{{0, 1, 2, 3}, {-1, 0, 2}};
  pairs("pairs4", s4, s4, fs, "x, y over times 0..3, each absent or in {-1,0,2}");
  pairs("values", DenseSpace{{0, 1, 2}, {-2, -1, 0, 1, 3}}, DenseSpace{{0, 1, 2}, {-2, -1, 0, 1, 3}}, fs, "3 synchronous samples, five values");
  pairs("nested", s3, s3, more, "nestings, x, y over times 0..2 with four values");
  pairs("async", SigSpace{{0, 0.5, 2, 3.25, 4}, {-2, 1}}, SigSpace{{-1, 1, 2, 2.25, 4.5}, {-1.5, 0.75}}, fs, "asynchronous irregular times, two values");
  pairs("segment", DenseSpace{{0, 1}, {-3, -2, -1, 0, 1, 2, 3, 4}}, DenseSpace{{0, 1}, {-3, -2, -1, 0, 1, 2, 3, 4}}, {u(x, y)}, "one segment, eight values: every order of the four ends");
  pairs("two-segments", DenseSpace{{0, 1, 2}, {0, 1, 2, 3, 4, 5}}, DenseSpace{{0, 1, 2}, {0, 1, 2, 3, 4, 5}}, {u(x, y)}, "two segments, every order of six values");
  pairs("dense", DenseSpace{{0, 1, 2, 3, 4, 5, 6}, {0, 3}}, DenseSpace{{0.5, 1, 1.5, 3, 4, 5.5, 7}, {1, 2}}, {u(x, y), u(y, x)}, "7 asynchronous samples each");
  singles("self", SigSpace{{0, 1, 2.5, 3, 4}, {-1, 0, 2}}, self, "until between predicates of one signal, and with constants");
  LongSpace L; u64 ln = L.size();
  mc::family("long", ln * 16, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; L.get(i % ln, env[0].second); L.get((i / ln * 37 + i * 5 + 1) % ln, env[1].second);
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    bind_::check_rho(fs[0], bind_::expr(fs[0]), env, tr, 1e-6); bind_::check_rho(fs[2], bind_::expr(fs[2]), env, tr, 1e-6);
    mc::trace(); return true;
  }, "signals of 40 and 150 samples in 90 shapes, 16 partners each");
  SizeSpace Z{sizes(th ? 2049 : 513)}; u64 zn = Z.size();
  mc::family("sizes", zn * 4, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; Z.get(i % zn, env[0].second); Z.get((i % zn / 8 * 8 + (i % zn + 1 + 2 * (i / zn)) % 8), env[1].second);
    for (auto& q : env[1].second.p) q.t += i % 3 * 0.125;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    bind_::check_rho(fs[0], bind_::expr(fs[0]), env, tr, 1e-6); mc::heartbeat(); if (th) bind_::check_rho(fs[2], bind_::expr(fs[2]), env, tr, 1e-6);
    mc::trace(); return true;
  }, "pairs of long signals, lengths around powers of two");
  SizeSpace Y{big_sizes(th)}; u64 yn = Y.size();
  mc::family("big", yn * 4, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; Y.get(i % yn, env[0].second); Y.get((i % yn / 8 * 8 + (i % yn + 1 + 2 * (i / yn)) % 8), env[1].second);
    for (auto& q : env[1].second.p) q.t += i % 3 * 0.125;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env)); ref::Quick quick;
    for (auto& f : {fs[0], fs[2], mk(OR, {P("x", LT, -60), fs[0]})}) { bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::heartbeat(); }
    mc::trace(); return true;
  }, "pairs of signals beyond 2^15 and 2^16 samples");
  SkewSpace K{skew_sizes(th)};
  mc::family("skewed", K.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; if (!K.get(i, env[0].second, env[1].second)) return false; auto tr = bind_::trace(env); mc::state(bind_::henv(env)); ref::Quick quick;
    for (auto& f : {fs[0], fs[1]}) { bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::heartbeat(); }
    mc::trace(); return true;
  }, "a long signal beside one of 1 to 3 samples, wherever that one begins and ends, in both orders");
  references(SigSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, SigSpace{{0, 1.5, 2.5, 4}, {-1, 0.5}}, fs);
  for (double t0 : {-7.0, 3000.0}) pairs("affine" + num(t0), Affine<SigSpace>{SigSpace{{0, 1, 2}, {-1, 0, 2}}, t0, 16, 0, 32}, Affine<SigSpace>{SigSpace{{0, 1, 2}, {-1, 0, 2}}, t0, 16, 3, 32}, fs, "shifted and scaled");
  if (th) {
    SigSpace s5{{0, 1, 2, 3, 4}, {-1, 0, 2}};
    pairs("pairs5", s5, s5, fs, "x, y over times 0..4");
    SigSpace s43{{0, 1, 2, 3}, {-1, 0, 1, 2}};
    pairs("nested4", s43, s43, more, "nestings, 4 times, four values");
    DenseSpace d3{{0, 1, 2, 3}, {0, 1, 2, 3, 4}};
    pairs("three-segments", d3, d3, {u(x, y)}, "three segments, five values");
  }
  pairs("far", far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), fs, "values around 2^32", far_tol);
  pairs("far-segments", far(DenseSpace{{0, 1, 2}, {0, 1, 2, 3}}), far(DenseSpace{{0, 1, 2}, {0, 1, 2, 3}}), {u(x, y)}, "values around 2^32, two segments, every order of four values", far_tol);
  pairs("far-nested", far(SigSpace{{0, 1, 2}, {-1, 2}}), far(SigSpace{{0, 1, 2}, {-1, 1}}), more, "values around 2^32", far_tol);
  singles("far-self", far(SigSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}), self, "values around 2^32", far_tol);
  // every kind of operand on either side
  std::vector<Fm> uk; { auto K = kinds(), K2 = kinds2(); for (auto& a : K) for (auto& b : K) uk.push_back(u(a, b)); for (auto& a : K2) { uk.push_back(u(a, y)); uk.push_back(u(x, a)); } }
  pairs("kinds", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 0.5, 2}, {-1.5, 1}}, uk, "operands of 29 kinds in every pair, and 190 nested ones");
  pairs("spacing", mixed(0), mixed(1), fs, "sample distances from 2^-20 to 2^20 in one signal");
  singles("spacing-self", mixed(2), self, "sample distances from 2^-20 to 2^20 in one signal");
  mc::each_units(bind_::unit_systems(th), [&] {
    pairs("pairs3", SigSpace{{0, 1, 2}, {-1, 0, 2}}, SigSpace{{0, 1, 2}, {-1, 0, 2}}, fs, "x, y over times 0..2");
    pairs("async", SigSpace{{0, 0.5, 2, 3.25}, {-2, 1}}, SigSpace{{-1, 1, 2, 2.25}, {-1.5, 0.75}}, fs, "asynchronous irregular times, two values");
    pairs("segment", DenseSpace{{0, 1}, {-2, -1, 0, 1, 2, 3}}, DenseSpace{{0, 1}, {-2, -1, 0, 1, 2, 3}}, {u(x, y)}, "one segment, six values");
    pairs("two-segments", DenseSpace{{0, 1, 2}, {0, 1, 2, 3}}, DenseSpace{{0, 1, 2}, {0, 1, 2, 3}}, {u(x, y)}, "two segments, every order of four values");
    pairs("nested", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 1, 2}, {-1, 1}}, more, "nestings");
    singles("self", SigSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, self, "predicates of one signal, constants");
  });
}
