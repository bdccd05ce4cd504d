// C09: always / eventually over an interval = sliding window, dense time, hold-last-value.
#include "alpha.hpp"
using namespace alpha;

void mc_register() {
  bool th = mc::thorough();
  auto x = x0();
  auto ivs = [&](std::vector<double> grid, bool inf) {
    std::vector<Fm> r;
    for (double a : grid) for (double b : grid) if (a < b) { r.push_back(win(GI, a, b, x)); r.push_back(win(FI, a, b, x)); }
    if (inf) for (double a : grid) { r.push_back(win(GI, a, INF, x)); r.push_back(win(FI, a, INF, x)); }
    return r;
  };
  auto ints = [&](int m) { // unsigned integer intervals, zero width included
    std::vector<Fm> r;
    for (int a = 0; a <= m; a++) for (int b = a; b <= m; b++) { r.push_back(win(GI, a, b, x, true)); r.push_back(win(FI, a, b, x, true)); }
    return r;
  };
  std::vector<double> half{0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 7}, fine{0, 0.25, 0.3, 0.75, 1, 1.1, 1.9, 2.25, 3.5, 4.75, 10};
  singles("half", SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}, ivs(half, true), "5 times each absent or in {-1,0,2}; all intervals over a half grid");
  singles("int", SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}, ints(6), "integer intervals up to 6, zero width included");
  singles("fine", SigSpace{{0, 0.5, 2, 2.75, 4}, {-1, 2}}, ivs(fine, true), "irregular times; intervals not aligned with samples");
  singles("irregular", SigSpace{{-2.5, -1, 0.1, 0.2, 3}, {-3, 1, 2}}, ivs({0, 0.1, 0.7, 1.3, 2.6, 6}, true), "negative and close times");
  singles("perm", PermSpace{th ? 8 : 6, 1}, ivs({0, 0.5, 1, 2, 2.5, 4}, true), "every order of k distinct values");
  singles("permint", PermSpace{th ? 7 : 6, 1}, ints(6), "every order of k distinct values, integer intervals");
  singles("values", DenseSpace{{0, 1, 2, 3}, {-3, -1, 0, 0.5, 4}}, ivs({0, 0.5, 1, 1.5, 3}, true), "5 values");
  singles("binary", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {0, 1}}, ivs({0, 0.5, 1, 2, 3.5, 6}, false), "12 samples, two values");
  singles("long", LongSpace{}, ivs({0, 0.4, 1, 3, 10, 33.3, 1000}, true), "40 and 150 samples, 90 shapes", 1e-6);
  singles("sizes", SizeSpace{sizes(th ? 4097 : 1025)}, {win(GI, 0, 1, x), win(FI, 0.75, 40, x), win(GI, 3, 300.5, x, false), win(FI, 0, 700, x, true), win(FI, 100, INF, x)}, "lengths around powers of two, windows of up to 700", 1e-6);
  singles("big", SizeSpace{big_sizes(th)}, {win(GI, 0, 1, x), win(FI, 0.75, 40, x), win(GI, 3, 3000.5, x, false), win(FI, 0, 70000, x, true), win(FI, 40000, INF, x)}, "beyond 2^15 and 2^16 samples, windows of up to 70000", 1e-6, true);
  singles("staircases", StairSpace{th ? std::vector<int>{1000, 40000, 66000, 70001, 140000} : std::vector<int>{1000, 70001}}, {win(GI, 0, 69990, x), win(FI, 0, 69990, x, true), win(FI, 0.5, 300, x), win(GI, 2, 66000.5, x)}, "strictly rising and falling signals, so that everything in the window is kept", 1e-6, true);
  { auto r = ivs({0, 0.25, 0.75, 1, 1.5, 3, 7}, true), z = ints(3); r.insert(r.end(), z.begin(), z.end()); references(SigSpace{{0, 1, 2.5, 3, 4.25}, {-1, 0, 2}}, DenseSpace{{0}, {0}}, r); }
  singles("huge", SigSpace{{0, 1, 2, 3}, {-1, 2}}, ivs({0, 1e-3, 1e6, 1e15}, true), "very small and very large bounds");
  auto nx = P("x", LT, 0.5);
  auto W = [](Op o, double a, double b, Fm f) { return win(o, a, b, f); };
  std::vector<Fm> nest{W(GI, 0, 1, W(FI, 0, 1, x)), W(FI, 1, 2, W(GI, 0.5, 1, x)), W(GI, 0.5, 1.5, W(GI, 0.5, 1, x)), W(FI, 0, 3, W(FI, 1, INF, nx)), W(GI, 0, 1, mk(F, {x})), mk(G, {W(FI, 0.5, 1, nx)}),
                       mk(NOT, {W(GI, 0, 1.5, nx)}), W(FI, 0, 1, mk(AND, {x, nx})), mk(AND, {W(FI, 0, 1, x), W(GI, 1, 2, nx)}), mk(OR, {W(GI, 0.5, 2, x), W(GI, 0, 0.5, nx)}), W(GI, 1, 2, mk(TRUE_)), W(FI, 0, 1, mk(OR, {x, mk(FALSE_)}))};
  singles("nested", SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}, nest, "windows of windows, of connectives, and connectives of windows");
  SigSpace s{{0, 1, 2, 3, 4}, {-1, 0, 2}};
  for (double t0 : {-6.0, 2000.0}) singles("affine" + num(t0), Affine<SigSpace>{s, t0, 8, 2, 128}, ivs({0, 3, 8, 12, 20, 40}, true), "shifted and scaled");
  std::vector<Fm> two; auto y = y0();
  for (auto iv : {std::pair<double, double>{0, 1}, {0.5, 1.5}, {1, INF}, {0.25, 3}}) {
    two.push_back(W(FI, iv.first, iv.second, mk(AND, {x, y}))); two.push_back(W(GI, iv.first, iv.second, mk(OR, {x, y}))); two.push_back(mk(AND, {W(FI, iv.first, iv.second, x), W(GI, iv.first, iv.second, y)}));
  }
  pairs("pairs", SigSpace{{0, 1, 2}, {-1, 0, 2}}, SigSpace{{0, 0.5, 2}, {-1, 0, 2}}, two, "x, y over three times");
  if (th) {
    singles("half6", SigSpace{{0, 1, 2, 3, 4, 5.5}, {-1, 0, 2, 3}}, ivs(half, true), "6 times, 4 values");
    singles("binary15", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, {0, 1}}, ivs({0, 0.5, 1, 2, 3.5, 6, 9}, true), "15 samples, two values");
    singles("ternary", DenseSpace{{0, 0.5, 1, 3, 4, 4.5, 6, 8, 9}, {0, 1, 3}}, ivs(half, false), "9 irregular samples, three values");
    pairs("pairs4", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, SigSpace{{0, 0.5, 2, 3}, {-1, 0, 2}}, two, "x, y over four times");
  }
  singles("far", far(SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}), ivs({0, 0.5, 1, 1.5, 3, 5}, true), "values around 2^32", far_tol);
  singles("far-nested", far(SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}), nest, "values around 2^32", far_tol);
  pairs("far-pairs", far(SigSpace{{0, 1, 2}, {-1, 2}}), far(SigSpace{{0, 0.5, 2}, {-1, 0}}), two, "values around 2^32", far_tol);
  // two windows on one operand: overlapping, touching, apart, one in the other; connected, and one inside the other
  std::vector<std::pair<double, double>> wi; for (double a : {0.0, 0.5, 1.0, 2.0, 3.0}) for (double c : {0.5, 1.0, 2.0, 3.0, INF}) if (a < c) wi.push_back({a, c});
  SigSpace ws{{0, 1, 2, 4}, {-1, 2}}; u64 wsn = ws.size(), wn = wi.size();
  mc::family("two-windows", wsn * wn * wn * 4 * 5, [=](u64 i) {
    namespace st = signal_tl; Env env{{"x", {}}}; if (!ws.get(i % wsn, env[0].second)) return false;
    u64 c = i / wsn; auto p = wi[c % wn], q = wi[c / wn % wn]; c /= wn * wn; Op o1 = c & 1 ? FI : GI, o2 = c & 2 ? FI : GI; int how = int(c / 4);
    Fm f = win(o1, p.first, p.second, x), g = win(o2, q.first, q.second, how == 4 ? f : x), w; auto e = bind_::expr(f), h = bind_::expr(g), r = h;
    switch (how) { case 0: w = mk(AND, {f, g}); r = e & h; break; case 1: w = mk(OR, {f, g}); r = e | h; break; case 2: w = mk(AND, {f, g}); r = st::And({e, h}); break; case 3: w = mk(OR, {f, g}); r = st::Or({e, h}); break; default: w = g; }
    auto tr = bind_::trace(env); mc::state(i); bind_::check_rho(w, r, env, tr); mc::trace(); return true;
  }, "all pairs of windows over " + std::to_string(wn) + " intervals on one operand, connected by & and | and nested");
  singles("spacing", mixed(2), ivs({0, std::ldexp(1.0, -21), std::ldexp(1.0, -20), 0.5, 1, std::ldexp(1.0, 20) - 1, std::ldexp(1.0, 20)}, true), "sample distances and bounds from 2^-20 to 2^20 in one signal");
  // every kind of operand
  std::vector<Fm> wk; for (auto& a : kinds2()) for (auto& f : {win(GI, 0, 1, a), win(FI, 0.5, 1.25, a), win(GI, 1, INF, a), win(FI, 0, 3, a, true)}) wk.push_back(f);
  pairs("kinds", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 0.5, 2}, {-1.5, 1}}, wk, "operands of 29 kinds, and 190 nested ones");
  pairs("spacing-pairs", mixed(0), mixed(1), two, "sample distances from 2^-20 to 2^20 in one signal");
  mc::each_units(bind_::unit_systems(th), [&] {
    singles("half", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, ivs({0, 0.5, 1, 1.5, 2, 3, 5}, true), "4 times each absent or in {-1,0,2}");
    singles("int", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, ints(4), "integer intervals up to 4, zero width included where the unit allows");
    singles("fine", SigSpace{{0, 0.5, 2, 2.75}, {-1, 2}}, ivs({0, 0.25, 0.75, 1, 1.875, 2.25, 3.5}, true), "irregular times; intervals not aligned with samples");
    singles("nested", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, nest, "windows of windows");
  });
}
