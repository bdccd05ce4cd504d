// C08: unbounded always / eventually, dense time.
#include "alpha.hpp"
using namespace alpha;

void mc_register() {
  bool th = mc::thorough();
  auto x = x0(), nx = P("x", LT, 0.5), y = y0();
  auto g = [](Fm f) { return mk(G, {f}); };
  auto e = [](Fm f) { return mk(F, {f}); };
  auto n = [](Fm f) { return mk(NOT, {f}); };
  auto gi = [](Fm f) { return win(GI, 0, INF, f); };
  auto ei = [](Fm f) { return win(FI, 0, INF, f); };
  std::vector<Fm> one{g(x), e(x), g(nx), e(nx), n(g(x)), n(e(nx)), gi(x), ei(x), g(n(x)), e(n(x)), gi(nx), ei(nx)};
  std::vector<Fm> nest{g(e(x)), e(g(x)), g(g(x)), e(e(x)), g(e(g(x))), e(g(e(nx))), gi(e(x)), ei(g(nx)), g(n(e(x))), e(n(g(nx))), g(ei(gi(x))),
                       mk(AND, {g(x), e(nx)}), mk(OR, {g(x), g(nx)}), g(mk(OR, {x, nx})), e(mk(AND, {x, nx})), e(mk(OR, {g(x), g(nx)})), g(mk(AND, {e(x), e(nx)})),
                       g(mk(TRUE_)), e(mk(FALSE_)), g(mk(OR, {x, mk(FALSE_)})), e(mk(AND, {x, mk(TRUE_)}))};
  auto all = one; all.insert(all.end(), nest.begin(), nest.end());
  singles("small", SigSpace{{0, 1, 2.5, 3, 4.25, 5}, {-1, 0, 2}}, all, "signals over 6 times, each absent or one of 3 values");
  singles("values", DenseSpace{{0, 1, 2, 3}, {-3, -1, -0.5, 0, 0.25, 1, 4}}, one, "4 samples, 7 values");
  singles("perm", PermSpace{th ? 9 : 7, 1}, one, "every order of k distinct values");
  singles("binary", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, {0, 1}}, one, "13 samples, two values");
  singles("ternary", DenseSpace{{0, 0.5, 1, 3, 4, 4.5, 6, 8}, {0, 1, 3}}, one, "8 irregular samples, three values");
  singles("long", LongSpace{}, all, "40 and 150 samples, 90 shapes");
  LongSpace L; L.lens = {1, 2, 3, 5, 9, 17, 33, 64, 65, 200}; singles("lengths", L, one, "many lengths");
  singles("sizes", SizeSpace{sizes(th ? 5000 : 2049)}, {g(x), e(x), gi(nx), e(g(x))}, "lengths around powers of two", 1e-6);
  singles("big", SizeSpace{big_sizes(th)}, {g(x), e(x), gi(nx), e(g(x))}, "beyond 2^15 and 2^16 samples", 1e-6, true);
  references(SigSpace{{0, 1, 2.5, 3, 4.25}, {-1, 0, 2}}, DenseSpace{{0}, {0}}, all);
  SigSpace s{{0, 1, 2, 3, 4}, {-1, 0, 2}};
  for (double t0 : {-9.0, 1000.0}) for (double sc : {0.125, 300.0}) singles("affine" + num(t0) + "/" + num(sc), Affine<SigSpace>{s, t0, sc, 5, 64}, one, "shifted and scaled");
  std::vector<Fm> two{g(mk(AND, {x, y})), e(mk(AND, {x, y})), g(mk(OR, {x, y})), e(mk(OR, {x, y})), mk(AND, {g(x), e(y)}), mk(OR, {e(x), g(n(y))}), g(mk(IMPLIES, {x, e(y)})), e(mk(AND, {x, g(y)}))};
  pairs("pairs", SigSpace{{0, 1, 2}, {-1, 0, 2}}, SigSpace{{0, 1, 2}, {-1, 0, 2}}, two, "x, y over times 0..2");
  pairs("async", SigSpace{{0, 1.5, 2, 4}, {-1, 1}}, SigSpace{{-1, 1, 2, 3}, {-2, 0.5}}, two, "asynchronous pairs");
  if (th) {
    singles("small7", SigSpace{{0, 1, 2.5, 3, 4.25, 5, 7}, {-1, 0, 2, 3}}, all, "7 times, 4 values");
    pairs("pairs4", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, two, "x, y over times 0..3");
    singles("binary18", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, {0, 1}}, {g(x), e(x)}, "18 samples, two values");
  }
  singles("far", far(SigSpace{{0, 1, 2.5, 3, 4.25}, {-1, 0, 2}}), all, "values around 2^32", far_tol);
  pairs("far-pairs", far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), two, "values around 2^32", far_tol);
  singles("spacing", mixed(2), all, "sample distances from 2^-20 to 2^20 in one signal");
  // every kind of operand
  std::vector<Fm> tk; for (auto& a : kinds2()) for (auto& f : {g(a), e(a), gi(a), ei(a)}) tk.push_back(f);
  pairs("kinds", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 0.5, 2}, {-1.5, 1}}, tk, "operands of 29 kinds, and 190 nested ones");
  pairs("spacing-pairs", mixed(0), mixed(1), two, "sample distances from 2^-20 to 2^20 in one signal");
  mc::each_units(bind_::unit_systems(th), [&] {
    singles("small", SigSpace{{0, 1, 2.5, 3, 4.25}, {-1, 0, 2}}, all, "5 times, each absent or one of 3 values");
    singles("values", DenseSpace{{0, 1, 2}, {-3, -1, -0.5, 0, 0.25, 1, 4}}, one, "3 samples, 7 values");
    singles("ternary", DenseSpace{{0, 0.5, 1, 3, 4, 4.5}, {0, 1, 3}}, one, "6 irregular samples, three values");
    pairs("pairs", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 1, 2}, {-1, 0}}, two, "x, y over times 0..2");
  });
}
