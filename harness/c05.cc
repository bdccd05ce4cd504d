// C05: resize, shift, resize_shift.
#include "derive.hpp"
using namespace alpha;
using bind_::ut; using bind_::uv;
using derive::moved;
using derive::resized;

void mc_register() {
  bool th = mc::thorough();
  auto fam = [=](const std::string& n, auto sp, std::vector<double> g, std::string b) {
    mc::family(n, sp.size(), [=](u64 i) {
      Pwl x; if (!sp.get(i, x)) return false;
      auto s = bind_::sig(x); auto h = bind_::hsig(*s);
      auto intact = [&](const char* w) { if (bind_::hsig(*s) != h || s->size() != x.p.size()) mc::fail(std::string(w) + " modified the original " + ref::str(x)); };
      if (mc::verbose) mc::desc("signal " + ref::str(x));
      for (double dt : {0.0, 1.0, -2.5, 1000.0, 0.375}) {
        auto r = s->shift(dt * mc::units.ts); mc::transition(); bind_::same(r, moved(x, dt), ("shift by " + num(dt)).c_str(), 1e-9, true, true); intact("shift");
        if (r->size() != x.p.size()) mc::fail("shift changed the number of samples");
        auto a = s->begin(); for (auto it = r->begin(); it != r->end(); ++it, ++a) if (it->value != a->value || !bind_::near(bind_::ds(it->derivative), bind_::ds(a->derivative), 1e-9 * mc::units.loose)) mc::fail("shift changed a value or slope of " + ref::str(x));
      }
      for (double lo : g) for (double hi : g) {
        if (!(lo < hi)) continue;
        for (double fill : {0.0, 5.0}) {
          auto w = [&](const char* f) { return std::string(f) + "(" + num(lo) + ", " + num(hi) + ", fill " + num(fill) + ") of " + ref::str(x); };
          Pwl want = resized(x, lo, hi, fill);
          auto r = s->resize(ut(lo), ut(hi), uv(fill)); mc::transition();
          bind_::same(r, want, w("resize").c_str(), 1e-9, true, true); intact("resize"); mc::outcome(bind_::hsig(*r));
          for (double dt : {1.0, -2.5, 0.0}) {
            auto q = s->resize_shift(ut(lo), ut(hi), uv(fill), dt * mc::units.ts); mc::transition();
            bind_::same(q, moved(want, dt), w("resize_shift").c_str(), 1e-9, true, true); intact("resize_shift");
            bind_::same(r->shift(dt * mc::units.ts), bind_::raw(*q), "resize then shift", 1e-9, true, true);
          }
        }
      }
      mc::state(bind_::hpwl(x)); mc::trace(); return true;
    }, b + ", all ranges over " + std::to_string(g.size()) + " bounds, two fills, shifts");
  };
  std::vector<double> g{-2, -0.5, 0, 0.5, 1, 1.25, 2, 2.5, 3, 3.5, 4, 6, 9};
  fam("grid", SigSpace{{0, 1, 2.5, 3, 4}, {-1, 0, 2}, 1}, g, "signals over {0,1,2.5,3,4} each absent or in {-1,0,2}");
  fam("values", DenseSpace{{0, 1, 2.5}, {-3, -1, 0, 0.5, 5}}, g, "five values, fill value included");
  fam("irregular", SigSpace{{-1, -0.25, 0.1, 2, 2.2}, {1, 4}, 1}, g, "irregular times");
  struct Empty { u64 size() const { return 1; } bool get(u64, Pwl& x) const { x = Pwl{}; return true; } };
  fam("empty", Empty{}, g, "the signal without samples");
  LongSpace L; L.lens = {12, 40}; fam("long", L, {-5, 0, 0.3, 4, 7.5, 11, 20.1, 60}, "long shapes");
  fam("sizes", SizeSpace{sizes(th ? 2049 : 1025)}, {-3, 100.5, 256, 511, 1023.5, 4000}, "lengths around powers of two");
  fam("big", SizeSpace{big_sizes(th)}, {100.5, 40000, 1e6}, "beyond 2^15 and 2^16 samples");
  if (th) { fam("grid6", SigSpace{{0, 1, 2.5, 3, 4, 6}, {-1, 0, 2}, 1}, g, "six times"); fam("dense", DenseSpace{{0, 1, 2, 3, 4, 5, 6}, {0, 1, 3}}, g, "seven samples"); }
  mc::each_units(bind_::unit_systems_raw(th), [&] {
    fam("grid", SigSpace{{0, 1, 2.5, 3}, {-1, 2}, 1}, {-2, -0.00390625, 0, 0.5, 1, 1.00390625, 2.49609375, 2.5, 3, 3.00390625, 6}, "signals over {0,1,2.5,3}");
  });
}
