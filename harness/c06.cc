// C06: synchronize.
#include "alpha.hpp"
using namespace alpha;

namespace {
void check(const Pwl& x, const Pwl& y, double tol = 1e-9) {
  auto a = bind_::sig(x), b = bind_::sig(y); auto ha = bind_::hsig(*a), hb = bind_::hsig(*b);
  if (mc::verbose) mc::desc("x " + ref::str(x) + "  y " + ref::str(y));
  auto [p, q] = signal_tl::signal::synchronize(a, b); mc::transition();
  auto bad = [&](const std::string& m) { mc::fail(m + "\n  x " + ref::str(x) + "\n  y " + ref::str(y) + (p ? "\n  x' " + bind_::str(*p) : "") + (q ? "\n  y' " + bind_::str(*q) : "")); };
  if (!p || !q) bad("null result");
  if (bind_::hsig(*a) != ha || bind_::hsig(*b) != hb || a->size() != x.p.size() || b->size() != y.p.size()) bad("input modified");
  if (p == a || p == b || q == a || q == b) { // sharing is only harmless if appending to a result can't reach an input
    auto r = p == a || p == b ? p : q; r->push_back(r->end_time() + 1, 3);
    if (a->size() != x.p.size() || b->size() != y.p.size()) bad("result is the input object");
  }
  Times ts = common(x, y);
  if (p->size() != ts.size() || q->size() != ts.size()) bad("expected " + std::to_string(ts.size()) + " samples in each");
  for (size_t i = 0; i < ts.size(); i++) if (p->at_idx(i).time != bind_::ut(ts[i]) || q->at_idx(i).time != bind_::ut(ts[i])) bad("sample " + std::to_string(i) + " is not at " + num(ts[i]));
  auto cut = [&](const Pwl& z) { return ts.empty() ? Pwl{} : build(ts, [&](double t) { return z.at(t); }); };
  bind_::same(p, cut(x), "first signal", tol, true, true); bind_::same(q, cut(y), "second signal", tol, true, true);
  mc::outcome(mc::mix(bind_::hsig(*p), bind_::hsig(*q)));
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
#ifdef __SANITIZE_ADDRESS__
  bool san = true; th = false;
#else
  bool san = false;
#endif
  auto fam = [=](const std::string& n, auto sx, auto sy, std::string b) {
    mc::family(n, sx.size() * sy.size(), [=](u64 i) {
      Pwl x, y; if (!sx.get(i % sx.size(), x) || !sy.get(i / sx.size(), y)) return false;
      check(x, y); mc::state(mc::mix(bind_::hpwl(x), bind_::hpwl(y))); mc::trace(); return true;
    }, b);
  };
  SigSpace s{{0, 1, 2, 3, 4}, {1, 3}, 0};
  fam("grid", s, s, "x, y over times 0..4 each absent or in {1,3}; empty, single-sample, touching and disjoint domains included");
  if (!san) {
    fam("irregular", SigSpace{{0, 0.5, 2, 3.25, 4}, {-2, 1}, 0}, SigSpace{{-1, 1, 2, 2.25, 4.5}, {-1.5, 0.75}, 0}, "irregular times");
    fam("values", SigSpace{{0, 1, 2}, {-1, 0, 2, 5}, 1}, SigSpace{{0, 0.5, 2}, {-1, 0, 2, 5}, 1}, "four values");
    fam("inexact", SigSpace{{0, 0.1, 0.3, 0.7}, {0.1, 0.7}, 1}, SigSpace{{0.05, 0.1, 0.2, 0.9}, {0.3, 0.9}, 1}, "inexact times");
    fam("placement", SigSpace{{0, 1, 2, 3, 4, 5, 6, 7}, {2}, 0}, SigSpace{{0, 1, 2, 3, 4, 5, 6, 7}, {5}, 0}, "every pair of subsets of 8 instants");
  }
  LongSpace L; L.lens = {40, 97}; u64 ln = L.size();
  mc::family("long", ln * (san ? 2 : 12), [=](u64 i) { Pwl x, y; L.get(i % ln, x); L.get((i / ln * 41 + i * 7 + 3) % ln, y); check(x, y, 1e-8); mc::state(i); mc::trace(); return true; }, "long shapes");
  SizeSpace Z{sizes(san ? 300 : 5000)}; u64 zn = Z.size();
  mc::family("sizes", zn * 6, [=](u64 i) {
    Pwl x, y; Z.get(i % zn, x); Z.get((i * 5 + i / zn * 11 + 3) % zn, y); for (auto& q : y.p) q.t += i / zn % 3 * 0.125 - (i / zn == 5 ? 60 : 0);
    check(x, y, 1e-8); mc::state(i); mc::trace(); return true;
  }, "lengths around powers of two, equal and different, aligned and shifted");
  if (!san) {
    SizeSpace Y{big_sizes(th)}; u64 yn = Y.size();
    mc::family("big", yn * 4, [=](u64 i) {
      Pwl x, y; Y.get(i % yn, x); Y.get((i * 5 + i / yn * 11 + 3) % yn, y); for (auto& q : y.p) q.t += i / yn % 3 * 0.125 - (i / yn == 3 ? 60 : 0);
      check(x, y, 1e-8); mc::state(i); mc::trace(); return true;
    }, "beyond 2^15 and 2^16 samples");
  }
  SkewSpace K{san ? std::vector<int>{2, 17, 129} : skew_sizes(th)};
  mc::family("skewed", K.size(), [=](u64 i) { Pwl x, y; if (!K.get(i, x, y)) return false; check(x, y, 1e-8); check(y, x, 1e-8); mc::state(mc::mix(bind_::hpwl(x), bind_::hpwl(y))); mc::trace(2); return true; }, "a long signal beside one of 1 to 3 samples, wherever that one begins and ends, in both orders");
  if (th) {
    SigSpace w{{0, 1, 2, 3, 4}, {-1, 1, 3}, 0}; fam("grid3", w, w, "three values");
    fam("placement10", SigSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {2}, 0}, SigSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {5}, 0}, "every pair of subsets of 10 instants");
  }
  mc::each_units(bind_::unit_systems_raw(th), [&] {
    fam("grid", SigSpace{{0, 1, 2, 3}, {1, 3}, 0}, SigSpace{{0, 1, 2, 3}, {1, 3}, 0}, "x, y over times 0..3");
    fam("near", SigSpace{{0, 1, 2}, {-1, 2}, 0}, SigSpace{{-0.0078125, 0.0078125, 0.9921875, 1, 2.0078125}, {0, 1}, 0}, "samples a hair apart");
  });
}
