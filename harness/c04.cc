// C04: simplify.
#include "alpha.hpp"
using namespace alpha;

namespace {
bool dyadic(const Pwl& x) { // slopes exactly representable
  for (size_t i = 0; i + 1 < x.p.size(); i++) { double s = (x.p[i + 1].v - x.p[i].v) / (x.p[i + 1].t - x.p[i].t) * 1024; if (s != std::floor(s)) return false; }
  return true;
}
void check(const Pwl& x) {
  auto s = bind_::sig(x);
  auto r = s->simplify(); mc::transition();
  auto bad = [&](const std::string& m) { mc::fail(m + "; signal " + ref::str(x) + " simplified " + bind_::str(*r)); };
  if (bind_::hsig(*s) != bind_::hpwl(x, 7) || s->size() != x.p.size()) bad("original modified");
  bind_::same(s, x, "original", 1e-12, true, true);
  double scale = 1; for (auto& p : x.p) scale = std::max(scale, std::fabs(p.v));
  bind_::same(r, x, "simplified", 1e-9 * scale, true, true);
  size_t k = 0;
  for (auto it = r->begin(); it != r->end(); ++it) {
    while (k < x.p.size() && bind_::ut(x.p[k].t) != it->time) k++;
    if (k == x.p.size() || bind_::uv(x.p[k].v) != it->value) bad("sample at " + num(it->time) + " is not one of the original");
  }
  if (!x.empty() && (r->begin_time() != bind_::ut(x.b()) || r->end_time() != bind_::ut(x.e()))) bad("domain changed");
  if (dyadic(x)) {
    auto y = bind_::raw(*r);
    for (size_t i = 1; i + 1 < y.p.size(); i++)
      if ((y.p[i].v - y.p[i - 1].v) * (y.p[i + 1].t - y.p[i].t) == (y.p[i + 1].v - y.p[i].v) * (y.p[i].t - y.p[i - 1].t)) bad("redundant sample at " + num(y.p[i].t));
    auto rr = r->simplify(); mc::transition();
    if (bind_::hsig(*rr) != bind_::hsig(*r) || rr->size() != r->size()) bad("simplifying twice changes the signal");
    mc::info("irredundancy_checked", 1);
  }
  mc::outcome(bind_::hsig(*r));
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto fam = [=](const std::string& n, auto sp, std::string b) {
    mc::family(n, sp.size(), [=](u64 i) { Pwl x; if (!sp.get(i, x)) return false; if (mc::verbose) mc::desc("signal " + ref::str(x)); check(x); mc::state(bind_::hpwl(x)); mc::trace(); return true; }, b);
  };
  fam("runs", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2}}, "8 samples, 3 values: constant and collinear runs in every position");
  fam("sparse", SigSpace{{0, 1, 2, 3, 4, 5}, {-1, 0, 1, 2}, 0}, "6 times each absent or one of 4 values, empty included");
  fam("irregular", SigSpace{{-2, -1.5, 0, 1, 1.5, 4}, {-1, 0, 0.5, 3}, 0}, "irregular times");
  fam("inexact", SigSpace{{0, 0.1, 0.2, 0.3, 0.7, 1.1}, {0, 0.1, 0.2, 0.3}, 0}, "times and values not exactly representable");
  fam("binary", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, {0, 1}}, "14 samples, two values");
  fam("long", LongSpace{}, "40 and 150 samples");
  fam("sizes", SizeSpace{sizes(5000)}, "lengths around powers of two");
  fam("big", SizeSpace{big_sizes(th)}, "beyond 2^15 and 2^16 samples");
  // runs of collinear samples of every length, at the beginning, in the middle and at the end
  mc::family("run-lengths", 140 * 3 * 3, [=](u64 i) {
    int len = int(i % 140) + 2, where = int(i / 140 % 3), slope = int(i / 420) - 1; Pwl x; double v = 3;
    auto put = [&](double d) { v += d; x.p.push_back({double(x.p.size()), v}); };
    if (where) { put(1); put(-4); put(2); }
    for (int k = 0; k < len; k++) put(slope * 0.5);
    if (where != 2) { put(2); put(-1); put(0); }
    if (mc::verbose) mc::desc("signal " + ref::str(x));
    check(x); mc::state(bind_::hpwl(x)); mc::trace(); return true;
  }, "runs of 2 to 141 collinear samples");
  // slow drifts: a small second-order bend must survive
  mc::family("bend", 40 * 30, [=](u64 i) {
    Pwl x; double e = std::ldexp(1.0, -int(i % 40)); int at = int(i / 40) % 6 + 1, len = int(i / 240) + 3;
    for (int k = 0; k < len + 6; k++) x.p.push_back({double(k), k * 0.5 + (k > at ? e * (k - at) : 0)});
    if (mc::verbose) mc::desc("signal " + ref::str(x));
    check(x); mc::state(bind_::hpwl(x)); mc::trace(); return true;
  }, "lines with one bend of slope 2^-k, k < 40");
  // staircases drifting by tiny amounts accumulate if slopes are compared loosely
  mc::family("drift", 30 * 12, [=](u64 i) {
    Pwl x; double e = std::ldexp(1.0, -int(i % 30) - 2); int len = int(i / 30) * 5 + 4; double v = 0;
    for (int k = 0; k < len; k++) { x.p.push_back({double(k), v}); v += 0.25 + e * k; }
    if (mc::verbose) mc::desc("signal " + ref::str(x));
    check(x); mc::state(bind_::hpwl(x)); mc::trace(); return true;
  }, "parabolas of decreasing curvature");
  if (th) {
    fam("runs9", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 2, 3}}, "9 samples, 4 values");
    fam("sparse8", SigSpace{{0, 1, 2, 3, 4, 5, 6, 7}, {-1, 0, 1, 2}, 0}, "8 times");
    fam("binary18", DenseSpace{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, {0, 1}}, "18 samples, two values");
  }
  mc::each_units(bind_::unit_systems_raw(th), [&] {
    fam("runs", DenseSpace{{0, 1, 2, 3, 4, 5, 6}, {0, 1, 2}}, "7 samples, 3 values");
    fam("sparse", SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 1, 2}, 0}, "5 times each absent or one of 4 values");
  });
}
