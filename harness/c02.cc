// C02: point evaluation, slopes and per-sample helpers against straight lines.
#include "alpha.hpp"
using namespace alpha;
using bind_::Sample; using bind_::Signal; using bind_::near;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
double slope(const Pwl& x, size_t i) { return i + 1 < x.p.size() ? (x.p[i + 1].v - x.p[i].v) / (x.p[i + 1].t - x.p[i].t) : 0; }

using namespace bind_;
constexpr int ROUTES = 10;
/// The same signal, made in every way the library offers.
bind_::SignalPtr make(const Pwl& x, int route) {
  auto s = bind_::sig(x); auto trash = [](size_t i) { return i % 3 == 0 ? 7.25 : i % 3 == 1 ? -1e3 : 1e30; };
  std::vector<Sample> v; for (auto& p : x.p) v.push_back({ut(p.t), uv(p.v), trash(v.size())});
  auto S = [](auto&&... a) { return std::make_shared<Signal>(std::forward<decltype(a)>(a)...); };
  switch (route) {
    case 0: return s;
    case 1: return S(v);                                                        // samples that bring other slopes along
    case 2: { auto r = S(); for (auto& p : v) r->push_back(p); return r; }
    case 3: { auto r = S(); for (size_t i = 0; i < v.size(); i++) { if (i % 2) r->push_back(v[i]); else r->push_back(v[i].time, v[i].value); } return r; }
    case 4: { auto r = S(*S(v)); return r; }                                     // copies
    case 5: { auto r = S(); r->push_back(ut(-90), uv(4)); *r = *S(v); return r; }
    case 6: return x.empty() ? s : S(v)->shift(0);
    case 7: return x.p.size() < 2 ? s : S(v)->resize(ut(x.b()), ut(x.e()), 99);
    case 8: { if (x.empty()) return s; auto w = S(v), y = S(std::vector<Sample>{{ut(x.b() - 1), uv(0), 3}, {ut(x.e() + 1), uv(1), 5}}); return std::get<0>(stl::signal::synchronize(w, y)); }
    case 9: { if (x.p.size() < 2) return s; auto r = S(); for (size_t i = 0; i + 1 < v.size(); i++) r->push_back(v[i]); for (double t : {ut(x.b()), double(NAN)}) try { r->push_back(Sample{t, 1, 2}); } catch (const std::exception&) {} r->push_back(v.back()); return r; } // after rejected appends
  }
  return s;
}
void check(const Pwl& x, const std::vector<double>& q, int route = 0) {
  auto s = make(x, route);
  auto bad = [&](const std::string& m) { mc::fail(m + "; signal " + ref::str(x) + (route ? " made by route " + std::to_string(route) : "")); };
  auto scale = 1.0; for (auto& p : x.p) scale = std::max(scale, std::fabs(p.v));
  double tol = 1e-9 * scale * mc::units.loose;
  for (double t : q) {
    bool in = !x.empty() && t >= x.b() && t <= x.e(), threw = false; Sample r{};
    try { r = s->at(ut(t)); } catch (const std::exception&) { threw = true; }
    mc::transition();
    if (threw == in) bad("at(" + num(t) + ")" + (threw ? " rejected inside the domain" : " accepted outside the domain, giving " + num(dv(r.value))));
    if (!in) continue;
    if (r.time != ut(t)) bad("at(" + num(t) + ").time = " + num(dt(r.time)));
    if (!near(dv(r.value), x.at(t), tol)) bad("at(" + num(t) + ") = " + num(dv(r.value)) + " instead of " + num(x.at(t)));
    size_t k = 0; while (k + 1 < x.p.size() && x.p[k + 1].t <= t) k++;
    if (x.p[k].t == t && r.value != uv(x.p[k].v)) bad("at(" + num(t) + ") is not the sample");
    if (!near(ds(r.derivative), slope(x, k), tol)) bad("at(" + num(t) + ").derivative = " + num(ds(r.derivative)));
  }
  size_t i = 0;
  for (auto it = s->begin(); it != s->end(); ++it, ++i) if (!near(ds(it->derivative), slope(x, i), tol)) bad("slope of sample " + std::to_string(i) + " is " + num(ds(it->derivative)));
  for (i = 0; i < x.p.size() + 2; i++) {
    auto call = [&](const char* what, double want, const std::function<double()>& f) {
      bool threw = false; double r = 0; try { r = f(); } catch (const std::exception&) { threw = true; }
      mc::transition();
      if (threw != (i >= x.p.size())) bad(std::string(what) + " at index " + std::to_string(i) + (threw ? " rejected" : " accepted"));
      if (!threw && !near(r, want, 1e-8 * mc::units.loose * std::max(1.0, std::fabs(want)) + std::ldexp(std::fabs(mc::units.to / mc::units.ts) + std::fabs(mc::units.vo / mc::units.vs), -46))) bad(std::string(what) + " at index " + std::to_string(i) + " = " + num(r) + " instead of " + num(want));
    };
    bool ok = i < x.p.size(); double ti = ok ? x.p[i].t : 0, vi = ok ? x.p[i].v : 0, d = ok ? slope(x, i) : 0;
    for (double t : q) {
      if (!std::isfinite(t)) continue;
      double at = vi + d * (t - ti);
      call("interpolate", at, [&] { return dv(s->interpolate(ut(t), i)); });
      if (mc::units.vo == 0) call("area", t > ti ? (vi + at) / 2 * (t - ti) : 0, [&] { return s->area(ut(t), i) / mc::units.ts / mc::units.vs; });
    }
    for (double pt : {ti, ti + 0.5, -1.0}) for (double pv : {-1.0, 0.0, 2.5}) for (double pd : {-1.0, 0.0, 0.5, 3.0}) {
      if (pd == d) continue;
      // both lines agree at the result
      double want = ((vi - d * ti) - (pv - pd * pt)) / (pd - d);
      call("time_intersect", want, [&] { return dt(s->time_intersect(Sample{ut(pt), uv(pv), pd / ds(1)}, i)); });
    }
  }
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
#ifdef __SANITIZE_ADDRESS__
  bool san = true;
#else
  bool san = false;
#endif
  std::vector<double> q{NaN, -INFINITY, INFINITY}; for (double t = -1.25; t <= 6.01; t += 0.25) q.push_back(t);
  q.push_back(0.1); q.push_back(2.9999999); q.push_back(5.0000001); q.push_back(-1e-9);
  auto fam = [=](const std::string& n, auto sp, std::vector<double> qs, std::string b) {
    mc::family(n, sp.size(), [=](u64 i) {
      Pwl x; if (!sp.get(i, x)) return false;
      if (mc::verbose) mc::desc("signal " + ref::str(x));
      check(x, qs); mc::state(bind_::hpwl(x)); mc::outcome(bind_::hsig(*bind_::sig(x))); mc::trace(); return true;
    }, b + ", " + std::to_string(qs.size()) + " query instants, every index");
  };
  SigSpace a{{0, 1, 2, 3.5, 5}, {-1, 0, 2}, 0}; if (th) a.v.push_back(0.7);
  fam("grid", a, q, "signals over {0,1,2,3.5,5} each absent or one of the values, empty signal included");
  SigSpace c{{-1, 0.5, 0.75, 4}, {-3, 0.25, 1, 7}, 0};
  fam("irregular", c, q, "irregular times");
  if (!san) {
    LongSpace L; L.lens = {30, 77};
    std::vector<double> ql; for (double t = -5; t < 80; t += 0.625) ql.push_back(t);
    fam("long", L, ql, "long shapes");
    fam("sizes", SizeSpace{sizes(th ? 2049 : 1025)}, {NaN, -1, 0, 0.375, 2.9999999, 15.75, 16.0000001, 127, 127.5, 128, 128.9999999, 255.25, 256, 256.0000001, 256.5, 511, 511.9999999, 512.125, 600, 600.9999999, 1023.0000001, 1023.5, 1024, 1024.5}, "lengths around powers of two");
    fam("big", SizeSpace{big_sizes(th)}, {NaN, -1, 0, 255.25, 4095.9999999, 32766.9999999, 32767.5, 32768, 65535, 65535.5, 65536, 65536.5, 1e6}, "beyond 2^15 and 2^16 samples");
    DenseSpace d{{0, 1, 2, 3, 4, 5}, {0, 1, -1}}; fam("dense", d, q, "6 samples, 3 values");
    if (th) { SigSpace e{{0, 1, 2, 3.5, 5, 5.5}, {-1, 0, 2, 4}, 0}; fam("grid6", e, q, "six times, four values"); }
  }
  auto routes = [=](const std::string& n, auto sp, std::vector<double> qs, std::string b) {
    mc::family(n, sp.size() * (ROUTES - 1), [=](u64 i) {
      Pwl x; if (!sp.get(i / (ROUTES - 1), x)) return false; int r = 1 + int(i % (ROUTES - 1));
      if (mc::verbose) mc::desc("signal " + ref::str(x) + " made by route " + std::to_string(r));
      check(x, qs, r); mc::state(mc::mix(bind_::hpwl(x), u64(r))); mc::trace(); return true;
    }, b + ", made in 9 other ways (samples carrying foreign slopes, mixed appends, copy, assignment, shift, resize, synchronize, after rejected appends)");
  };
  std::vector<double> qr{NaN, -1}; for (double t = -0.5; t <= 5.5; t += 0.25) qr.push_back(t);
  routes("routes", SigSpace{{0, 1, 2, 3.5, 5}, {-1, 2}, 0}, qr, "signals over {0,1,2,3.5,5}");
  std::vector<double> qu{-1, -0.00390625}; for (double t = 0; t <= 4; t += 0.25) qu.push_back(t); qu.push_back(1.99609375); qu.push_back(2.00390625); qu.push_back(3.50390625);
  mc::each_units(bind_::unit_systems_raw(th), [&] {
    fam("grid", SigSpace{{0, 1, 2, 3.5}, {-1, 0, 2}, 0}, qu, "signals over {0,1,2,3.5}");
    routes("routes", SigSpace{{0, 1, 3.5}, {-1, 2}, 0}, qu, "signals over {0,1,3.5}");
  });
  mc::family("samples", 5 * 5 * 3 * 3, [=](u64 i) {
    const double v[5] = {-2, -0.5, 0, 1, 3}; double t[3] = {0, 1, -4};
    Sample a{t[i / 25 % 3], v[i % 5], 2}, b{t[i / 75 % 3], v[i / 5 % 5], -1};
    if (mc::verbose) mc::desc("samples " + num(a.value) + ", " + num(b.value));
    if ((a < b) != (a.value < b.value) || (a > b) != (a.value > b.value) || (a <= b) != (a.value <= b.value) || (a >= b) != (a.value >= b.value)) mc::fail("sample comparison");
    Sample m = -a; if (m.time != a.time || m.value != -a.value || m.derivative != -a.derivative) mc::fail("negated sample");
    mc::state(i); mc::transition(5); mc::trace(); return true;
  }, "all pairs of values and times");
}
