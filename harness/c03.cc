// C03: windowed, forward, reverse and indexed access.
#include "alpha.hpp"
using namespace alpha;
using bind_::ut; using bind_::uv;

void mc_register() {
  bool th = mc::thorough();
#ifdef __SANITIZE_ADDRESS__
  th = false;
#endif
  auto fam = [=](const std::string& n, auto sp, std::vector<double> q, std::string b) {
    mc::family(n, sp.size(), [=](u64 i) {
      Pwl x; if (!sp.get(i, x)) return false;
      if (mc::verbose) mc::desc("signal " + ref::str(x));
      auto s = bind_::sig(x); const auto& c = *s;
      auto bad = [&](const std::string& m) { mc::fail(m + "; signal " + ref::str(x)); };
      for (double lo : q) {
        for (double hi : q) {
          if (lo > hi) continue;
          std::string w = "window [" + num(lo) + ", " + num(hi) + "]";
          std::vector<ref::Pt> want; for (auto& p : x.p) if (p.t >= lo && p.t <= hi) want.push_back(p);
          auto it = c.begin_at(ut(lo)), en = c.end_at(ut(hi));
          if (it < c.begin() || it > c.end() || en < c.begin() || en > c.end()) bad(w + ": iterator outside the signal");
          if (en < it) bad(w + ": end before begin");
          size_t k = 0;
          for (; it != en; ++it, ++k) { if (k >= want.size() || it->time != ut(want[k].t) || it->value != uv(want[k].v)) bad(w + ": visits " + num(bind_::dt(it->time))); }
          if (k != want.size()) bad(w + ": visits only " + std::to_string(k) + " samples");
          mc::transition();
        }
      }
      size_t k = x.p.size();
      for (auto r = c.rbegin(); r != c.rend(); ++r) { if (!k--) bad("reverse iteration too long"); if (r->time != ut(x.p[k].t) || r->value != uv(x.p[k].v)) bad("reverse iteration"); }
      if (k) bad("reverse iteration too short");
      for (auto f = c.begin(); f != c.end(); ++f, ++k) if (k >= x.p.size() || f->time != ut(x.p[k].t) || f->value != uv(x.p[k].v)) bad("forward iteration");
      if (k != x.p.size()) bad("forward iteration length");
      for (size_t j : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), size_t(5), size_t(6), size_t(7), x.p.size() / 2, x.p.size() - 1, x.p.size(), x.p.size() + 1, size_t(32768), size_t(65535), size_t(65536), size_t(1) << 32, (size_t(1) << 32) + 1, size_t(-1)}) {
        bool threw = false; bind_::Sample r{}; try { r = c.at_idx(j); } catch (const std::exception&) { threw = true; }
        if (threw != (j >= x.p.size())) bad("at_idx(" + std::to_string(j) + ")");
        if (!threw && (r.time != ut(x.p[j].t) || r.value != uv(x.p[j].v))) bad("at_idx value");
        for (int w = 0; w < 3; w++) {
          bool t2 = false;
          try { w == 0 ? (void)c.interpolate(1, j) : w == 1 ? (void)c.area(1, j) : (void)c.time_intersect(bind_::Sample{0, 0, 1}, j); } catch (const std::exception&) { t2 = true; }
          if (t2 != (j >= x.p.size())) bad("indexed helper at " + std::to_string(j));
        }
      }
      mc::state(bind_::hpwl(x)); mc::outcome(bind_::hsig(c)); mc::trace(); return true;
    }, b + ", all windows over " + std::to_string(q.size()) + " bounds");
  };
  std::vector<double> q; for (double t = -1; t <= 6; t += 0.5) q.push_back(t);
  q.push_back(-INFINITY); q.push_back(INFINITY); q.push_back(2.4999); q.push_back(2.5001);
  fam("grid", SigSpace{{0, 1, 2.5, 3, 4, 5}, {-1, 2}, 0}, q, "signals over 6 times, each absent or one of two values");
  fam("negative", SigSpace{{-0.75, -0.5, 0.25, 5.5}, {0, 1}, 0}, q, "irregular times");
  fam("single", SigSpace{{0, 2, 5}, {7}, 0}, q, "up to three samples");
  LongSpace L; L.lens = {20, 45}; std::vector<double> ql; for (double t = -4; t < 50; t += 2.25) ql.push_back(t);
  fam("long", L, ql, "long shapes");
  fam("sizes", SizeSpace{sizes(4097)}, {-1, 0, 0.375, 15.75, 127, 128, 255.25, 256, 511, 512.125, 600, 1023.5, 1024, 2047, 2048, 4095, 4096, 4096.5}, "lengths around powers of two");
  fam("big", SizeSpace{big_sizes(th)}, {-1, 0.375, 255.25, 32767, 32768, 32768.5, 65535, 65536, 70000}, "beyond 2^15 and 2^16 samples");
  if (th) { std::vector<double> q2 = q; for (double t = -0.75; t < 8; t += 0.5) q2.push_back(t); fam("grid8", SigSpace{{0, 0.5, 1, 2.5, 3, 4, 5, 7}, {-1, 2}, 0}, q2, "8 times"); }
  // windows ending a hair before, at and after samples, in every unit
  std::vector<double> qe; for (double t : {0.0, 1.0, 2.5, 3.0}) for (double d : {-0.00390625, 0.0, 0.00390625}) qe.push_back(t + d);
  mc::each_units(bind_::unit_systems_raw(mc::thorough()), [&] { fam("edges", SigSpace{{0, 1, 2.5, 3}, {-1, 2}, 0}, qe, "signals over 4 times"); });
}
