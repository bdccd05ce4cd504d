// C01: every history of appends and every construction path, against a plain list of samples.
#include "bind.hpp"
#include <array>
#include <deque>
#include <list>
using namespace bind_;
using mc::u64;

namespace {
using List = std::vector<ref::Pt>;
const double NaN = std::numeric_limits<double>::quiet_NaN();

void check_state(const Signal& s, const List& m, const char* when) {
  auto bad = [&](const std::string& w) { mc::fail(std::string(when) + ": " + w + "; signal " + str(s) + " expected " + ref::str(Pwl{m})); };
  if (s.size() != m.size()) bad("size " + std::to_string(s.size()));
  if (s.empty() != m.empty()) bad("empty()");
  size_t i = 0;
  for (auto it = s.begin(); it != s.end(); ++it, ++i)
    if (!(it->time == m[i].t) || !(it->value == m[i].v)) bad("sample " + std::to_string(i));
  if (i != m.size()) bad("iteration length");
  for (size_t k = 0; k < m.size(); k++) { auto q = s.at_idx(k); if (!(q.time == m[k].t) || !(q.value == m[k].v)) bad("at_idx"); }
  if (!m.empty()) {
    if (s.begin_time() != m.front().t) bad("begin_time");
    if (s.end_time() != m.back().t) bad("end_time");
    if (s.front().time != m.front().t || s.front().value != m.front().v) bad("front");
    if (s.back().time != m.back().t || s.back().value != m.back().v) bad("back");
  }
}
bool append(Signal& s, double t, double v, int route) {
  try {
    if (route == 0) s.push_back(t, v); else s.push_back(Sample{t, v, route == 1 ? 0.0 : 17.5});
    return true;
  } catch (const std::exception&) { return false; }
}
/// Builds through every path; each result must be the list, or every path must reject.
void constructions(const List& in) {
  List acc; bool ok = true;
  for (auto& p : in) { if (!acc.empty() && !(p.t > acc.back().t)) { ok = false; break; } acc.push_back(p); }
  std::vector<double> v, t; std::vector<Sample> a; std::deque<Sample> b; std::list<Sample> c;
  for (auto& p : in) { v.push_back(p.v); t.push_back(p.t); Sample q{p.t, p.v, 3.25}; a.push_back(q); b.push_back(q); c.push_back(q); }
  auto path = [&](const char* name, const std::function<SignalPtr()>& f) {
    SignalPtr s; bool threw = false;
    try { s = f(); } catch (const std::exception&) { threw = true; }
    mc::transition();
    if (threw == ok) mc::fail(std::string(name) + (threw ? ": rejected valid data " : ": accepted invalid data ") + ref::str(Pwl{in}));
    if (s) {
      check_state(*s, acc, name);
      same(s, Pwl{acc}, name); // slopes as well
      Signal copy(*s); check_state(copy, acc, "copy");
      Signal assigned; assigned.push_back(99, 1); assigned = *s; check_state(assigned, acc, "assignment");
      Signal moved(std::move(copy)); check_state(moved, acc, "move");
      for (Signal* q : {&assigned, &moved}) { // usable afterwards, and independent
        double nt = acc.empty() ? 0 : acc.back().t + 1; List more = acc; more.push_back({nt, 2});
        if (!append(*q, nt, 2, 0)) mc::fail(std::string(name) + ": cannot append to a copy");
        check_state(*q, more, "append to a copy"); check_state(*s, acc, "original after append to a copy");
      }
    }
  };
  path("vectors", [&] { return std::make_shared<Signal>(v, t); });
  path("vector<Sample>", [&] { return std::make_shared<Signal>(a); });
  path("deque<Sample>", [&] { return std::make_shared<Signal>(b); });
  path("list<Sample>", [&] { return std::make_shared<Signal>(c); });
  path("push_back(t,v)", [&] { auto s = std::make_shared<Signal>(); for (auto& p : in) s->push_back(p.t, p.v); return s; });
  path("push_back(Sample)", [&] { auto s = std::make_shared<Signal>(); for (auto& p : in) s->push_back(Sample{p.t, p.v, -4}); return s; });
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  const std::vector<double> T{1, 0, 2, NaN, 0.5, 1.0000000000000002, -1}, V{0, 1, -2};
  auto hist = [=](const std::string& name, int depth, std::vector<double> ts, std::vector<double> vs, List start) {
    u64 k = ts.size() * vs.size(), n = 1; for (int d = 0; d < depth; d++) n *= k;
    mc::family(name, n, [=](u64 i) {
      Signal s; for (auto& p : start) s.push_back(p.t, p.v);
      List m = start; std::string story;
      for (int d = 0; d < depth; d++) {
        u64 o = i % k; i /= k;
        double t = ts[o % ts.size()], v = vs[o / ts.size()];
        if (m.empty() && std::isnan(t)) return false; // the first sample of a signal has a time
        bool want = m.empty() || t > m.back().t;
        if (mc::verbose) mc::desc("append (" + ref::num(t) + ", " + ref::num(v) + ") expected " + (want ? "accepted" : "rejected"));
        bool got = append(s, t, v, int((o + u64(d)) % 3));
        mc::transition();
        if (got != want) mc::fail(std::string(got ? "accepted" : "rejected") + " an append at time " + ref::num(t) + " to " + ref::str(Pwl{m}));
        if (want) m.push_back({t, v});
        check_state(s, m, "after append");
        mc::state(hpwl(Pwl{m}));
      }
      bool fin = true; for (auto& p : m) fin = fin && std::isfinite(p.t);
      if (fin) same(std::make_shared<Signal>(s), Pwl{m}, "copied at the end");
      if (fin) { auto q = std::make_shared<Signal>(); *q = s; same(q, Pwl{m}, "at the end"); }
      mc::outcome(hsig(s)); mc::trace();
      return true;
    }, "all sequences of " + std::to_string(depth) + " appends over " + std::to_string(k) + " samples, starting with " + ref::str(Pwl{start}));
  };
  hist("appends3", 3, T, V, {});
  hist("appends", th ? 5 : 4, T, V, {});
  hist("appends-from", th ? 5 : 4, {2, 1, 2.5, NaN, 3, 0}, {0, -1}, {{0, 1}, {2, 0}});
  hist("deep", th ? 9 : 8, {0, 1, 2, 3}, {1}, {});
  hist("infinite", 4, {0, INFINITY, -INFINITY, 1, NaN}, {1}, {});
  hist("close", 4, {1, 1 + 1e-15, 1 + 1e-12, 1 + 1e-9, 1 + 1e-6, 1 - 1e-9}, {1}, {});
  hist("late", 4, {4e9, 4e9 + 1e-6, 4e9 + 1e-3, 4e9 - 1e-3, 4e9 + 1}, {1}, {});
  hist("tiny", 4, {0, 5e-324, 1e-310, 1e-300, 1e-18, -1e-18, -0.0}, {1}, {});
  hist("far", 4, {1e18, 1e300, 1.7e308, -1.7e308, 1e18 + 256}, {1}, {});
  auto cons = [=](const std::string& name, int depth, std::vector<double> ts, std::vector<double> vs) {
    u64 k = ts.size() * vs.size() + 1, n = 1; for (int d = 0; d < depth; d++) n *= k;
    mc::family(name, n, [=](u64 i) {
      List in;
      for (int d = 0; d < depth; d++) { u64 o = i % k; i /= k; if (o) in.push_back({ts[(o - 1) % ts.size()], vs[(o - 1) / ts.size()]}); }
      if (!in.empty() && std::isnan(in[0].t)) return false;
      if (mc::verbose) mc::desc("build from " + ref::str(Pwl{in}));
      constructions(in); mc::state(hpwl(Pwl{in})); mc::trace();
      return true;
    }, "every list of up to " + std::to_string(depth) + " samples through every construction path");
  };
  cons("construct", th ? 5 : 4, {0, 1, 2, 3, NaN}, {0, 2});
  cons("construct-close", 4, {1, 1 + 1e-12, 1 + 1e-9, 1 - 1e-10}, {1});
  cons("construct-long", 7, {0, 1, 2}, {1});
  // long histories: n samples through every way of adding them, with rejected appends at every power of two
  std::vector<int> ns{10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 32769, 65535, 65536, 65537, 70001};
  mc::family("long", ns.size() * 6, [=](u64 i) {
    int n = ns[i % ns.size()]; int how = int(i / ns.size()); Signal s; List m;
    if (mc::verbose) mc::desc(std::to_string(n) + " appends, way " + std::to_string(how));
    for (int j = 0; j < n; j++) {
      double t = how == 3 ? j * 0.1 : how == 4 ? -1000 + j * (j % 3 ? 1 : 0.5) + (j % 3) : double(j), v = (j * 37 + how) % 11 - 5;
      if (!m.empty() && !(t > m.back().t)) t = m.back().t + 0.25;
      if (!append(s, t, v, how % 3)) mc::fail("append " + std::to_string(j) + " at " + ref::num(t) + " rejected");
      m.push_back({t, v}); mc::transition();
      if ((j & (j + 1)) == 0 || j + 1 == n || how == 5) for (double b : {t, t - 0.125, m[0].t, -1e9, double(NaN)}) { if (append(s, b, 1, (how + 1) % 3)) mc::fail("an append at " + ref::num(b) + " after " + ref::num(t) + " was accepted (" + std::to_string(m.size()) + " samples)"); mc::transition(); }
    }
    check_state(s, m, "at the end"); same(std::make_shared<Signal>(s), Pwl{m}, "copied at the end");
    if (how == 0) { constructions(m); for (size_t k : {m.size() / 2, m.size() - 1}) for (double b : {m[k - 1].t, m[k - 1].t - 1}) { auto w = m; w[k].t = b; constructions(w); } }
    mc::state(hpwl(Pwl{m})); mc::trace(); return true;
  }, "histories of 10 to 70001 appends around powers of two, and lists of that many samples with one out of order");
  mc::family("lengths", 6 * 6, [=](u64 i) {
    std::vector<double> v(i % 6, 1.5), t; for (u64 k = 0; k < i / 6; k++) t.push_back(double(k));
    bool threw = false; SignalPtr s;
    if (mc::verbose) mc::desc(std::to_string(v.size()) + " values, " + std::to_string(t.size()) + " times");
    try { s = std::make_shared<Signal>(v, t); } catch (const std::exception&) { threw = true; }
    mc::transition(); mc::state(i);
    if (threw != (v.size() != t.size())) mc::fail(threw ? "equal lengths rejected" : "different lengths accepted");
    if (s && s->size() != v.size()) mc::fail("wrong size");
    mc::trace(); return true;
  }, "all pairs of list lengths up to 5");
}
