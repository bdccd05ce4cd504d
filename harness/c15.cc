// C15: robustness depends on the signals as functions only; shift and scale equivariance.
#include "rel.hpp"
using namespace alpha;
namespace stl = signal_tl;
using stl::ast::Expr;

namespace {
Fm rewrite(const Fm& f, const std::function<void(Node&)>& g) {
  auto n = std::make_shared<Node>(*f); for (auto& k : n->k) k = rewrite(k, g); g(*n); return n;
}
bool has_const(const Fm& f) { if (f->op == TRUE_ || f->op == FALSE_) return true; for (auto& k : f->k) if (has_const(k)) return true; return false; }
std::vector<Fm> formulas() {
  auto x = x0(), y = P("y", LT, 0.5), z = P("x", LE, 1);
  return {x, z, mk(NOT, {y}), mk(AND, {x, y}), mk(OR, {y, x, z}), mk(IMPLIES, {x, y}), mk(XOR, {y, x}), mk(IFF, {x, y}), mk(G, {x}), mk(F, {y}), win(GI, 0, 1, x), win(FI, 0.5, 2, y), win(FI, 1, 2, x, true), win(GI, 0.75, INF, y), mk(U, {x, y}), mk(U, {y, z}),
          mk(F, {mk(G, {mk(OR, {x, y})})}), mk(U, {win(FI, 0, 1, x), mk(AND, {y, z})}), mk(G, {mk(IMPLIES, {x, win(FI, 0.5, 1, y)})}), win(GI, 0.25, 1, mk(U, {mk(OR, {x, y}), mk(NOT, {z})})), mk(AND, {mk(TRUE_), x}), mk(U, {mk(TRUE_), mk(AND, {x, y})}), mk(OR, {mk(FALSE_), mk(AND, {x, y}), mk(FALSE_)}), mk(TRUE_)};
}
} // namespace

void mc_register() {
  bool th = mc::thorough();
  auto fs = std::make_shared<std::vector<Fm>>(formulas());
  auto es = std::make_shared<std::vector<Expr>>(); for (auto& f : *fs) es->push_back(bind_::expr(f));
  auto each = [=](const std::string& name, auto sx, auto sy, u64 nv, std::string b, auto f) {
    u64 nt = sx.size() * sy.size();
    mc::family(name, nt * nv, [=](u64 i) {
      Env env{{"x", {}}, {"y", {}}}; u64 t = i / nv;
      if (!sx.get(t % sx.size(), env[0].second) || !sy.get(t / sx.size(), env[1].second)) return false;
      if (ref::common(env[0].second, env[1].second).empty()) return false;
      if (mc::verbose) mc::desc("trace " + bind_::str(env));
      mc::state(mc::mix(bind_::henv(env), i % nv));
      bool r = f(env, i % nv); if (r) mc::trace(); return r;
    }, b);
  };
  SigSpace ax{{0, 1, 2}, {-1, 0, 2}}, ay{{0, 1.5, 2}, {-1, 1}};
  // 1. every set of redundant samples
  DenseSpace rx{{0, 1, 3}, {-1, 0, 2}}, ry{th ? std::vector<double>{0, 2, 3} : std::vector<double>{0, 3}, {-1, 1}};
  std::vector<double> cand_x{0.5, 1.25, 1.5, 2, 2.5}, cand_y{0.5, 1, 1.5, 2.75};
  u64 nv = 1u << (cand_x.size() + cand_y.size());
  auto resample = [=](const Env& env, u64 v) {
    double tol = env[0].second.p[0].v > 1e9 ? far_tol : 1e-7;
    Env more = env; int bit = 0;
    for (int s = 0; s < 2; s++) {
      for (double t : s ? cand_y : cand_x) { if (v >> bit & 1) { bool dup = false; for (auto& q : env[s].second.p) dup |= q.t == t; if (dup) return false; more[s].second.p.push_back({t, env[s].second.at(t)}); } bit++; }
      std::sort(more[s].second.p.begin(), more[s].second.p.end(), [](auto& p, auto& q) { return p.t < q.t; });
    }
    auto t1 = bind_::trace(env), t2 = bind_::trace(more);
    if (mc::verbose) mc::desc("resampled " + bind_::str(more));
    for (size_t k = 0; k < fs->size(); k++) rel::equal(rel::eval((*es)[k], t1), rel::eval((*es)[k], t2), tol, "formula " + ref::str((*fs)[k]) + " against the resampled trace");
    return true;
  };
  each("resample", rx, ry, nv, "every subset of 5 redundant times of x and 4 of y, 24 formulas", resample);
  each("resample-far", far(rx), far(DenseSpace{{0, 3}, {-1, 1}}), nv, "values around 2^32; every subset of redundant times, 24 formulas", resample);
  // 2. representation: names, extra signals, flag, sharing
  std::vector<std::pair<std::string, std::string>> names{{"y", "x"}, {"a", "b"}, {"b", "a"}, {"_long_signal_name_number_one_", "_long_signal_name_number_one"}, {"X", "x"}};
  std::vector<Pwl> extra{Pwl{{{0.5, 5}}}, Pwl{{{-4, -9}, {9, 9}}}, Pwl{{{1, 3}, {1.25, -8}, {1.5, 3}}}, Pwl{{{20, 0}, {21, 1}}}, Pwl{{{-9, 0}, {-8, 1}}}, Pwl{}};
  u64 nn = names.size(), ne = extra.size();
  each("represent", ax, ay, nn + 2 * ne + 2, "renamings, unmentioned signals, shared signal objects, both flag values; 24 formulas", [=](const Env& env, u64 v) {
    auto t1 = bind_::trace(env);
    for (size_t k = 0; k < fs->size(); k++) {
      auto f = (*fs)[k]; auto base = rel::eval((*es)[k], t1); Expr e2 = (*es)[k]; auto t2 = t1; bool dom = true; std::string what;
      if (v < nn) {
        auto [nx, ny] = names[v]; what = "renamed to " + nx + ", " + ny;
        e2 = bind_::expr(rewrite(f, [nx = nx, ny = ny](Node& n) { if (n.name == "x") n.name = nx; else if (n.name == "y") n.name = ny; }));
        t2.clear(); t2[nx] = t1["x"]; t2[ny] = t1["y"];
      } else if (v < nn + 2 * ne) {
        u64 j = v - nn; what = "with unmentioned signal " + ref::str(extra[j % ne]); t2[j < ne ? "a" : "zz"] = bind_::sig(extra[j % ne]); dom = !has_const(f);
      } else if (v == nn + 2 * ne) {
        what = "with the same signal object under other names"; t2["w"] = t2["x"]; t2["a"] = t2["y"]; t2["x2"] = std::make_shared<stl::signal::Signal>(*t1["x"]);
        e2 = bind_::expr(rewrite(f, [](Node& n) { if (n.name == "x") n.name = n.op == GE ? "w" : "x2"; else if (n.name == "y") n.name = "a"; }));
      } else { // strict and non-strict comparisons have the same robustness
        what = "with the other strictness";
        e2 = bind_::expr(rewrite(f, [](Node& n) { if (n.op == GE) n.op = GT; else if (n.op == LT) n.op = LE; else if (n.op == LE) n.op = LT; }));
      }
      auto other = rel::eval(e2, t2);
      rel::equal(base, other, 1e-9, "formula " + ref::str(f) + " " + what, dom);
      if (!dom && !base.empty() && (other.empty() || other.b() > base.b() + 1e-9 || other.e() < base.e() - 1e-9)) mc::fail("formula " + ref::str(f) + " " + what + ": domain shrank");
    }
    return true;
  });
  // any number of signals in the trace; some of the formulas mention all of them
  std::vector<int> many; for (int k = 1; k <= 40; k++) many.push_back(k); for (int k : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4097, 65537}) many.push_back(k);
  u64 nm = many.size();
  mc::family("many-signals", nm * 4 * 4, [=](u64 i) {
    int k = many[i % nm], where = int(i / nm % 4), shape = int(i / nm / 4);
    Env env{{"x", shape & 1 ? Pwl{{{0, -1}, {1, 2}, {2, 0}}} : Pwl{{{0, 1}, {3, -1}}}}, {"y", shape & 2 ? Pwl{{{0.5, 1}, {2.5, -2}}} : Pwl{{{0, 0}, {1, 1}, {2, 2}, {3, -1}}}}};
    auto t1 = bind_::trace(env), t2 = t1; std::vector<std::string> nms;
    for (int j = 0; j < k; j++) { char b[64]; snprintf(b, 64, where == 0 ? "a%d" : where == 1 ? "x%05d" : where == 2 ? "z_with_a_long_common_prefix_%d" : "%d", j); nms.push_back(b); t2[b] = bind_::sig(Pwl{{{0.5, double(j % 17)}, {1, double(j % 7) - 3}, {1.5, double(j % 17)}}}); }
    mc::state(i);
    for (size_t f = 0; f < fs->size(); f++) {
      if (k > 1000 && f % 6) continue;
      mc::heartbeat(); rel::equal(rel::eval((*es)[f], t1), rel::eval((*es)[f], t2), 1e-9, "formula " + ref::str((*fs)[f]) + " with " + std::to_string(k) + " unmentioned signals", !has_const((*fs)[f]));
    }
    // all of them mentioned: one signal is at j + 1 throughout, except that signal q is at 0 (for "and") or k + 2 (for "or")
    if (k <= 4097) for (int q : {0, 1, k / 2, k - 1}) for (bool mx : {false, true}) {
      if (q >= k) continue;
      stl::signal::Trace t; std::vector<Expr> ks; for (int j = 0; j < k; j++) { t[nms[size_t(j)]] = bind_::sig(Pwl{{{0, j == q ? (mx ? k + 2 : 0) : j + 1.0}, {1, j == q ? (mx ? k + 2 : 0) : j + 1.0}}}); ks.push_back(stl::Predicate(nms[size_t(j)]) >= 0.0); }
      if (k == 1) ks.push_back(ks[0]);
      auto got = rel::eval(mx ? stl::Or(ks) : stl::And(ks), t); double want = mx ? k + 2 : 0;
      for (auto& s : got.p) if (s.v != want) mc::fail(std::to_string(k) + " signals, all mentioned: " + num(s.v) + " instead of " + num(want) + " at " + num(s.t));
      if (got.empty() || got.b() != 0 || got.e() != 1) mc::fail(std::to_string(k) + " signals, all mentioned: wrong domain");
    }
    mc::trace(); return true;
  }, "1 to 65537 unmentioned signals under 4 kinds of names, 24 formulas; conjunctions and disjunctions that mention 1 to 4097 signals, the deciding one in 4 places");
  DenseSpace fx{{0, 1, 2.5, 3}, {-1, 0, 2}}, fy{{0, 1, 2.5, 3}, {-1, 1}};
  each("flag", fx, fy, 1, "equal sample times, already-synchronized flag on and off; 24 formulas", [=](const Env& env, u64) {
    auto t1 = bind_::trace(env);
    for (size_t k = 0; k < fs->size(); k++) rel::equal(rel::eval((*es)[k], t1, false), rel::eval((*es)[k], t1, true), 1e-9, "formula " + ref::str((*fs)[k]) + " with the synchronized flag");
    return true;
  });
  // 3. shift and scale
  std::vector<double> dts{1, -2, 0.25, -0.75, 1024, -4096.5, 8589934592.0}, cs{2, 0.5, 3, 1024, 0.1, std::ldexp(1.0, -40), std::ldexp(1.0, 40), std::ldexp(3.0, -60)};
  u64 nd = dts.size(), nc = cs.size();
  auto shsc = [=](const Env& env, u64 v) {
    Env o = env; double dt = 0, c = 1;
    if (v < nd) dt = dts[v]; else c = cs[v - nd];
    for (auto& p : o) for (auto& q : p.second.p) { q.t += dt; q.v *= c; }
    auto t1 = bind_::trace(env), t2 = bind_::trace(o);
    for (size_t k = 0; k < fs->size(); k++) {
      auto f = (*fs)[k];
      Expr e2 = c == 1 ? (*es)[k] : bind_::expr(rewrite(f, [c](Node& n) { n.c *= c; }));
      auto base = rel::eval((*es)[k], t1), other = rel::eval(e2, t2);
      rel::well_formed(base, "formula " + ref::str(f));
      for (auto& q : base.p) { q.t += dt; q.v *= c; }
      rel::equal(base, other, c == 1 ? std::max(1e-7, dt * 1e-14) : c * 1e-7, "formula " + ref::str(f) + (c == 1 ? " shifted by " + num(dt) : " scaled by " + num(c)), true, false);
    }
    return true;
  };
  each("shift-scale", ax, ay, nd + nc, "7 shifts and 8 scalings, 24 formulas", shsc);
  if (th) each("shift-scale-long", SigSpace{{0, 1, 2, 4}, {-1, 0, 2}}, SigSpace{{0, 1.5, 2, 4.5}, {-1, 1}}, nd + nc, "7 shifts and 8 scalings, 24 formulas", shsc);
  // 4. long signals: all-redundant resampling (every segment halved, thirded to dyadic points) and simplify
  LongSpace ls;
  mc::family("long", ls.size() * 3, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; if (!ls.get(i / 3, env[0].second)) return false;
    Env more; ls.get((i / 3 * 7 + 5) % ls.size(), env[1].second);
    if (ref::common(env[0].second, env[1].second).empty()) return false;
    more = env;
    for (int s = 0; s < 2; s++) {
      Pwl o; auto& p = env[s].second.p;
      for (size_t j = 0; j < p.size(); j++) { o.p.push_back(p[j]); if (j + 1 < p.size()) { double u = p[j].t, w = p[j + 1].t; if (i % 3 != 1) o.p.push_back({u + (w - u) / 4, ref::lerp(p[j], p[j + 1], u + (w - u) / 4)}); if (i % 3 != 0 && (j + s) % 2) o.p.push_back({(u + w) / 2, ref::lerp(p[j], p[j + 1], (u + w) / 2)}); } }
      more[s].second = o;
    }
    mc::state(mc::mix(bind_::henv(env), i % 3));
    if (mc::verbose) mc::desc("trace " + bind_::str(env) + " resampling " + std::to_string(i % 3));
    auto t1 = bind_::trace(env), t2 = bind_::trace(more);
    for (size_t k = 0; k < fs->size(); k++) rel::equal(rel::eval((*es)[k], t1), rel::eval((*es)[k], t2), 1e-6, "formula " + ref::str((*fs)[k]) + " against the resampled trace");
    mc::trace(); return true;
  }, "40 and 150 sample signals, 3 resamplings, 24 formulas");
}
