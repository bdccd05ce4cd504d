// C07: Boolean layer of robustness, dense time.
#include "alpha.hpp"
using namespace alpha;

void mc_register() {
  bool th = mc::thorough();
  auto x = x0(), y = y0(), z = pred("z", GE, 0);
  auto T = mk(TRUE_), Fa = mk(FALSE_);
  auto n = [](Fm f) { return mk(NOT, {f}); };
  std::vector<Fm> bin{
      mk(AND, {x, y}), mk(OR, {x, y}), mk(AND, {P("x", LT, 1), P("y", GT, 0.5)}), mk(OR, {P("x", LE, 0.25), P("y", LT, -1)}),
      mk(IMPLIES, {x, y}), mk(XOR, {x, y}), mk(IFF, {x, y}), mk(AND, {n(x), y}), n(mk(OR, {x, n(y)})), n(n(mk(AND, {x, y}))),
      mk(AND, {mk(OR, {x, y}), n(x)}), mk(OR, {mk(AND, {x, P("y", LT, 1)}), y}), mk(AND, {x, y, P("x", LT, 1.5)}), mk(OR, {y, P("x", LT, 1), P("y", LT, 0.5), x})};
  // every predicate form
  std::vector<Fm> ps;
  for (Op o : {GT, GE, LT, LE}) for (double c : {-1.5, 0.0, 0.1, 2.0, 1000.0}) { ps.push_back(pred("x", o, c)); ps.push_back(n(pred("x", o, c))); }
  ps.push_back(T); ps.push_back(Fa); ps.push_back(n(T)); ps.push_back(mk(AND, {T, T})); ps.push_back(mk(OR, {Fa, T})); ps.push_back(mk(AND, {T, Fa}));
  for (auto c : {T, Fa}) for (auto o : {AND, OR}) {
    ps.push_back(mk(o, {c, x})); ps.push_back(mk(o, {x, c})); ps.push_back(mk(o, {x, c, P("x", LT, 1)})); ps.push_back(mk(o, {n(c), x}));
    ps.push_back(mk(o, {mk(o, {x, c}), P("x", LT, 1)}));
  }
  ps.push_back(mk(IMPLIES, {x, T})); ps.push_back(mk(IMPLIES, {x, Fa})); ps.push_back(mk(XOR, {x, T})); ps.push_back(mk(IFF, {x, Fa})); ps.push_back(mk(IFF, {T, x})); ps.push_back(mk(IMPLIES, {T, x}));
  singles("single", SigSpace{{0, 1, 2.5, 3, 4}, {-1, 0, 2}}, ps, "signals over times {0,1,2.5,3,4} each absent or in {-1,0,2}");
  // pairs, synchronous and asynchronous in every combination
  pairs("pairs", SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, SigSpace{{0, 1, 2, 3}, {-1, 0, 2}}, bin, "x, y over times 0..3, each absent or in {-1,0,2}");
  std::vector<Fm> few{mk(AND, {x, y}), mk(OR, {x, y}), mk(IFF, {x, y})};
  pairs("irregular", SigSpace{{0, 0.5, 2, 3.25, 4}, {-2, 1}}, SigSpace{{-1, 1, 2, 2.25, 4.5}, {-1.5, 0.75}}, few, "asynchronous irregular times, two values");
  pairs("dense", DenseSpace{{0, 1, 2, 3, 4, 5, 6}, {0, 3}}, DenseSpace{{0.5, 1, 1.5, 3, 4, 5.5, 7}, {1, 2}}, few, "7 samples each, two values, asynchronous");
  pairs("values", DenseSpace{{0, 1, 2}, {-2, -1, 0, 1, 3}}, DenseSpace{{0, 1, 2}, {-2, -1, 0, 1, 3}}, few, "3 synchronous samples, five values");
  // constants beside signals that are not defined everywhere
  std::vector<Fm> kc;
  for (auto c : {T, Fa}) { for (auto o : {AND, OR}) for (auto& f : {x, n(y)}) { kc.push_back(mk(o, {c, f})); kc.push_back(mk(o, {f, c})); } for (auto o : {AND, OR}) { kc.push_back(mk(o, {c, x, y})); kc.push_back(mk(o, {x, c, y})); kc.push_back(mk(o, {x, y, c})); kc.push_back(mk(o, {mk(o, {y, c}), n(c), x})); } kc.push_back(n(mk(AND, {y, n(c)}))); kc.push_back(c); }
  pairs("constants", SigSpace{{0, 1, 2.5, 3}, {-1, 2}}, SigSpace{{-1, 1, 2, 4}, {-1.5, 1}}, kc, "constants beside signals with other domains");
  if (th) {
    pairs("pairs5", SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}, SigSpace{{0, 1, 2, 3, 4}, {-1, 0, 2}}, bin, "x, y over times 0..4");
    pairs("irregular3", SigSpace{{0, 0.5, 2, 3.25, 4}, {-2, 1, 3}}, SigSpace{{-1, 1, 2, 2.25, 4.5}, {-1.5, 0.75, 2}}, few, "asynchronous irregular times, three values");
  }
  // three and more signals
  SigSpace s3{{0, 1, 2}, th ? std::vector<double>{-1, 0, 2} : std::vector<double>{-1, 2}};
  std::vector<Fm> f3{mk(AND, {x, y, z}), mk(OR, {x, y, z}), mk(OR, {mk(AND, {x, n(y)}), z}), mk(AND, {x, T, y, z, P("y", LT, 1), n(z)}),
                     mk(OR, {x, Fa, z, y, x, P("z", LE, 0.5), P("x", LT, -0.5), n(y), P("y", GT, 1), z}), mk(IMPLIES, {mk(XOR, {x, y}), z})};
  mc::family("triples", s3.size() * s3.size() * s3.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}, {"z", {}}}; u64 m = s3.size();
    if (!s3.get(i % m, env[0].second) || !s3.get(i / m % m, env[1].second) || !s3.get(i / m / m, env[2].second)) return false;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : f3) bind_::check_rho(f, bind_::expr(f), env, tr);
    mc::trace(); return true;
  }, "x, y, z over times 0..2; up to 10 operands");
  // long signals, scaled and offset signals
  LongSpace L; u64 ln = L.size();
  mc::family("long", ln * 24, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; L.get(i % ln, env[0].second); L.get((i / ln * 37 + i * 5 + 1) % ln, env[1].second);
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : {bin[0], bin[1], bin[5]}) bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6);
    mc::trace(); return true;
  }, "signals of 40 and 150 samples in 90 shapes, 24 partners each");
  SizeSpace Z{sizes(th ? 5000 : 2049)}; u64 zn = Z.size();
  mc::family("sizes", zn * 4, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; Z.get(i % zn, env[0].second); Z.get((i % zn / 8 * 8 + (i % zn + 1 + 2 * (i / zn)) % 8), env[1].second);
    for (auto& q : env[1].second.p) q.t += i % 3 * 0.125; // aligned and shifted
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : {bin[0], bin[1], bin[7]}) { bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::heartbeat(); }
    mc::trace(); return true;
  }, "pairs of long signals, lengths around powers of two");
  SizeSpace Y{big_sizes(th)}; u64 yn = Y.size();
  mc::family("big", yn * 4, [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; Y.get(i % yn, env[0].second); Y.get((i % yn / 8 * 8 + (i % yn + 1 + 2 * (i / yn)) % 8), env[1].second);
    for (auto& q : env[1].second.p) q.t += i % 3 * 0.125;
    auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : {bin[0], bin[1], bin[7]}) { bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::heartbeat(); }
    mc::trace(); return true;
  }, "pairs of signals beyond 2^15 and 2^16 samples");
  SkewSpace K{skew_sizes(th)};
  mc::family("skewed", K.size(), [=](u64 i) {
    Env env{{"x", {}}, {"y", {}}}; if (!K.get(i, env[0].second, env[1].second)) return false; auto tr = bind_::trace(env); mc::state(bind_::henv(env));
    for (auto& f : {bin[0], bin[1], mk(AND, {y, x}), mk(OR, {y, n(x)})}) { bind_::check_rho(f, bind_::expr(f), env, tr, 1e-6); mc::heartbeat(); }
    mc::trace(); return true;
  }, "a long signal beside one of 1 to 3 samples, wherever that one begins and ends, in both orders");
  // every number of operands; the operand that decides is in every position
  std::vector<std::pair<int, int>> kp; for (int k : {2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 257}) for (int q = 0; q < k; q++) kp.push_back({k, q});
  for (int k : {1025, 32769, 65537}) for (int q : {0, 1, k / 2, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536}) if (q < k && (q != k / 2 || k == 1025)) kp.push_back({k, q});
  mc::family("operands", kp.size() * 4, [=](u64 i) {
    auto [k, q] = kp[i % kp.size()]; bool mx = i / kp.size() & 1, nested = i / kp.size() & 2;
    Env env{{"x", Pwl{{{0, 1}, {1, -1}, {2, 3}, {4, 0}}}}, {"y", Pwl{{{0, -2}, {1.5, 2}, {4, 1}}}}, {"z", Pwl{{{0, 0}, {4, 0.5}}}}};
    std::vector<Fm> ks; double s = mx ? -1 : 1; // other operands are further and further away
    for (int j = 0; j < k; j++) ks.push_back(j == q ? pred("z", GE, 0) : pred(j % 2 ? "x" : "y", GE, -s * (1 + 0.25 * ((j * 7 + q) % 23))));
    Fm f = mk(mx ? OR : AND, ks); if (nested) f = mk(mx ? AND : OR, {pred("y", GE, -0.5), f, mk(NOT, {f})});
    auto tr = bind_::trace(env); mc::state(mc::hstr(ref::str(f)));
    bind_::check_rho(f, bind_::expr(f), env, tr); mc::trace(); return true;
  }, "conjunctions and disjunctions of 2 to 257 operands, the deciding one in every position; of 1025, 32769 and 65537, in some");
  // many operands that agree in size, in their first and last samples, and everywhere except around one sample each
  mc::family("lookalikes", kp.size() * 4, [=](u64 i) {
    auto [k, q] = kp[i % kp.size()]; if (k > 300) return false; bool mx = i / kp.size() & 1, mono = i / kp.size() & 2; double s = mx ? -1 : 1; Env env; std::vector<Fm> ks;
    for (int j = 0; j < k; j++) {
      Pwl w; for (int t = 0; t < 12; t++) w.p.push_back({double(t), s * (t == 0 || t == 11 ? 1.0 : t == 1 + j % 10 ? (j == q ? -9.0 : -1 - 0.0625 * (j % 64)) : 2.0)});
      std::string nm = "s" + std::to_string(mono ? k - j : j); env.push_back({nm, w}); ks.push_back(pred(nm, GE, 0));
    }
    Fm f = mk(mx ? OR : AND, ks); auto tr = bind_::trace(env); mc::state(mc::mix(i, 71)); mc::heartbeat(); bind_::check_rho(f, bind_::expr(f), env, tr); mc::trace(); return true;
  }, "conjunctions and disjunctions of 2 to 257 signals of one size with the same first and last samples, each alone in deciding around one sample");
  // one signal beyond the other one at every sample of the one, or of the other, except around one sample
  std::vector<int> dn; for (int k = 2; k <= 18; k++) dn.push_back(k); for (int k : {31, 32, 33, 64, 65, 100, 128, 129, 257}) dn.push_back(k);
  std::vector<std::pair<int, int>> dp; for (int k : dn) for (int q = 0; q < 2 * k - 1; q++) if (k < 40 || q < 6 || q > 2 * k - 8 || q % 16 == 1) dp.push_back({k, q});
  mc::family("dominated", dp.size() * 2 * 3 * 4, [=](u64 i) {
    auto [k, q] = dp[i % dp.size()]; u64 c = i / dp.size(); double s = c % 2 ? -1 : 1; int own = int(c / 2 % 3), f4 = int(c / 6);
    Env env{{"x", {}}, {"y", {}}}; auto &a = env[0].second, &b = env[1].second;
    for (int j = 0; j < 2 * k - 1; j++) { // at even times the one has samples, at odd ones the other one, at both ends both of them
      double v = (j * 5) % 7 * 0.25; bool end = j == 0 || j == 2 * k - 2;
      if (j % 2 == 0 || own == 2) a.p.push_back({double(j), v}); if (j % 2 || end || own == 1) b.p.push_back({double(j), v + s * (j == q ? -6 : 3)});
    }
    auto tr = bind_::trace(env); mc::state(bind_::henv(env)); mc::heartbeat();
    Fm X = x, Y = pred("y", GE, 0); Fm f = f4 == 0 ? mk(AND, {X, Y}) : f4 == 1 ? mk(OR, {X, Y}) : f4 == 2 ? mk(AND, {Y, X}) : mk(OR, {Y, X});
    bind_::check_rho(f, bind_::expr(f), env, tr); mc::trace(); return true;
  }, "pairs of 2 to 257 samples of which one is beyond the other except around one sample of either, on samples of both, of the one and of the other");
  // names of signals
  std::vector<std::string> nm{"x", "y", "", " ", "X", "xx", "x1", "x_", "_x", "x.y", "x y", "true", "and", "0", "-1", "\xc3\xa9", std::string("x\0y", 3), std::string("x\0z", 3), "fifteen_letters", "sixteen_letters_", "seventeen_letters", "seventeen_letterS", std::string(300, 'a'), std::string(300, 'a') + "b"};
  u64 nn = nm.size();
  mc::family("names", nn * nn, [=](u64 i) {
    auto &a = nm[i % nn], &b = nm[i / nn]; Env env{{a, Pwl{{{0, 1}, {2, -1}}}}};
    for (auto& o : nm) if (o != a) env.push_back({o, o == b ? Pwl{{{0, -0.5}, {1, 2}, {2, 0}}} : Pwl{{{0, 7}, {2, 9}}}});
    auto tr = bind_::trace(env); mc::state(i);
    for (auto& f : {pred(a, GE, 0.25), pred(b, LT, 0.25), mk(AND, {pred(a, GT, 0), pred(b, LE, 1)}), mk(U, {pred(b, GE, 0), pred(a, GE, 0)})}) bind_::check_rho(f, bind_::expr(f), env, tr);
    mc::trace(); return true;
  }, "every pair of 24 signal names in a trace that has them all");
  for (double t0 : {-7.0, 4096.0}) for (double ts : {1.0 / 64, 64.0}) {
    SigSpace s{{0, 1, 2, 3}, {-1, 2}};
    pairs("affine" + num(t0) + "/" + num(ts), Affine<SigSpace>{s, t0, ts, 0, 256}, Affine<SigSpace>{s, t0, ts, 3, 256}, few, "offset and scaled times and values");
  }
  pairs("far", far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), far(SigSpace{{0, 1, 2}, {-1, 0, 2}}), bin, "values around 2^32", far_tol);
  pairs("far-irregular", far(SigSpace{{0, 0.5, 2, 3.25}, {-2, 1}}), far(SigSpace{{-1, 1, 2, 2.25}, {-1.5, 0.75}}), few, "values around 2^32, asynchronous", far_tol);
  // bounds without a finite robustness, and bounds that swallow the signal's values
  std::vector<Fm> ib;
  for (double c : {INF, -INF, 1e308, -1e308, 5e-324, -5e-324, -0.0}) for (Op o : {GT, GE, LT, LE}) {
    auto p = pred("x", o, c); for (auto& f : {p, n(p), mk(AND, {p, x}), mk(OR, {x, p}), mk(AND, {n(p), P("x", LT, 1), p}), mk(G, {p}), mk(F, {mk(OR, {p, x})}), win(GI, 0.5, 1.5, mk(AND, {x, p})), win(FI, 1, 2, p), mk(U, {x, p}), mk(U, {p, x}), mk(IFF, {p, x}), mk(XOR, {x, p})}) ib.push_back(f);
  }
  singles("odd-bounds", SigSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, ib, "infinite, huge and tiny bounds");
  // every kind of operand
  std::vector<Fm> bk; { auto K = kinds(); for (size_t a = 0; a < K.size(); a++) for (size_t b = 0; b < K.size(); b++) { bk.push_back(mk(AND, {K[a], K[b]})); bk.push_back(mk(OR, {K[a], K[b]})); if (a > 1 && b > 1) for (Op o : {IMPLIES, XOR, IFF}) bk.push_back(mk(o, {K[a], K[b]})); } for (auto& a : kinds2()) { bk.push_back(n(a)); bk.push_back(mk(AND, {x, a, P("y", LT, 1)})); bk.push_back(mk(OR, {a, P("x", LT, 0.5), n(a)})); } }
  pairs("kinds", SigSpace{{0, 1, 2}, {-1, 2}}, SigSpace{{0, 0.5, 2}, {-1.5, 1}}, bk, "operands of 29 kinds in every pair, and 190 nested ones");
  pairs("spacing", mixed(0), mixed(1), bin, "sample distances from 2^-20 to 2^20 in one signal");
  // connectives applied to one operand and itself, a copy of it, its negation, and the other way round; every writing
  std::vector<Fm> same{x, P("x", LT, 0.5), n(x), T, Fa, mk(AND, {x, P("x", LT, 1)}), mk(OR, {x, P("x", LT, -0.5)}), mk(G, {x}), win(FI, 0.5, 1.5, x), mk(U, {x, P("x", LT, 0.5)}), mk(IFF, {x, P("x", LE, 1)})};
  SigSpace ss{{0, 1, 2.5, 3}, {-1, 0, 2}}; u64 sn = ss.size(), sk = same.size() * 5 * 8;
  mc::family("same-operand", sn * sk, [=](u64 i) {
    namespace st = signal_tl; Env env{{"x", {}}}; if (!ss.get(i % sn, env[0].second)) return false;
    u64 c = i / sn; Fm f = same[c % same.size()]; c /= same.size(); int rel = int(c % 5), how = int(c / 5);
    auto e = bind_::expr(f), g = e; Fm h = f;
    switch (rel) { case 0: break; case 1: g = bind_::expr(f); break; case 2: h = n(f); g = st::Not(e); break; case 3: h = n(f); g = ~bind_::expr(f); break; default: h = n(f); std::swap(f, h); g = e; e = st::Not(e); break; }
    Fm w; st::ast::Expr r;
    switch (how) {
      case 0: w = mk(AND, {f, h}); r = st::And({e, g}); break; case 1: w = mk(OR, {f, h}); r = st::Or({e, g}); break;
      case 2: w = mk(AND, {f, h}); r = e & g; break; case 3: w = mk(OR, {f, h}); r = e | g; break;
      case 4: w = mk(IMPLIES, {f, h}); r = st::Implies(e, g); break; case 5: w = mk(IMPLIES, {f, h}); r = e >> g; break;
      case 6: w = mk(XOR, {f, h}); r = st::Xor(e, g); break; default: w = mk(IFF, {f, h}); r = st::Iff(e, g); break;
    }
    auto tr = bind_::trace(env); mc::state(mc::mix(bind_::henv(env), i / sn)); bind_::check_rho(w, r, env, tr); mc::trace(); return true;
  }, "11 operands with themselves, a copy, their negation, a copy of it, and negated first; 8 ways to connect them");
  // two comparisons of one signal (one implied by the other, excluding it, or both at once), in every way to connect them
  std::vector<Fm> rp; for (Op o : {GT, GE, LT, LE}) for (double c : {-0.5, 0.5, 1.5}) rp.push_back(pred("x", o, c));
  SigSpace rs{{0, 1, 3}, {-1, 1, 2}}; u64 rsn = rs.size(), rn = rp.size();
  mc::family("related", rsn * rn * rn * 8 * 4, [=](u64 i) {
    namespace st = signal_tl; Env env{{"x", {}}}; if (!rs.get(i % rsn, env[0].second)) return false;
    u64 c = i / rsn; Fm f = rp[c % rn], h = rp[c / rn % rn]; c /= rn * rn; int how = int(c % 8), form = int(c / 8);
    if (form & 1) f = n(f); if (form & 2) h = n(h);
    auto neg = [](bool b, st::ast::Expr e) { return b ? ~e : e; };
    auto e = neg(form & 1, bind_::expr(form & 1 ? f->k[0] : f)), g = neg(form & 2, bind_::expr(form & 2 ? h->k[0] : h)); Fm w; st::ast::Expr r;
    switch (how) {
      case 0: w = mk(AND, {f, h}); r = e & g; break; case 1: w = mk(OR, {f, h}); r = e | g; break;
      case 2: w = mk(AND, {f, h}); r = st::And({e, g}); break; case 3: w = mk(OR, {f, h}); r = st::Or({e, g}); break;
      case 4: w = mk(IMPLIES, {f, h}); r = e >> g; break; case 5: w = mk(IFF, {f, h}); r = st::Iff(e, g); break;
      case 6: w = mk(XOR, {f, h}); r = st::Xor(e, g); break; default: w = mk(OR, {mk(AND, {f, h}), mk(AND, {h, P("x", LT, 0)}), f}); r = (e & g) | (g & (st::Predicate("x") < 0.0)) | e; break;
    }
    auto tr = bind_::trace(env); mc::state(i); bind_::check_rho(w, r, env, tr); mc::trace(); return true;
  }, "all pairs of 12 comparisons of one signal, negated or not, 8 ways to connect them");
  mc::each_units(bind_::unit_systems(th), [&] {
    singles("single", SigSpace{{0, 1, 2.5, 3}, {-1, 0, 2}}, ps, "times {0,1,2.5,3} each absent or in {-1,0,2}");
    pairs("pairs", SigSpace{{0, 1, 2}, {-1, 0, 2}}, SigSpace{{0, 1, 2}, {-1, 0, 2}}, bin, "x, y over times 0..2");
    pairs("irregular", SigSpace{{0, 0.5, 2, 3.25}, {-2, 1}}, SigSpace{{-1, 1, 2, 2.25}, {-1.5, 0.75}}, few, "asynchronous irregular times");
    pairs("values", DenseSpace{{0, 1, 2}, {-1, 0, 1, 3}}, DenseSpace{{0, 1, 2}, {-1, 0, 1, 3}}, few, "3 synchronous samples, four values");
  });
}
