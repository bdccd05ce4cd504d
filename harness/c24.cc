// C24: names under every command history.
#include "spec.hpp"
using mc::u64;
namespace {
using Terms = std::vector<std::string>;
bool is_digit(char c) { return c >= '0' && c <= '9'; }
struct Cmds { Terms c; };
Cmds commands(const Terms& names, const Terms& terms) { Cmds r; for (auto& n : names) for (auto& t : terms) { r.c.push_back("(define-formula " + n + " " + t + ")"); r.c.push_back("(assert " + n + " " + t + ")"); } return r; }
/// judge one history; the oracle replays it command by command
std::string expect(const std::string& text, bool& ok) {
  auto w = spec::parse(text); if (w.kind == spec::Result::OPEN) mc::fail("oracle: open text " + text);
  ok = w.kind == spec::Result::ACCEPT; return ok ? spec::want(w) : w.why;
}
void verdict(const std::string& text, const spec::Out& o) {
  bool ok; std::string w = expect(text, ok);
  if (ok) {
    if (!o.ok) mc::fail("the history " + text + " is rejected: " + o.err);
    std::string g = spec::show(*o.s); if (g != w) mc::fail("the history " + text + " gives\n  " + g + "\ninstead of\n  " + w);
  } else {
    if (o.ok) mc::fail("the history " + text + " must be rejected (" + w + ") and gives " + spec::show(*o.s));
    if (!o.parse_error) mc::fail("the history " + text + " is rejected (" + w + "), but not with a parse error: " + o.err);
  }
  mc::outcome(mc::hstr(ok ? w : "rejected"));
}
bool check(const std::string& text) {
  if (mc::verbose) mc::desc(text);
  auto o = spec::run(text); verdict(text, o); mc::state(mc::hstr(text)); mc::trace(); return true;
}
u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
void histories(const std::string& name, const Cmds& c, int depth) {
  auto C = std::make_shared<Cmds>(c); u64 n = c.c.size();
  for (int d = 0; d <= depth; d++) mc::family(name + "-" + std::to_string(d), ipow(n, d), [=](u64 i) { std::string t; for (int k = 0; k < d; k++) { t += C->c[i % n] + " "; i /= n; } return check(t); }, "all histories of " + std::to_string(d) + " out of " + std::to_string(n) + " commands");
}
} // namespace
void mc_register() {
  bool th = mc::thorough();
  histories("two-names", commands({"p", "q"}, {"true", "(< x 1)", "p", "q", "(not p)", "(and p q)", "(until q (always p))"}), th ? 5 : 4);
  histories("three-names", commands({"p", "q", "r"}, {"(> x 1)", "p", "(or q r)"}), th ? 6 : 4);
  histories("similar-names", commands({"p", "pp", "P", "p_"}, {"(< p 1)", "p", "(not pp)", "(implies P p_)"}), th ? 4 : 3);
  histories("nested-uses", commands({"p", "q"}, {"(< q 1)", "((p))", "(or (< x 2) (and p (not q)))", "(xor (eventually p) (iff q p))", "(and p p q)"}), th ? 5 : 4);
  histories("odd-names", commands({"define", "assert_", "true_", "e1"}, {"(< x 1)", "define", "(not true_)", "(and assert_ e1)"}), th ? 4 : 3);
  // long names that differ in one place, or in length only
  static const std::vector<u64> lens = [=] { std::vector<u64> v; for (u64 n = 1; n <= 40; n++) v.push_back(n); for (u64 n : {47, 48, 49, 62, 63, 64, 65, 66, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537}) v.push_back(n); if (th) for (u64 n : {131071, 131072, 262145, 1048577}) v.push_back(n); return v; }();
  mc::family("long-names", lens.size() * 8 * 6, [](u64 i) {
    u64 n = lens[i % lens.size()], at = i / lens.size() % 8, kind = i / lens.size() / 8; std::string a(n, 'n'), b = a;
    for (u64 k = 0; k < n; k++) a[k] = b[k] = "nameA_z9q"[(k * k + k / 9) % 9]; if (is_digit(a[0])) a[0] = b[0] = 'f';
    switch (at) { case 0: b += "x"; break; case 1: b += b; break; case 2: b += std::string(n, 'y'); break; default: { u64 k = at == 3 ? n - 1 : at == 4 ? n / 2 : at == 5 ? 0 : at == 6 ? (n > 8 ? n - 8 : 0) : n / 4; b[k] = b[k] == 'Z' ? 'Y' : 'Z'; } }
    std::string A = "(define-formula " + a + " (< " + a + " 1)) ", B = "(define-formula " + b + " (> " + b + " 2)) ";
    std::string t = kind == 0 ? A + B + "(assert " + a + " " + b + ") (assert " + b + " " + a + ")" : kind == 1 ? A + "(assert p " + b + ")" : kind == 2 ? B + "(assert p " + a + ")" : kind == 3 ? A + B + A : kind == 4 ? A + "(assert " + a + " (not " + a + ")) (assert " + b + " " + a + ") (assert " + a + " true)" : B + A + "(define-formula q (and " + a + " (until " + b + " " + a + "))) (assert q (or q " + b + "))";
    if (mc::verbose) mc::desc("names of " + std::to_string(n) + " characters, difference " + std::to_string(at) + ", history " + std::to_string(kind)); auto o = spec::run(t); verdict(t, o); mc::state(i); mc::trace(); return true;
  }, std::to_string(lens.size()) + " lengths of names from 1 to " + std::to_string(lens.back()) + " characters, pairs that differ in length or in one place (8 ways), 6 histories that define, use, confuse and redefine them");
  // chains and late uses
  mc::family("chains", 40 * 40, [](u64 i) { u64 n = i % 40 + 1, use = i / 40; std::string t; for (u64 k = 0; k < n; k++) t += "(define-formula f" + std::to_string(k) + " " + (k ? "(not f" + std::to_string(k - 1) + ")" : "(< x 1)") + ") "; return check(t + "(assert g f" + std::to_string(use) + ")"); }, "chains of 1 to 40 definitions, every use");
  mc::family("redefinition-at-distance", 30 * 30 * 4, [](u64 i) { u64 a = i % 30, n = i / 30 % 30, kind = i / 900; std::string t; for (u64 k = 0; k <= n; k++) t += std::string(kind % 2 ? "(assert f" : "(define-formula f") + std::to_string(k) + " (< x " + std::to_string(k) + ")) "; return check(t + (kind / 2 ? "(assert f" : "(define-formula f") + std::to_string(a) + " true)"); }, "a name defined again after up to 30 other commands");
  // thousands of names, then each kind of command on the first, second, middle or last one, or on one that is not there
  static const std::vector<u64> many{64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2049, 4097, 10000, 32769, 65537};
  mc::family("many-names", many.size() * 3 * 6 * 7, [](u64 i) {
    u64 n = many[i % many.size()]; i /= many.size(); u64 kind = i % 3; i /= 3; u64 at = i % 6, last = i / 6; mc::heartbeat();
    if (n > 5000 && last % 2) return false;
    u64 w = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n / 2 : at == 3 ? n - 2 : at == 4 ? n - 1 : n; std::string N = std::to_string(w), t;
    for (u64 k = 0; k < n; k++) { std::string K = std::to_string(k); t += kind == 0 ? "(define-formula f" + K + " (< x" + K + " " + K + "))" : kind == 1 ? "(define-formula f" + K + (k ? k % 2 ? " (not f0))" : " (or f" + std::to_string(k / 2) + " true))" : " (> x 1))") : k % 2 ? "(assert f" + K + " (< y 1))" : "(define-formula f" + K + " (> z " + K + "))"; }
    if (kind == 1 && n > 600) { t.clear(); for (u64 k = 0; k < n; k++) { std::string K = std::to_string(k); t += "(define-formula f" + K + (k ? k % 2 ? " (not f0))" : " (or f1 (< x " + K + ")))" : " (> x 1))"); } }
    switch (last) {
      case 0: t += "(assert g f" + N + ")"; break; case 1: t += "(define-formula g (until f" + N + " f0))"; break; case 2: t += "(define-formula f" + N + " (> x 7))"; break; case 3: t += "(assert f" + N + " true)"; break;
      case 4: t += "(define-formula g (not f" + N + "))(assert h (and g f" + N + "))"; break; case 5: t += "(assert f" + N + " f" + N + ")"; break; default: t += "(assert g0 f0)(assert g f" + N + ")(assert g1 f1)"; break;
    }
    if (mc::verbose) mc::desc("history of " + std::to_string(n) + " definitions (kind " + std::to_string(kind) + "), then " + t.substr(t.size() > 60 ? t.size() - 60 : 0));
    auto o = spec::run(t); try { verdict(t, o); } catch (mc::Violation& v) { mc::fail("a history of " + std::to_string(n) + " definitions, kind " + std::to_string(kind) + ", then command " + std::to_string(last) + " on name " + N + ": " + v.msg.substr(0, 1500)); }
    mc::state(mc::hstr(t)); mc::trace(); return true;
  }, "64 to 65537 definitions of 3 kinds, then 7 endings that use or define the first, second, middle or last name, or a new one");
  // independence: A parsed (or rejected), kept or dropped, then B
  auto H = std::make_shared<Terms>();
  { auto c = commands({"p", "q"}, {"(< x 1)", "p", "(not q)", "(and p q)"}); H->push_back(""); for (auto& a : c.c) H->push_back(a); for (auto& a : c.c) for (auto& b : c.c) H->push_back(a + " " + b); for (const char* s : {"(define-formula p", "(define-formula p (< x 1)", "(define-formula p (< x 1)) (define-formula q (and p", "(define-formula p (< x 1)) x", "(define-formula p (< x 1)) (assert q (and p))", "(define-formula p (< x 1)) (assert q (< 5", ")"}) H->push_back(s); }
  u64 nh = H->size();
  mc::family("independence", nh * nh, [=](u64 i) {
    auto &a = (*H)[i % nh], &b = (*H)[i / nh]; if (mc::verbose) mc::desc(a + "   then   " + b);
    auto x = spec::run(a); std::string before = x.ok ? spec::show(*x.s) : "";
    auto y = spec::run(b); 
    auto wa = spec::parse(a); if (x.ok != (wa.kind == spec::Result::ACCEPT)) mc::fail("wrong verdict on " + a); if (wa.kind == spec::Result::ACCEPT) verdict(a, x);
    auto wb = spec::parse(b); if (y.ok != (wb.kind == spec::Result::ACCEPT)) mc::fail("after parsing " + a + ", " + b + (y.ok ? " is accepted as " + spec::show(*y.s) : " is rejected: " + y.err)); if (y.ok) verdict(b, y);
    if (x.ok && spec::show(*x.s) != before) mc::fail("parsing " + b + " changed the result of " + a);
    if (x.ok && y.ok) { std::string sb = spec::show(*y.s); x.s->formulas.clear(); x.s->assertions["p"] = signal_tl::Const(true); if (spec::show(*y.s) != sb) mc::fail("specifications share state"); auto z = spec::run(b); if (!z.ok || spec::show(*z.s) != sb) mc::fail("parsing " + b + " again gives another result"); }
    mc::state(mc::mix(mc::hstr(a), mc::hstr(b))); mc::trace(); return true;
  }, "all ordered pairs of " + std::to_string(nh) + " specifications, valid and invalid");
}
