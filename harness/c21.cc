// C21: every specification of the language parses to exactly the formulas it denotes.
#include "spec.hpp"
using mc::u64;
namespace {
using Terms = std::vector<std::string>;
const Terms leaves{"true", "false", "p", "q", "(< a 5)", "(>= 2.5 b)", "(<= b 0.25)", "(> 10 a)"};
const Terms un{"not", "always", "eventually", ""};
const Terms bin{"and", "or", "implies", "iff", "xor", "until"};
std::string unary(const std::string& o, const std::string& a) { return o.empty() ? "(" + a + ")" : "(" + o + " " + a + ")"; }
const std::string prefix = "(define-formula p (> x 1)) (define-formula q (until (< y 2) (> z 3))) ";
bool check(const std::string& text) {
  if (mc::verbose) mc::desc(spec::quote(text));
  auto w = spec::parse(text);
  if (w.kind != spec::Result::ACCEPT) mc::fail("oracle: the reference does not accept its own text " + text + ": " + w.why);
  auto o = spec::run(text); spec::exact(text, w, o);
  mc::state(mc::hstr(text)); mc::outcome(mc::hstr(spec::show(*o.s))); mc::trace(); return true;
}
/// term placed in a command: as an assertion or as a definition that is used afterwards
bool in_command(const std::string& t, u64 how) { return check(how ? prefix + "(define-formula r " + t + ") (assert g (not r))" : prefix + "(assert g " + t + ")"); }
} // namespace
void mc_register() {
  bool th = mc::thorough();
  u64 nl = leaves.size();
  mc::family("leaves", nl * 2, [=](u64 i) { return in_command(leaves[i % nl], i / nl); }, "8 leaf terms");
  mc::family("unary-towers", [&] { u64 n = nl; for (int d = 0; d < (th ? 7 : 5); d++) n *= un.size() + 1; return n; }() * 2, [=](u64 i) {
    std::string t = leaves[i % nl]; u64 how = i / nl % 2, c = i / nl / 2; bool end = false;
    while (c || !end) { u64 d = c % (un.size() + 1); c /= un.size() + 1; if (!d) { end = true; if (c) return false; break; } t = unary(un[d - 1], t); }
    return in_command(t, how);
  }, th ? "all towers of up to 7 of not, always, eventually, parentheses over 8 leaves" : "all towers of up to 5 of not, always, eventually, parentheses over 8 leaves");
  mc::family("n-ary", 2 * [&] { u64 n = 0, p = nl; for (int k = 2; k <= (th ? 6 : 5); k++) { p *= nl; n += p; } return n; }(), [=](u64 i) {
    u64 o = i % 2, c = i / 2, n = nl * nl; int k = 2; while (c >= n) { c -= n; n *= nl; k++; }
    std::string t = "(" + bin[o]; for (int j = 0; j < k; j++) { t += " " + leaves[c % nl]; c /= nl; } return in_command(t + ")", k % 2);
  }, th ? "and/or of 2 to 6 operands, 8 leaves each" : "and/or of 2 to 5 operands, 8 leaves each");
  // operands of depth one
  auto L1 = std::make_shared<Terms>();
  { Terms base(leaves.begin(), leaves.begin() + (th ? 7 : 6)); *L1 = base; for (auto& o : un) for (auto& a : base) L1->push_back(unary(o, a)); for (auto& o : bin) for (auto& a : base) for (auto& b : base) L1->push_back("(" + o + " " + a + " " + b + ")"); }
  u64 n1 = L1->size();
  mc::family("binary-of-compound", bin.size() * n1 * n1, [=](u64 i) { return in_command("(" + bin[i % bin.size()] + " " + (*L1)[i / bin.size() % n1] + " " + (*L1)[i / bin.size() / n1] + ")", i % 7 % 2); }, "6 binary connectives over all pairs of " + std::to_string(n1) + " terms of depth <= 1");
  mc::family("unary-of-binary-of-compound", un.size() * bin.size() * n1, [=](u64 i) {
    u64 c = i; std::string o = un[c % un.size()]; c /= un.size(); std::string b = bin[c % bin.size()]; c /= bin.size(); std::string x = (*L1)[c];
    std::string t = "(" + b + " " + x + " " + unary(o, "(" + b + " " + x + " p)") + ")"; return in_command(unary(o, t), c % 2);
  }, "towers of depth 4 repeating one connective");
  auto S = std::make_shared<Terms>(Terms{"true", "p", "(< a 5)", "(not q)", "((> 10 a))", "(and p (< a 5))", "(or q (not p) false)", "(until p q)", "(implies (xor p q) q)", "(iff (always p) q)"}); if (th) S->insert(S->end(), {"(eventually (until p (< b 1)))", "(xor (and p q) (or p q true))", "false", "(and (or p q) (and q p) (not p))"});
  u64 ns = S->size();
  mc::family("n-ary-of-compound", 2 * ns * ns * ns * ns * (th ? ns : 1), [=](u64 i) {
    u64 c = i / 2; std::string t = "(" + bin[i % 2]; for (int j = 0; j < (th ? 5 : 4); j++) { t += " " + (*S)[c % ns]; c /= ns; } return in_command(t + ")", i / 2 % 2);
  }, "and/or of 4 (thorough 5) operands out of " + std::to_string(ns) + " compound terms");
  // comparisons: names, numerals and positions
  auto nm = std::make_shared<Terms>(Terms{"a", "_a", "A1", "a__", "trueish", "true_", "falsely", "notx", "not1", "android", "and_", "orbit", "impliesq", "iffy", "xory", "alwaysx", "eventually2", "untilx", "assert_p", "asserted", "define", "define_formula", "e", "E5", "e5", "inf", "nan", "x0x1", "a_rather_long_signal_name_that_does_not_fit_inline_0123456789"});
  auto nu = std::make_shared<Terms>(Terms{"0", "5", "2.5", "007", "00.50", "1e3", "1E-3", "1.e2", "1.5e+3", "12345678901234567", "0.1", "3.0000000000000004"});
  const Terms ops{"<", "<=", ">", ">="};
  const Terms ctx{"%", "(not %)", "(and p %)", "(until % q)", "(implies (always %) %)", "(%)"};
  u64 nn = nm->size(), nv = nu->size();
  mc::family("comparisons", ops.size() * 2 * nn * nv * ctx.size(), [=](u64 i) {
    u64 c = i; std::string o = ops[c % 4]; c /= 4; bool rev = c % 2; c /= 2; std::string n = (*nm)[c % nn]; c /= nn; std::string v = (*nu)[c % nv]; c /= nv;
    std::string p = rev ? "(" + o + " " + v + " " + n + ")" : "(" + o + " " + n + " " + v + ")", t;
    for (char ch : ctx[c]) if (ch == '%') t += p; else t += ch;
    return in_command(t, i % 2);
  }, "4 comparisons x 2 orders x 29 names x 12 numerals x 6 contexts");
  mc::family("names", nn * nn, [=](u64 i) {
    auto &a = (*nm)[i % nn], &b = (*nm)[i / nn]; if (a == b) return false;
    return check("(define-formula " + a + " (< x 1)) (define-formula " + b + " (not " + a + ")) (assert " + a + " (until " + a + " " + b + ")) (assert " + b + " " + b + ")");
  }, "all pairs of 29 names, many beginning with a keyword");
  mc::family("many-commands", 200, [=](u64 i) { std::string s; for (u64 k = 0; k <= i; k++) s += "(define-formula f" + std::to_string(k) + (k ? " (or f" + std::to_string(k / 2) + " (< x " + std::to_string(k) + "))) " : " (< x 0)) ") + (k % 3 ? "" : "(assert g" + std::to_string(k) + " (not f" + std::to_string(k) + ")) ");
    auto w = spec::parse(s); auto o = spec::run(s); if (!o.ok) mc::fail("rejected: " + o.err); std::string g = spec::show(*o.s); if (g != spec::want(w)) mc::fail("a specification of " + std::to_string(i + 1) + " definitions gives other formulas"); mc::state(mc::hstr(s)); mc::trace(); return true; }, "1 to 200 definitions, each using an earlier one");
  mc::family("long-names", 4 * 40, [=](u64 i) {
    static const int L[40] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 47, 63, 64, 65, 80, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4097, 70000};
    int n = L[i % 40]; std::string a(size_t(n), 'q'), b = a, c = a; b.back() = 'r'; c.front() = 'Q'; if (n > 4) c[n / 2] = '_'; static const char* kw[4] = {"q", "not", "true", "define"}; if (i / 40 && n > 6) { a = kw[i / 40] + a.substr(strlen(kw[i / 40])); b = a; b.back() = '0'; }
    if (a == c || b == c) c += "x";
    std::string s = "(define-formula " + a + " (< " + a + " 1)) (define-formula " + b + " (>= 2 " + b + ")) (define-formula " + c + " (and " + a + " (not " + b + ") (until " + b + " " + a + "))) (assert " + a + " " + c + ") (assert " + c + " (or " + b + " (> " + c + " 3)))";
    if (mc::verbose) mc::desc(spec::quote(s.substr(0, 2000)));
    auto w = spec::parse(s); if (w.kind != spec::Result::ACCEPT) mc::fail("oracle: " + w.why); auto o = spec::run(s); spec::exact(s, w, o); mc::state(mc::hstr(s)); mc::trace(); return true;
  }, "identifiers of 1 to 70000 characters differing in one character");
  mc::family("huge", 63, [=](u64 i) {
    static const char* const cons[12] = {"(and p q)", "(or (and p q) (and q (< a 1) p))", "(not (or p q))", "(implies (and p q) (or q p))", "(iff p (xor q p))", "((p))", "(always (eventually (and p q)))", "(until (< a 1) (or p q p))", "(>= 2.5 b)", "(and (or p (and q (or p q))) (until q p))", "true", "(eventually (< x 1e3))"};
    static const int N[9] = {900, 1023, 1025, 2000, 4097, 10000, 32769, 65537, 70001}; int n = N[i % 9]; mc::heartbeat(); std::string s = prefix;
    switch (i / 9) {
      case 0: s += "(assert g (and"; for (int k = 0; k < n; k++) s += " " + leaves[k % nl]; s += "))"; break;
      case 1: s += "(define-formula g (or"; for (int k = 0; k < n; k++) s += " (>= x" + std::to_string(k) + " " + std::to_string(k) + ")"; s += ")) (assert h (not g))"; break;
      case 2: for (int k = 0; k < n; k++) s += "(define-formula f" + std::to_string(k) + " (always " + leaves[k % nl] + "))\n"; break;
      case 4: for (int k = 0; k < n; k++) s += std::string(k % 3 ? "(assert" : "(define-formula") + " f" + std::to_string(k) + " " + cons[k % 12] + ")"; break;
      case 5: s += "(assert g (and"; for (int k = 0; k < n; k++) s += std::string(" ") + cons[k % 12]; s += "))"; break;
      case 6: for (int k = 0; k < n; k++) s += "(assert f" + std::to_string(k) + " (" + (k % 2 ? "and" : "or") + " p q))"; break;
      default: for (int k = 0; k < n; k++) s += "(assert f" + std::to_string(n - k) + " (until p " + leaves[k % nl] + ")) ; " + std::to_string(k) + "\n"; break;
    }
    auto w = spec::parse(s); if (w.kind != spec::Result::ACCEPT) mc::fail("oracle: " + w.why); auto r = spec::run(s); if (!r.ok) mc::fail("rejected: " + r.err.substr(0, 300));
    if (spec::show(*r.s) != spec::want(w)) mc::fail("a specification of " + std::to_string(n) + " operands or commands (kind " + std::to_string(i / 9) + ") gives other formulas"); mc::state(mc::hstr(s)); mc::trace(); return true;
  }, "900 to 70001 operands or commands, simple and compound");
  mc::family("wide-and-deep", 7 * 60, [=](u64 i) {
    static const int sz[7] = {10, 50, 100, 300, 600, 890, 999}; int n = sz[i % 7]; u64 c = i / 7; std::string o = c % 10 < 4 ? un[c % 4] : bin[c % 10 - 4], leaf = leaves[c / 10 % 6]; std::string t = leaf;
    bool wide = c % 10 >= 4 && (o == "and" || o == "or");
    if (wide) { t = "(" + o; for (int k = 0; k < n; k++) t += " " + leaves[(c / 10 + k) % nl]; t += ")"; }
    else if (c % 10 < 4) for (int k = 0; k < n; k++) t = unary(o, t);
    else { if (o == "iff" || o == "xor") n = std::min(n, 10); for (int k = 0; k < n; k++) t = k % 2 ? "(" + o + " " + t + " p)" : "(" + o + " (< a " + std::to_string(k % 3) + ") " + t + ")"; }
    std::string text = prefix + "(assert g " + t + ")"; if (mc::verbose) mc::desc(spec::quote(text));
    auto w = spec::parse(text); if (w.kind != spec::Result::ACCEPT) mc::fail("oracle " + w.why);
    auto r = spec::run(text); if (!r.ok) mc::fail("rejected: " + r.err + " " + spec::quote(text));
    if (spec::show(*r.s) != spec::want(w)) mc::fail("wrong formula for " + spec::quote(text)); mc::state(mc::hstr(text)); mc::trace(); return true;
  }, "nesting (to exactly 1000 deep) and operand counts up to 999");
}
