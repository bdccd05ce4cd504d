// C22: text outside the language is rejected with an exception, whatever it is.
// Run on the plain build (all spaces) and, with smaller spaces, on an AddressSanitizer build of the parser.
#include "spec.hpp"
using mc::u64;
namespace {
using Terms = std::vector<std::string>;
#if defined(__SANITIZE_ADDRESS__)
constexpr bool asan = true;
#else
constexpr bool asan = false;
#endif
/// The text is given to the parser as a view of exactly its bytes, in a buffer that continues with
/// something that would change the verdict if it were read.
bool check(const std::string& text, const std::string& after = "") {
  if (mc::verbose) mc::desc(spec::quote(text));
  spec::Out o;
  if (after.empty() && asan) { std::unique_ptr<char[]> b(new char[text.size()]); std::copy(text.begin(), text.end(), b.get()); o = spec::run({b.get(), text.size()}); }
  else { std::string buf = text + after; o = spec::run({buf.data(), text.size()}); }
  spec::judge(text, o, false);
  if (!o.ok && o.err.empty()) mc::fail("rejected without a message: " + spec::quote(text));
  mc::state(mc::hstr(text)); mc::outcome(o.ok ? mc::hstr(spec::show(*o.s)) : mc::hstr(o.err)); mc::trace(); return true;
}
const Terms toks{"(", ")", "p", "assert", "define-formula", "<", "5", "not", "and", "true", "until", ";"};
const Terms body_toks{"(", ")", "p", "5", "<", "not", "and", "implies", "until", "true", "assert", ">=", "2.5", "q", "always", "xor", "or", "iff", "eventually", "false", "=", "-"};
const Terms edit_toks{"(", ")", "p", "q", "zz", "5", "1.5", "1.", "1e", ".5", "-5", "+", "<", "<=", ">", ">=", "=", "==", "<<", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until", "true", "false", "assert", "define-formula", "define", "\"", "[", "]", "{", ",", ":", "#", "'", "|", "&", "~", "!", "\\", std::string(1, '\0'), "\xff", "\xc3\xa9", "\x1b", "[0,5]", "[0 5]", "(not", "p)", "()", "(and)", "(not)", "(until p)", "(and p)", "(< x)", "(< 5)", "(< x y)", "(< 1 2)", "(< x 1 2)", "(not p q)", "(always p q)", "(until p q p)", "(implies p)", "(implies p q p)", "(xor p q p)", "(iff p)", "(eventually)", "(p q)", "(5)", "5x", "(define-formula r p)", "(assert r p)"};
const Terms specs{
  "( define-formula p ( > x 0 ) ) ( define-formula q ( <= 1.5 y ) ) ( assert g ( until p q ) )",
  "( define-formula p ( > x 0 ) ) ( assert g ( and p ( not p ) ( < x 5 ) true ) )",
  "( define-formula p ( or ( < x 1 ) ( >= y 2 ) false ) ) ( assert g ( always ( implies p ( eventually p ) ) ) )",
  "( assert g ( xor ( < x 1 ) ( iff true ( > 3 x ) ) ) )",
  "( define-formula p true ) ( define-formula q p ) ( assert p ( ( q ) ) ) ( assert q ( not ( always q ) ) )",
  "( assert h ( eventually ( until ( and ( < x 1 ) ( < y 1 ) ) ( or ( < x 2 ) ( not ( < y 2 ) ) ) ) ) )",
};
std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; std::string c; for (char ch : s) { if (ch == ' ') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
std::string join(const std::vector<std::string>& v) { std::string r; for (auto& t : v) { if (!r.empty()) r += ' '; r += t; } return r; }
u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
/// all sequences of exactly n tokens
void sequences(const std::string& name, const Terms& al, size_t na, int n, const std::string& pre, const std::string& post) {
  mc::family(name + "-" + std::to_string(n), ipow(na, n), [=](u64 i) {
    std::string t = pre; for (int k = 0; k < n; k++) { if (k || !pre.empty()) t += ' '; t += al[i % na]; if (al[i % na] == ";") t += "\n"; i /= na; } return check(t + post);
  }, "all sequences of " + std::to_string(n) + " tokens over " + std::to_string(na) + (pre.empty() ? "" : " inside " + pre + " ..." + post));
}
} // namespace
void mc_register() {
  bool th = mc::thorough();
  for (int n = 0; n <= (asan ? (th ? 5 : 4) : th ? 7 : 6); n++) sequences("tokens", toks, 12, n, "", "");
  for (int n = 0; n <= (asan ? (th ? 4 : 3) : th ? 5 : 4); n++) sequences("body", body_toks, 22, n, "(define-formula p (< x 1)) (define-formula q (> 2 x)) (assert g (", "))");
  for (int n = 0; n <= (asan ? (th ? 4 : 3) : th ? 5 : 4); n++) sequences("term", body_toks, 22, n, "(define-formula p (< x 1)) (define-formula q (> 2 x)) (assert g", ")");
  for (int n = 5; n <= (asan ? (th ? 5 : 4) : th ? 7 : 6); n++) sequences("body-narrow", body_toks, 10, n, "(define-formula p (< x 1)) (define-formula q (> 2 x)) (assert g (", "))");
  // single-token edits of valid specifications: delete, duplicate, swap, replace, insert
  struct Sp { std::vector<std::string> t; }; auto S = std::make_shared<std::vector<Sp>>(); size_t longest = 0;
  for (auto& s : specs) { S->push_back({split(s)}); longest = std::max(longest, S->back().t.size()); if (spec::parse(s).kind != spec::Result::ACCEPT) throw std::runtime_error("oracle rejects " + s); }
  u64 L = longest + 1, E = 3 + 2 * edit_toks.size();
  auto edit = [=](std::vector<std::string>& t, u64 at, u64 e) {
    if (e < 3) { if (at >= t.size()) return false; if (e == 0) t.erase(t.begin() + at); else if (e == 1) t.insert(t.begin() + at, std::string(t[at])); else { if (at + 1 >= t.size()) return false; std::swap(t[at], t[at + 1]); } return true; }
    e -= 3; const std::string& w = edit_toks[e / 2];
    if (e % 2) { if (at > t.size()) return false; t.insert(t.begin() + at, w); } else { if (at >= t.size() || t[at] == w) return false; t[at] = w; }
    return true;
  };
  mc::family("one-token-edit", S->size() * L * E, [=](u64 i) { auto t = (*S)[i % S->size()].t; i /= S->size(); if (!edit(t, i % L, i / L)) return false; return check(join(t)); }, "every single-token edit (delete, duplicate, swap, replace or insert any of " + std::to_string(edit_toks.size()) + " texts) of 6 specifications");
  if (!asan) {
    u64 ns = th ? S->size() : 2; // pairs of edits with the plain ones everywhere
    std::vector<u64> es{0, 1, 2}; for (const char* w : {"(", ")", "p", "5", "<", "not", "and", "until", "true"}) for (u64 k = 0; k < edit_toks.size(); k++) if (edit_toks[k] == w) { es.push_back(3 + 2 * k); es.push_back(4 + 2 * k); }
    u64 n = es.size();
    mc::family("two-token-edits", ns * L * L * n * n, [=](u64 i) {
      auto t = (*S)[th ? i % ns : (i % ns) * 3].t; i /= ns; u64 a = i % L, b = i / L % L; if (a > b) return false; i /= L * L;
      if (!edit(t, b, es[i % n]) || !edit(t, a, es[i / n])) return false; return check(join(t));
    }, "every pair of token edits out of " + std::to_string(n));
    mc::family("block-edits", S->size() * L * L * L, [=](u64 i) { // move a block
      auto t = (*S)[i % S->size()].t; i /= S->size(); u64 a = i % L, b = i / L % L, c = i / L / L; if (a >= b || b > t.size() || (c > a && c < b) || c > t.size()) return false;
      std::vector<std::string> blk(t.begin() + a, t.begin() + b); t.erase(t.begin() + a, t.begin() + b); t.insert(t.begin() + (c >= b ? c - (b - a) : c), blk.begin(), blk.end()); return check(join(t));
    }, "every block of tokens moved to every place");
    mc::family("block-copies", S->size() * L * L * L, [=](u64 i) {
      auto t = (*S)[i % S->size()].t; i /= S->size(); u64 a = i % L, b = i / L % L, c = i / L / L; if (a >= b || b > t.size() || c > t.size()) return false;
      std::vector<std::string> blk(t.begin() + a, t.begin() + b); t.insert(t.begin() + c, blk.begin(), blk.end()); return check(join(t));
    }, "every block of tokens copied to every place");
  }
  // characters: every prefix (as a view of the longer text), every position deleted / replaced / inserted
  auto X = std::make_shared<std::vector<std::string>>(); size_t lc = 0;
  for (auto& s : specs) { X->push_back(s + "\n"); std::string c; for (size_t i = 0; i < s.size(); i++) { if (s[i] == ' ' && (i == 0 || i + 1 >= s.size() || s[i - 1] == '(' || s[i + 1] == ')' || s[i + 1] == '(' || s[i - 1] == ')' || s[i - 1] == '<' || s[i - 1] == '>')) continue; c += s[i]; } X->push_back(c); }
  for (auto& s : *X) lc = std::max(lc, s.size());
  mc::family("prefix", X->size() * (lc + 1) * 2, [=](u64 i) { auto& s = (*X)[i % X->size()]; i /= X->size(); u64 n = i % (lc + 1); if (n > s.size()) return false; return check(s.substr(0, n), i / (lc + 1) ? s.substr(n) : ""); }, "every prefix of 12 texts, also as a view into the whole text");
  mc::family("suffix", X->size() * (lc + 1), [=](u64 i) { auto& s = (*X)[i % X->size()]; u64 n = i / X->size(); if (n > s.size()) return false; return check(s.substr(n)); }, "every suffix of 12 texts");
  mc::family("one-character-edit", X->size() * (lc + 1) * (1 + 2 * 256), [=](u64 i) {
    std::string s = (*X)[i % X->size()]; i /= X->size(); u64 at = i % (lc + 1), e = i / (lc + 1); if (asan && !th && e % 5) return false;
    if (e == 0) { if (at >= s.size()) return false; s.erase(at, 1); }
    else if (e <= 256) { if (at >= s.size() || s[at] == char(e - 1)) return false; s[at] = char(e - 1); }
    else { if (at > s.size()) return false; s.insert(at, 1, char(e - 257)); }
    return check(s);
  }, "every position of 12 texts: deleted, replaced by and preceded by each of the 256 byte values");
  const std::string cs(std::string("() \n;<>=.eE-+059apt_") + '\0');
  for (int n = 1; n <= (asan ? 3 : th ? 5 : 4); n++) mc::family("characters-" + std::to_string(n), ipow(cs.size(), n) * 3, [=](u64 i) {
    u64 w = i % 3; i /= 3; std::string t; for (int k = 0; k < n; k++) { t += cs[i % cs.size()]; i /= cs.size(); }
    return check(w == 0 ? t : w == 1 ? "(assert g (< x " + t + "))" : "(define-formula p true)(assert g (and p" + t + "p))");
  }, "all strings of " + std::to_string(n) + " characters over 21, alone and in two contexts");
  // nesting without limit: openers repeated n times, closed or not
  static const char* op[12] = {"(", "(not ", "(and true ", "(until (< x 1) ", "(assert a ", "(define-formula a ", "(implies true ", "; (", "(< x ", "(and (", "((assert ", "(or p "};
  static const u64 sz[10] = {1, 2, 10, 100, 999, 1001, 5000, 20000, 100000, 400000};
  mc::family("nesting", 12 * 10 * 4, [=](u64 i) {
    std::string o = op[i % 12]; u64 n = sz[i / 12 % 10], how = i / 120; if (asan && n > 20000) return false;
    std::string t = how >= 2 ? "(assert g " : ""; for (u64 k = 0; k < n; k++) t += o;
    if (how % 2) { t += "true"; u64 par = std::count(o.begin(), o.end(), '(') * n + (how >= 2); t.append(par, ')'); }
    return check(t);
  }, "12 openers repeated 1 to 400000 times, closed or not, inside a command or not");
  mc::family("closers", 40, [](u64 i) { std::string t = i % 2 ? "(assert g true" : "(assert g (not true"; t.append(i / 2, ')'); return check(t); }, "0 to 19 closing parentheses");
}
