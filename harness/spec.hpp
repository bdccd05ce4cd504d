// The specification language, as a reference: a lexer and recursive-descent parser written from the
// documented grammar, sharing nothing with the library's PEG rules.  A specification denotes lists of
// named terms; a term is turned into an expected formula through the library's public constructors
// (structure) and into a canonical meaning computed here (semantics).
#pragma once
#include "astr.hpp"
#include "signal_tl/parser.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <tao/pegtl.hpp>

namespace spec {
namespace stl = signal_tl;
namespace ast = signal_tl::ast;

// ---- terms ------------------------------------------------------------------------------------
struct T;
using Tp = std::shared_ptr<const T>;
/// op: true false id < <= > >= not and or implies iff xor always eventually until; comparisons keep name and value in canonical direction
struct T { std::string op, name; double c = 0; std::vector<Tp> k; };
inline Tp mk(std::string op, std::vector<Tp> k = {}) { auto t = std::make_shared<T>(); t->op = std::move(op); t->k = std::move(k); return t; }
inline Tp id(std::string n) { auto t = std::make_shared<T>(); t->op = "id"; t->name = std::move(n); return t; }
inline Tp cmp(std::string op, std::string n, double c) { auto t = std::make_shared<T>(); t->op = std::move(op); t->name = std::move(n); t->c = c; return t; }
inline std::string flip(const std::string& o) { return o == "<" ? ">" : o == "<=" ? ">=" : o == ">" ? "<" : "<="; }

struct Result {
  enum K { ACCEPT, REJECT, OPEN } kind = REJECT; // OPEN: the documented language does not settle it
  std::string why;
  std::vector<std::pair<std::string, Tp>> formulas, assertions; // identifiers already replaced by their definition
};

// ---- lexer ------------------------------------------------------------------------------------
struct Tok { enum K { LP, RP, CMP, NUM, WORD, DEF, BAD, END } k; std::string s; bool glued = false; }; // glued: a numeral directly followed by an identifier character
inline bool is_id0(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool is_dig(char c) { return c >= '0' && c <= '9'; }
inline bool is_idc(char c) { return is_id0(c) || is_dig(c); }
/// length of the longest numeral at s[i..], 0 if none; bad: an exponent letter without digits follows the mantissa
inline size_t numeral(const std::string& s, size_t i, bool& bad) {
  size_t j = i; bad = false;
  auto digs = [&](size_t& j) { size_t q = j; while (j < s.size() && is_dig(s[j])) j++; return j > q; };
  if (!digs(j)) return 0;
  size_t m = j;
  bool dot = false;
  if (j < s.size() && s[j] == '.') { size_t q = j + 1; dot = true; if (digs(q)) { m = j = q; } else j = j + 1; }
  if (j < s.size() && (s[j] == 'e' || s[j] == 'E')) {
    size_t q = j + 1; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++;
    if (digs(q)) return q - i;
    bad = true;
  }
  (void)dot;
  return m - i;
}
inline std::vector<Tok> lex(const std::string& s) {
  std::vector<Tok> r; size_t i = 0;
  while (true) {
    while (i < s.size()) {
      char c = s[i];
      if (c == ' ' || (c >= '\t' && c <= '\r')) i++;
      else if (c == ';') { while (i < s.size() && s[i] != '\n') i++; }
      else break;
    }
    if (i >= s.size()) { r.push_back({Tok::END, ""}); return r; }
    char c = s[i];
    if (c == '(') { r.push_back({Tok::LP, "("}); i++; }
    else if (c == ')') { r.push_back({Tok::RP, ")"}); i++; }
    else if (c == '<' || c == '>') {
      std::string o(1, c); i++;
      if (i < s.size() && s[i] == '=') { o += '='; i++; }
      else if (i < s.size() && s[i] == c) { r.push_back({Tok::BAD, o}); return r; }
      r.push_back({Tok::CMP, o});
    }
    else if (is_dig(c)) {
      bool bad; size_t n = numeral(s, i, bad);
      if (bad) { r.push_back({Tok::BAD, "exponent"}); return r; }
      Tok t{Tok::NUM, s.substr(i, n)}; i += n; t.glued = i < s.size() && is_idc(s[i]); r.push_back(t);
    }
    else if (is_id0(c)) {
      static const std::string df = "define-formula";
      if (s.compare(i, df.size(), df) == 0 && (i + df.size() >= s.size() || !is_idc(s[i + df.size()]))) { r.push_back({Tok::DEF, df}); i += df.size(); continue; }
      size_t j = i; while (j < s.size() && is_idc(s[j])) j++;
      r.push_back({Tok::WORD, s.substr(i, j - i)}); i = j;
    }
    else { r.push_back({Tok::BAD, std::string(1, c)}); return r; }
  }
}

// ---- parser -----------------------------------------------------------------------------------
inline bool keyword(const std::string& w) {
  static const std::set<std::string> k{"true", "false", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until", "assert"};
  return k.count(w) > 0;
}
struct Parser {
  std::vector<Tok> t; size_t p = 0; bool open = false;
  std::map<std::string, Tp> fs, as; Result r; int depth = 0;
  struct Bad { std::string why; }; struct Deep {}; // deeper than any limit the language promises: left open, only crashes count
  [[noreturn]] void bad(const std::string& w) { throw Bad{w}; }
  const Tok& cur() const { return t[p]; }
  void rp() { if (cur().k != Tok::RP) bad("')' expected"); p++; }
  std::string ident() { if (cur().k != Tok::WORD) bad("identifier expected"); if (keyword(cur().s)) open = true; return t[p++].s; }
  double num() {
    if (cur().k != Tok::NUM) bad("numeral expected");
    if (cur().glued) open = true;
    const std::string& s = cur().s; errno = 0; double v = strtod(s.c_str(), nullptr);
    if (std::isinf(v)) bad("numeral out of range");
    if (s.find_first_of(".eE") == std::string::npos) { if (v > 9.2e18) open = true; }
    else if (errno == ERANGE || (v != 0 && v < 2.3e-308)) open = true;
    p++; return v;
  }
  Tp term() {
    if (depth >= 1000) open = true; // terms nested up to 1000 deep are promised to parse
    if (cur().k == Tok::LP) {
      p++; if (++depth > 1500) throw Deep{}; Tp e = expr(); depth--; rp(); return e;
    }
    if (cur().k != Tok::WORD) bad("term expected");
    std::string w = cur().s; p++;
    if (w == "true" || w == "false") return mk(w);
    if (keyword(w)) open = true;
    auto it = fs.find(w); if (it == fs.end()) bad("undefined formula " + w);
    return it->second;
  }
  Tp expr() {
    if (cur().k == Tok::CMP) {
      std::string o = cur().s; p++;
      if (cur().k == Tok::NUM) { double v = num(); return cmp(flip(o), ident(), v); }
      std::string n = ident(); return cmp(o, n, num());
    }
    if (cur().k == Tok::WORD && keyword(cur().s) && cur().s != "true" && cur().s != "false" && cur().s != "assert") {
      std::string w = cur().s; p++; 
      size_t n = 0, want = (w == "not" || w == "always" || w == "eventually") ? 1 : (w == "and" || w == "or") ? 0 : 2;
      std::vector<Tp> k;
      while (cur().k != Tok::RP && (want == 0 || n < want)) { k.push_back(term()); n++; }
      if (want ? n != want : n < 2) bad("operand count");
      return mk(w, k);
    }
    return term();
  }
  void command() {
    if (cur().k != Tok::LP) bad("command expected");
    p++;
    bool def = cur().k == Tok::DEF;
    if (!def && !(cur().k == Tok::WORD && cur().s == "assert")) bad("unknown command");
    p++;
    std::string n = ident(); Tp e = term(); 
    auto& m = def ? fs : as;
    if (m.count(n)) bad("redefinition of " + n);
    rp(); m[n] = e;
  }
  Result run(const std::string& s) {
    t = lex(s);
    try { while (cur().k != Tok::END) command(); r.kind = open ? Result::OPEN : Result::ACCEPT; }
    catch (const Bad& b) { r.kind = Result::REJECT; r.why = b.why; }
    catch (const Deep&) { r.kind = Result::OPEN; }
    r.formulas.assign(fs.begin(), fs.end()); r.assertions.assign(as.begin(), as.end());
    return r;
  }
};
inline Result parse(const std::string& s) { return Parser{}.run(s); }

// ---- expected formulas and meanings -------------------------------------------------------------
inline ast::Expr expr(const Tp& t) {
  auto k = [&](size_t i) { return expr(t->k[i]); };
  auto all = [&] { std::vector<ast::Expr> v; for (auto& c : t->k) v.push_back(expr(c)); return v; };
  const std::string& o = t->op;
  if (o == "true") return stl::Const(true);
  if (o == "false") return stl::Const(false);
  if (o == "<") return stl::Predicate(t->name) < t->c;
  if (o == "<=") return stl::Predicate(t->name) <= t->c;
  if (o == ">") return stl::Predicate(t->name) > t->c;
  if (o == ">=") return stl::Predicate(t->name) >= t->c;
  if (o == "not") return stl::Not(k(0));
  if (o == "and") return stl::And(all());
  if (o == "or") return stl::Or(all());
  if (o == "implies") return stl::Implies(k(0), k(1));
  if (o == "iff") return stl::Iff(k(0), k(1));
  if (o == "xor") return stl::Xor(k(0), k(1));
  if (o == "always") return stl::Always(k(0));
  if (o == "eventually") return stl::Eventually(k(0));
  if (o == "until") return stl::Until(k(0), k(1));
  std::abort();
}
/// Canonical meaning: Boolean function of the essential atoms; temporal subformulas are atoms named by
/// the canonical meaning of their operands.
struct Bf { std::vector<std::string> a; std::vector<bool> t; };
inline Bf atom(std::string s) { return {{std::move(s)}, {false, true}}; }
inline Bf konst(bool v) { return {{}, {v}}; }
inline Bf combine(const std::vector<Bf>& xs, const std::function<bool(const std::vector<bool>&)>& f) {
  std::set<std::string> un; for (auto& x : xs) un.insert(x.a.begin(), x.a.end());
  Bf r; r.a.assign(un.begin(), un.end()); size_t n = r.a.size(); if (n > 16) throw std::runtime_error("oracle: too many atoms");
  r.t.resize(size_t(1) << n);
  std::vector<std::vector<size_t>> pos; for (auto& x : xs) { std::vector<size_t> q; for (auto& s : x.a) q.push_back(std::lower_bound(r.a.begin(), r.a.end(), s) - r.a.begin()); pos.push_back(q); }
  std::vector<bool> in(xs.size());
  for (size_t w = 0; w < r.t.size(); w++) {
    for (size_t i = 0; i < xs.size(); i++) { size_t x = 0; for (size_t j = 0; j < pos[i].size(); j++) x |= (w >> pos[i][j] & 1) << j; in[i] = xs[i].t[x]; }
    r.t[w] = f(in);
  }
  for (size_t i = 0; i < r.a.size();) { // drop atoms the function does not depend on
    bool dep = false; for (size_t w = 0; w < r.t.size() && !dep; w++) dep = r.t[w] != r.t[w ^ (size_t(1) << i)];
    if (dep) { i++; continue; }
    std::vector<bool> u; for (size_t w = 0; w < r.t.size(); w++) if (!(w >> i & 1)) u.push_back(r.t[w]);
    r.t = u; r.a.erase(r.a.begin() + i);
  }
  return r;
}
inline std::string text(const Bf& b) { std::string r = "{"; for (auto& s : b.a) r += s + " "; r += "|"; for (bool v : b.t) r += v ? '1' : '0'; return r + "}"; }
inline std::string patom(const std::string& op, const std::string& n, double c) { return "(" + op + " " + n + " " + astr::dbl(c) + ")"; }
inline Bf meaning(const Tp& t) {
  std::vector<Bf> k; for (auto& c : t->k) k.push_back(meaning(c));
  const std::string& o = t->op; using V = const std::vector<bool>&;
  if (o == "true" || o == "false") return konst(o == "true");
  if (o[0] == '<' || o[0] == '>') return atom(patom(o, t->name, t->c));
  if (o == "not") return combine(k, [](V v) { return !v[0]; });
  if (o == "and") return combine(k, [](V v) { return std::find(v.begin(), v.end(), false) == v.end(); });
  if (o == "or") return combine(k, [](V v) { return std::find(v.begin(), v.end(), true) != v.end(); });
  if (o == "implies") return combine(k, [](V v) { return !v[0] || v[1]; });
  if (o == "iff") return combine(k, [](V v) { return v[0] == v[1]; });
  if (o == "xor") return combine(k, [](V v) { return v[0] != v[1]; });
  std::string s = "(" + o; for (auto& b : k) s += " " + text(b); return atom(s + ")");
}
struct M {
  Bf go(const ast::Expr& e) const { return std::visit(*this, e); }
  Bf operator()(const ast::Const& c) const { return konst(c.value); }
  Bf operator()(const ast::Predicate& p) const { return atom(patom(astr::cmp(p.op), p.name, p.rhs)); }
  Bf operator()(const ast::NotPtr& p) const { return combine({go(p->arg)}, [](const std::vector<bool>& v) { return !v[0]; }); }
  Bf operator()(const ast::AndPtr& p) const { std::vector<Bf> k; for (auto& a : p->args) k.push_back(go(a)); return combine(k, [](const std::vector<bool>& v) { return std::find(v.begin(), v.end(), false) == v.end(); }); }
  Bf operator()(const ast::OrPtr& p) const { std::vector<Bf> k; for (auto& a : p->args) k.push_back(go(a)); return combine(k, [](const std::vector<bool>& v) { return std::find(v.begin(), v.end(), true) != v.end(); }); }
  Bf operator()(const ast::AlwaysPtr& p) const { return atom("(always" + astr::iv(p->interval) + " " + text(go(p->arg)) + ")"); }
  Bf operator()(const ast::EventuallyPtr& p) const { return atom("(eventually" + astr::iv(p->interval) + " " + text(go(p->arg)) + ")"); }
  Bf operator()(const ast::UntilPtr& p) const { return atom("(until" + astr::iv(p->interval) + " " + text(go(p->args.first)) + " " + text(go(p->args.second)) + ")"); }
};

// ---- the library ------------------------------------------------------------------------------
struct Out { bool ok = false; bool parse_error = false; std::string err; std::unique_ptr<stl::Specification> s; };
template <typename F> Out guarded(F&& f) {
  Out o;
  try { o.s = f(); o.ok = true; if (!o.s) mc::fail("null specification"); }
  catch (const mc::Violation&) { throw; }
  catch (const tao::pegtl::parse_error& e) { o.parse_error = true; o.err = e.what(); }
  catch (const std::exception& e) { o.err = e.what(); }
  catch (...) { o.err = "an exception of another type"; }
  mc::transition(); return o;
}
inline Out run(std::string_view s) { return guarded([&] { return stl::parser::from_string(s); }); }
inline std::string show(const std::map<std::string, ast::Expr>& m) { std::string r; for (auto& p : m) r += p.first + " = " + astr::str(p.second) + "; "; return r; }
inline std::string show(const stl::Specification& s) { return "formulas {" + show(s.formulas) + "} assertions {" + show(s.assertions) + "}"; }
inline std::string want(const std::vector<std::pair<std::string, Tp>>& v) { std::string r; for (auto& p : v) r += p.first + " = " + astr::str(expr(p.second)) + "; "; return r; }
inline std::string want(const Result& r) { return "formulas {" + want(r.formulas) + "} assertions {" + want(r.assertions) + "}"; }
inline std::string quote(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; } else r += char(c); } return (r.size() > 700 ? r.substr(0, 500) + "... (" + std::to_string(s.size()) + " bytes)" : r) + "\""; }

/// An accepted text must denote exactly the expected definitions.
inline void exact(const std::string& text, const Result& w, const Out& o) {
  if (!o.ok) mc::fail("the specification " + quote(text) + " is rejected: " + o.err);
  std::string g = show(*o.s), e = want(w);
  if (g != e) mc::fail("the specification " + quote(text) + " gives\n  " + g + "\ninstead of\n  " + e);
  auto sem = [&](const std::map<std::string, ast::Expr>& m, const std::vector<std::pair<std::string, Tp>>& v) {
    size_t i = 0; for (auto& p : m) { std::string a = spec::text(M{}.go(p.second)), b = spec::text(meaning(v[i].second)); if (a != b) mc::fail("in " + quote(text) + " " + p.first + " means " + a + " instead of " + b); i++; }
  };
  sem(o.s->formulas, w.formulas); sem(o.s->assertions, w.assertions);
}
/// Full judgement.
inline void judge(const std::string& text, const Out& o, bool check_accept = true) {
  Result w = parse(text);
  if (w.kind == Result::REJECT) { if (o.ok) mc::fail("the text " + quote(text) + " is not a specification (" + w.why + ") and is accepted as " + show(*o.s)); }
  else if (w.kind == Result::ACCEPT && check_accept) exact(text, w, o);
  mc::info(w.kind == Result::REJECT ? "texts outside the language" : w.kind == Result::ACCEPT ? "texts of the language" : "texts the documentation leaves open", 1);
}
} // namespace spec
