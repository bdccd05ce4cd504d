// C25: numerals.
#include "spec.hpp"
using mc::u64;
namespace {
u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
struct Num { bool is = false, must_ok = false, must_fail = false; double v = 0; };
Num judge_numeral(const std::string& s) {
  Num r; bool bad = false; size_t n = spec::numeral(s, 0, bad); r.is = n && n == s.size() && !bad; if (!r.is) return r;
  errno = 0; r.v = strtod(s.c_str(), nullptr); bool integer = s.find_first_of(".eE") == std::string::npos;
  bool zero = true; for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') zero = false; }
  r.must_fail = std::isinf(r.v);
  // representable: a normal double or zero.  Below that, or beyond 2^63 for an integer, an error is allowed too, another value is not.
  r.must_ok = !r.must_fail && (zero || std::fabs(r.v) >= std::numeric_limits<double>::min()) && !(integer && r.v >= 9.2e18);
  return r;
}
const char* ops[4] = {"<", "<=", ">", ">="};
bool check(const std::string& s, u64 how) { // how: position and comparison
  bool first = how & 1; std::string o = ops[how / 2 % 4];
  std::string text = first ? "(assert a (" + o + " " + s + " x))" : "(assert a (" + o + " x " + s + "))";
  if (mc::verbose) mc::desc(spec::quote(text));
  Num n = judge_numeral(s); auto r = spec::run(text);
  if (!n.is) { auto w = spec::parse(text); if (w.kind == spec::Result::REJECT && r.ok) mc::fail(spec::quote(s) + " is not a numeral and is accepted: " + spec::show(*r.s)); mc::info("not numerals", 1); }
  else if (!r.ok) { if (n.must_ok) mc::fail("the numeral " + spec::quote(s) + " is rejected: " + r.err); mc::info("numerals out of range", 1); }
  else {
    if (r.s->assertions.size() != 1 || !std::holds_alternative<signal_tl::ast::Predicate>(r.s->assertions.at("a"))) mc::fail(spec::quote(text) + " gives " + spec::show(*r.s));
    auto& p = std::get<signal_tl::ast::Predicate>(r.s->assertions.at("a")); std::string w = first ? spec::flip(o) : o;
    if (n.must_fail) mc::fail("the numeral " + spec::quote(s) + " is out of range and is accepted as " + astr::dbl(p.rhs));
    if (!(p.rhs == n.v)) mc::fail("the numeral " + spec::quote(s) + " denotes " + ref::num(p.rhs) + " instead of " + ref::num(n.v) + " in " + text);
    if (p.name != "x" || astr::cmp(p.op) != w) mc::fail(text + " gives " + spec::show(*r.s));
    mc::outcome(mc::hstr(astr::dbl(p.rhs))); mc::info("numerals with their exact value", 1);
  }
  mc::state(mc::hstr(s, how)); mc::trace(); return true;
}
} // namespace
void mc_register() {
  bool th = mc::thorough();
  auto strings = [&](const std::string& name, const std::string& al, int n) {
    for (int k = 0; k <= n; k++) mc::family(name + "-" + std::to_string(k), ipow(al.size(), k) * 2, [=](u64 i) { u64 h = i % 2; i /= 2; std::string s; for (int j = 0; j < k; j++) { s += al[i % al.size()]; i /= al.size(); } return check(s, h); }, "all strings of " + std::to_string(k) + " characters over '" + al + "', both positions");
  };
  strings("shape", "019.eE+-", th ? 8 : 6);
  strings("digits", "0123456789.", th ? 7 : 5);
  strings("letters", "05.eExXfFlnai_,'\"", th ? 5 : 4);
  // every integer part x fraction x exponent of the lists
  std::vector<std::string> ip{"0", "1", "7", "00", "010", "9007199254740993", "4503599627370497", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "2147483648", "4294967296", "0" + std::string(400, '0') + "3", "1" + std::string(308, '0'), "1" + std::string(309, '0'), "17976931348623157" + std::string(292, '0'), "17976931348623159" + std::string(292, '0'), "36028797018963969", "72057594037927937"};
  std::vector<std::string> fp{"", ".", ".0", ".5", ".1", ".25", ".3", ".0000000000000001110223024625156541", ".4999999999999999444888487687421729788184165954589843750", ".49999999999999997224", ".500000000000000166533453693773481063544750213623046875", "." + std::string(330, '0') + "1", "." + std::string(350, '9'), ".2225073858507201", ".17976931348623158", ".17976931348623159", ".7"};
  std::vector<std::string> ep{"", "e0", "E0", "e1", "e+1", "e-1", "E+05", "e-05", "e10", "e-10", "e22", "e23", "e-22", "e-23", "e100", "e-100", "e307", "e308", "e309", "e-307", "e-308", "e-309", "e-323", "e-324", "e-325", "e-330", "e400", "e-400", "e99999", "e-99999", "e00000000000001", "e4294967297", "e-4294967297", "e18446744073709551617", "e", "e+", "e-", "E+-1", "e1.5", "ee1"};
  auto A = std::make_shared<std::vector<std::string>>(ip), B = std::make_shared<std::vector<std::string>>(fp), C = std::make_shared<std::vector<std::string>>(ep);
  u64 a = ip.size(), b = fp.size(), c = ep.size();
  mc::family("parts", a * b * c * 8, [=](u64 i) { u64 h = i % 8; i /= 8; return check((*A)[i % a] + (*B)[i / a % b] + (*C)[i / a / b], h); }, "20 integer parts x 17 fractions x 40 exponents x 4 comparisons x 2 positions");
  mc::family("exponents", 700 * 2 * 6 * 2, [=](u64 i) { static const char* m[6] = {"1", "9.9999999999999999", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "123.456"}; u64 h = i % 2; i /= 2; u64 k = i % 6; i /= 6; bool neg = i % 2; u64 x = i / 2; return check(std::string(m[k]) + (neg ? "e-" : "e") + std::to_string(x), h); }, "6 mantissas x every exponent from -699 to 699");
  mc::family("integers", th ? 4000000 : 400000, [=](u64 i) { return check(std::to_string(i), i % 8); }, th ? "every integer below 4000000" : "every integer below 400000");
  mc::family("powers", 64 * 5 * 2, [=](u64 i) { u64 h = i % 2; i /= 2; u64 p = u64(1) << (i % 64); return check(std::to_string(p + i / 64 - 2), h); }, "every integer within 2 of a power of two up to 2^63");
  mc::family("length", 1200 * 4, [=](u64 i) { u64 n = i / 4; switch (i % 4) { case 0: return check(std::string(n + 1, '0') + "5", 0); case 1: return check("0." + std::string(n, '3') + "1", 1); case 2: return check(std::string(n + 1, '7'), 0); } return check("1." + std::string(n, '0') + "1e" + std::to_string(n + 1), 1); }, "numerals of up to 1200 characters");
  // surroundings: what follows or precedes the numeral
  std::vector<std::string> nu{"5", "2.5", "1e3", "1.5E-2", "007"}, af{")", " )", "\n)", ";c\n)", ";5\n)", "\t)", "\r\n)", " 6)", ".)", ".5)", "e)", "e5)", "-1)", "+1)", "x)", "()", "(", ";)", ",)", "f)", "L)", "u)", "%)", "'0)", " e5)", " .5)", " -5)"};
  auto N = std::make_shared<std::vector<std::string>>(nu), F = std::make_shared<std::vector<std::string>>(af);
  mc::family("surroundings", nu.size() * af.size() * 4, [=](u64 i) {
    std::string text = std::string("(assert a (") + ops[i % 4] + " x " + (*N)[i / 4 % N->size()] + (*F)[i / 4 / N->size()] + ")"; if (mc::verbose) mc::desc(spec::quote(text));
    spec::judge(text, spec::run(text)); mc::state(mc::hstr(text)); mc::trace(); return true;
  }, "5 numerals x 27 continuations x 4 comparisons");
  mc::family("between", 8 * 8 * 8 * 4, [=](u64 i) { // several numerals in one specification: each keeps its own value
    static const char* v[8] = {"0", "1", "2.5", "1e2", "1e-2", "100", "3.25E+1", "9007199254740993"}; std::string a = v[i % 8], b = v[i / 8 % 8], c = v[i / 64 % 8]; u64 k = i / 512;
    std::string text = k == 0 ? "(assert a (and (< x " + a + ") (> y " + b + ") (<= " + c + " x)))" : k == 1 ? "(define-formula p (< " + a + " x)) (define-formula q (until p (> " + b + " x))) (assert a (or q (< x " + c + ")))" : k == 2 ? "(assert a (< " + a + " x)) (assert b (< x " + b + ")) (assert c (>= " + c + " x))" : "(assert a (implies (always (< x " + a + ")) (xor (< " + b + " y) (iff true (> z " + c + ")))))";
    if (mc::verbose) mc::desc(text); spec::judge(text, spec::run(text)); mc::state(mc::hstr(text)); mc::trace(); return true;
  }, "three numerals in one specification, 4 shapes");
}
