// C28: the locale an application sets (per process, per thread, or for C++ streams) changes nothing.
#include "spec.hpp"
#include "alpha.hpp"
#include "bind.hpp"
#include "signal_tl/fmt.hpp"
#include <clocale>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <fstream>
#include <locale>
#include <sstream>
#include <unistd.h>
using mc::u64;
namespace stl = signal_tl;
using stl::ast::Expr;

namespace {
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
const char* loc[] = {"de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "tr_TR.UTF-8", "fa_IR.UTF-8", "de_CH.UTF-8", "en_US.UTF-8", "de_DE.ISO-8859-1", "hi_IN.UTF-8"};
constexpr u64 NL = sizeof loc / sizeof *loc;
const char* way[] = {"setlocale(LC_ALL)", "setlocale(LC_NUMERIC)", "setlocale(LC_CTYPE)", "uselocale for the thread", "std::locale::global", "std::locale::global with other punctuation"};
constexpr u64 NW = 6;
/// Sets a locale, and sets everything back to what it was.
struct Within {
  std::locale cxx; locale_t thread = nullptr, made = nullptr; bool ok = true;
  Within(u64 l, u64 w) : cxx(std::locale()) {
    switch (w) {
      case 0: ok = setlocale(LC_ALL, loc[l]); break;
      case 1: ok = setlocale(LC_NUMERIC, loc[l]); break;
      case 2: ok = setlocale(LC_CTYPE, loc[l]); break;
      case 3: made = newlocale(LC_ALL_MASK, loc[l], nullptr); ok = made; if (ok) thread = uselocale(made); break;
      case 4: try { std::locale::global(std::locale(loc[l])); } catch (const std::runtime_error&) { ok = false; } break;
      case 5: std::locale::global(std::locale(std::locale::classic(), new Punct)); break;
    }
  }
  ~Within() { if (made) { uselocale(thread); freelocale(made); } std::locale::global(cxx); setlocale(LC_ALL, "C"); }
};
template <class F> auto under(u64 l, u64 w, F f) { Within x(l, w); if (!x.ok) throw std::runtime_error(std::string("locale ") + loc[l] + " is not available"); return f(); }
std::string where(u64 l, u64 w) { return std::string(way[w]) + (w == 5 ? "" : std::string(" to ") + loc[l]); }

std::vector<std::string> texts() {
  std::vector<std::string> r;
  for (const char* n : {"0.5", "5.5", ".5", "5.", "1234567.875", "1000000", "123456789.5", "5.5e1", "5.5E-1", "1e3", "1.5e+2", "0.1", "007.25", "9007199254740993", "1e-300", "1.7976931348623157e308", "1e400", "123456789012345678901234567890.5", "0,5", "1.234,5", "1 000", "1'000", "5.5.5", "\xd9\xa5", "0\xd9\xab""5", "1\xe2\x80\xaf""000", "1\xc2\xa0""000", "1\xa0""000", "INF", "inf"})
    for (const char* f : {"(assert a (< x %))", "(define-formula p (>= % x)) (assert a (until p (not p)))"}) { std::string t = f; t.replace(t.find('%'), 1, n); r.push_back(t); }
  for (const char* t : {"(define-formula I (< i 1.5)) (assert a (and I (not I)))", "(define-formula if (< I 1.5)) (assert IF (implies if if))", "(assert a (iff (< x 1) (> \xc4\xb1 1)))", "(assert a (IFF (< x 1) (> y 1)))", "(assert a (< \xe4 1))", "(assert a (< x\xe4 1))", "(assert a\xa0(< x 1.5))", "(assert\xa0""a (< x 1.5))", "(assert\xc2\xa0""a (< x 1.5))", "; \xe4\xf6\n(assert a (< x 1.5))", "(assert a (always (eventually (until (< x 0.25) (or (> y 1.75) (xor true (>= z 2.5)))))))", "(define-formula p (< x .125)) (define-formula q (implies p (> y 3.))) (assert a (and p q (not q)))", "(assert a true)", "(assert a wahr)", "", "(", "(assert a (< x 1.5)", "(assert a b)"}) r.push_back(t);
  return r;
}
std::vector<std::function<std::string()>> prints() {
  std::vector<std::function<std::string()>> r; auto x = stl::Predicate("x"); 
  for (double v : {0.5, 1234567.875, 1e-9, 1e300, 123456789.0, -2.25, 0.1}) {
    std::vector<Expr> es{x < v, stl::And({x >= v, stl::Not(x <= v / 3), stl::Const(true)}), stl::Or({x > v, stl::Const(false)}), stl::Always(x > v, {0.5, 1234567.25}), stl::Eventually(x > v, {1000ull, 2000000ull}), stl::Until(x > v, stl::Always(x <= v), {0.125, INFINITY})};
    for (auto& e : es) {
      r.push_back([e] { std::ostringstream o; ::operator<<(o, e); return o.str(); });
      r.push_back([e] { return fmt::format("{}", e); });
      r.push_back([e] { std::ostringstream o; o.imbue(std::locale(std::locale::classic(), new Punct)); ::operator<<(o, e); return o.str(); });
    }
    auto s = std::make_shared<stl::signal::Signal>(std::vector<double>{v, -v, 1234567.5}, std::vector<double>{0.25, 1000.5, 1234567.75});
    r.push_back([s] { return fmt::format("{}", *s); }); r.push_back([s] { return fmt::format("{}", s->front()); });
  }
  return r;
}
std::vector<double> evaluated(size_t k) {
  auto x = stl::Predicate("x") > 0.25, y = stl::Predicate("y") <= 1.5;
  std::vector<Expr> es{stl::And({x, stl::Not(y)}), stl::Always(stl::Or({x, y}), {0.5, 1.5}), stl::Eventually(x), stl::Until(x, y), stl::Until(x, y, {1.0, 2.0}), stl::And({x, stl::Predicate("nosuch") > 1})};
  std::vector<double> r; try { stl::signal::Trace t; t["x"] = std::make_shared<stl::signal::Signal>(std::vector<double>{0.5, -1.25, 2}, std::vector<double>{0, 1.5, 3}); t["y"] = std::make_shared<stl::signal::Signal>(std::vector<double>{2.5, 0}, std::vector<double>{0, 3}); auto o = stl::compute_robustness(es[k], t); for (auto& s : *o) { r.push_back(s.time); r.push_back(s.value); r.push_back(s.derivative); } try { (void)t["x"]->at(7.5); } catch (const std::invalid_argument&) { r.push_back(1); } } catch (const std::exception& e) { r.push_back(-12345); } return r;
}
/// All of it, starting with any of the three kinds; one line each, in one order.
std::string everything(int first) {
  std::string part[3]; std::vector<spec::Out> parsed; std::vector<std::vector<double>> values; auto ts = texts();
  for (int k = 0; k < 3; k++) switch ((k + first) % 3) {
    case 0: for (auto& t : ts) parsed.push_back(spec::run(t)); break;
    case 1: for (auto& f : prints()) part[1] += "printing gives " + f() + "\n"; break;
    default: for (size_t q = 0; q < 6; q++) values.push_back(evaluated(q)); break;
  }
  setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); // as what was got is described with printf
  for (size_t k = 0; k < ts.size(); k++) part[0] += "parsing " + spec::quote(ts[k]) + " gives " + (parsed[k].ok ? spec::show(*parsed[k].s) : "an error") + "\n";
  for (auto& v : values) { part[2] += "evaluating gives"; for (double d : v) part[2] += " " + astr::dbl(d); part[2] += "\n"; }
  return part[0] + part[1] + part[2];
}
int child() {
  int first = 0, app = 0; sscanf(getenv("STLMC_CHILD"), "%d %d", &first, &app);
  try { if (app == 1) setlocale(LC_ALL, ""); else if (app == 2) std::locale::global(std::locale("")); } catch (const std::exception&) { return 5; } // no such locale
  std::string r = everything(first); for (size_t n = 0; n < r.size();) { ssize_t k = write(1, r.data() + n, r.size() - n); if (k <= 0) return 7; n += size_t(k); }
  return 0;
}
/// This executable as a program of its own, in an environment that names a locale.
std::pair<int, std::string> program(const char* var, const char* value, int first, int app) {
  std::vector<std::string> env{"STLMC_CHILD=" + std::to_string(first) + " " + std::to_string(app), std::string(var) + "=" + value};
  for (char** e = environ; *e; e++) { std::string s = *e; if (s.compare(0, 3, "LC_") && s.compare(0, 4, "LANG") && s.compare(0, 12, "STLMC_CHILD=")) env.push_back(s); }
  std::vector<char*> ev; for (auto& s : env) ev.push_back(s.data()); ev.push_back(nullptr);
  int fd[2]; if (pipe2(fd, O_CLOEXEC)) throw std::runtime_error("pipe"); static char self[4096]; if (!*self && readlink("/proc/self/exe", self, sizeof self - 1) < 0) throw std::runtime_error("readlink");
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fd[1], 1); char* argv[] = {self, nullptr}; pid_t pid;
  int e = posix_spawn(&pid, self, &fa, nullptr, argv, ev.data()); posix_spawn_file_actions_destroy(&fa); close(fd[1]); if (e) { close(fd[0]); throw std::runtime_error("spawn"); }
  std::pair<int, std::string> r; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) r.second.append(buf, size_t(n)); close(fd[0]); waitpid(pid, &r.first, 0); return r;
}
} // namespace
extern "C" int mc_child_main() { return child(); }

void mc_register() {
  auto ts = std::make_shared<std::vector<std::string>>(texts()); u64 nt = ts->size();
  mc::family("parse", nt * NL * NW * 2, [=](u64 i) {
    u64 file = i % 2, w = i / 2 % NW, l = i / 2 / NW % NL; const std::string& t = (*ts)[i / 2 / NW / NL]; if (w == 5 && l) return false;
    auto what = [&] { return spec::quote(t) + (file ? " in a file" : "") + " after " + where(l, w); }; if (mc::verbose) mc::desc(what());
    std::string path = mc::scratch() + "/c28-" + std::to_string(getpid()); if (file) { std::ofstream o(path, std::ios::binary); o << t; }
    auto go = [&] { return file ? spec::guarded([&] { return stl::parser::from_file(path); }) : spec::run(t); };
    auto base = go(); auto r = under(l, w, go); auto again = go(); mc::transition(3); if (file) unlink(path.c_str());
    if (base.ok != r.ok) mc::fail(what() + (r.ok ? " is accepted: " + spec::show(*r.s) + "\nand is rejected in the C locale: " + base.err : " is rejected: " + r.err + "\nand is accepted in the C locale: " + spec::show(*base.s)));
    if (base.ok != again.ok) mc::fail(what() + ": the locale has an effect after it was set back");
    if (base.ok && (spec::show(*r.s) != spec::show(*base.s) || spec::show(*again.s) != spec::show(*base.s))) mc::fail(what() + " gives\n  " + spec::show(*r.s) + "\nand in the C locale\n  " + spec::show(*base.s));
    spec::judge(t, r); // and both are what the reference parser says
    mc::state(mc::hstr(t, i)); mc::outcome(base.ok ? mc::hstr(spec::show(*base.s)) : 1); mc::trace(); return true;
  }, std::to_string(nt) + " texts (numerals in every notation, separators and digits of other locales, identifiers with i and I, bytes beyond ASCII) as string and file x 9 locales x 6 ways to set one");
  auto ps = std::make_shared<std::vector<std::function<std::string()>>>(prints()); u64 np = ps->size();
  mc::family("print", np * NL * NW, [=](u64 i) {
    u64 w = i % NW, l = i / NW % NL; auto& f = (*ps)[i / NW / NL]; if (w == 5 && l) return false;
    auto base = f(); auto what = [&] { return "printing " + base + " after " + where(l, w); }; if (mc::verbose) mc::desc(what());
    auto r = under(l, w, f), again = f(); mc::transition(3);
    if (r != base || again != base) mc::fail(what() + " gives\n  " + r);
    mc::state(i); mc::outcome(mc::hstr(base)); mc::trace(); return true;
  }, std::to_string(np) + " formulas, signals and printing routes x 9 locales x 6 ways");
  mc::family("evaluate", 6 * NL * NW, [=](u64 i) {
    u64 w = i % NW, l = i / NW % NL, k = i / NW / NL; if (w == 5 && l) return false;
    if (mc::verbose) mc::desc("evaluating formula " + std::to_string(k) + " after " + where(l, w));
    auto go = [&] { return evaluated(k); };
    auto base = go(), r = under(l, w, go); mc::transition(2); if (r != base) mc::fail("evaluating formula " + std::to_string(k) + " after " + where(l, w) + " gives another result");
    mc::state(i); mc::outcome(k); mc::trace(); return true;
  }, "6 formulas x 9 locales x 6 ways");
  static const char* const places[] = {"(assert a%(< x 1.5))", "(assert a (< x% 1.5))", "(assert a (< % 1.5))", "(assert a (and true % true))", "(define-formula p% true) (assert a p)", "(assert a (< x 1%5))", ";%\n(assert a true)"}; constexpr u64 NP = sizeof places / sizeof *places;
  mc::family("bytes", 255 * NP * NL * NW, [=](u64 i) {
    u64 w = i % NW, l = i / NW % NL; std::string t = places[i / NW / NL % NP]; char c = char(1 + i / NW / NL / NP); if (w == 5 && l) return false; t[t.find('%')] = c;
    auto what = [&] { return spec::quote(t) + " after " + where(l, w); }; if (mc::verbose) mc::desc(what());
    auto base = spec::run(t); auto r = under(l, w, [&] { return spec::run(t); }); mc::transition(2);
    if (base.ok != r.ok) mc::fail(what() + (r.ok ? " is accepted, and rejected in the C locale" : " is rejected, and accepted in the C locale"));
    if (base.ok && spec::show(*r.s) != spec::show(*base.s)) mc::fail(what() + " gives\n  " + spec::show(*r.s) + "\nand in the C locale\n  " + spec::show(*base.s));
    mc::state(mc::mix(i, 29)); mc::outcome(base.ok ? mc::hstr(spec::show(*base.s)) : 1); mc::trace(); return true;
  }, "every byte in " + std::to_string(NP) + " places x 9 locales x 6 ways");
  static const char* const var[] = {"LC_ALL", "LC_NUMERIC", "LC_CTYPE", "LANG"}; constexpr u64 NV = 4; auto base = std::make_shared<std::string>();
  mc::family("environment", NV * (NL + 3) * 3 * 3, [=](u64 i) {
    u64 v = i % NV, l = i / NV % (NL + 3), first = i / NV / (NL + 3) % 3, app = i / NV / (NL + 3) / 3; const char* value = l < NL ? loc[l] : l == NL ? "" : l == NL + 1 ? "no_SUCH.locale" : "C";
    static const char* const firsts[] = {"parsing", "printing", "evaluating"}; static const char* const apps[] = {"", ", which calls setlocale(LC_ALL, \"\")", ", which calls std::locale::global(std::locale(\"\"))"};
    auto what = [&] { return std::string("a program") + apps[app] + ", started with " + var[v] + "=" + value + ", that begins by " + firsts[first]; }; if (mc::verbose) mc::desc(what());
    if (base->empty()) *base = everything(0);
    auto r = program(var[v], value, int(first), int(app)); mc::transition(1); if (app == 2 && WIFEXITED(r.first) && WEXITSTATUS(r.first) == 5) return false;
    if (!WIFEXITED(r.first) || WEXITSTATUS(r.first)) mc::fail(what() + ", ends with " + (WIFSIGNALED(r.first) ? "signal " + std::to_string(WTERMSIG(r.first)) : "status " + std::to_string(WEXITSTATUS(r.first))));
    if (r.second != *base) { std::istringstream a(r.second), b(*base); std::string p, q; while (std::getline(a, p) && std::getline(b, q) && p == q) {} mc::fail(what() + ": " + p + "\nand in the C locale " + q); }
    mc::state(mc::mix(i, 28)); mc::outcome(mc::hstr(r.second)); mc::trace(); return true;
  }, "4 environment variables x 12 values (one without a locale) x 3 ways to begin x 3 kinds of program, each started on its own");
}
