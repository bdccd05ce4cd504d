// C30: objects live as long as they are held.  Every operation that makes objects runs in every phase of a
// program (static initialisation, main, a thread), what it made is used in every later phase (also after
// the thread that made it has ended) and dropped in every phase (main, a thread, static destruction).
// Every combination is a program of its own: this executable, started with a plan.
#include "astr.hpp"
#include "bind.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/parser.hpp"
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using mc::u64;
namespace stl = signal_tl;
using stl::ast::Expr;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;
using stl::signal::Trace;

namespace {
std::string show(const Signal& s) { std::string r = std::to_string(s.size()) + ":"; for (auto it = s.begin(); it != s.end(); ++it) r += "(" + astr::dbl(it->time) + "," + astr::dbl(it->value) + "," + astr::dbl(it->derivative) + ")"; return r; }
std::string show(const SignalPtr& s) { return s ? show(*s) : "null"; }
struct Box { std::vector<Expr> f; std::vector<SignalPtr> s; Trace tr; std::unique_ptr<stl::Specification> sp; std::exception_ptr ex; std::string text; };
template <class F> std::exception_ptr caught(F f) { try { f(); } catch (...) { return std::current_exception(); } return nullptr; }
struct Make { const char* name; void (*f)(Box&); };
struct Use { const char* name; std::string (*f)(Box&); };
Trace trace() { Trace t; t["x"] = std::make_shared<Signal>(std::vector<double>{1, -1, -1, 0.5}, std::vector<double>{0, 1, 2, 3}); t["y"] = std::make_shared<Signal>(std::vector<double>{0, 1, 0.25}, std::vector<double>{0.5, 1.5, 3}); t["a_signal_with_a_long_name"] = t["x"]; return t; }
const char* const spec_text = "(define-formula a_formula_with_a_long_name (and (< 0 a_signal_with_a_long_name) (not (<= y 5.5e1)))) ; comment\n(define-formula p (< x 1))(define-formula e (iff p (xor p true)))"
                              "(assert f (until a_formula_with_a_long_name (or p true (eventually (always e))))) (assert an_assertion_with_a_long_name (implies e (> y 2.5)))";
// no dynamic initialisation here: these tables are needed before it
const Make makes[] = {
  {"nothing", [](Box&) {}},
  {"constants", [](Box& b) { b.f = {stl::Const(true), stl::Const(false), ~Expr(stl::Const(true))}; }},
  {"predicates", [](Box& b) { b.f = {stl::Predicate("x") >= 0, stl::Predicate("y") < 0.5, stl::Predicate("a_signal_with_a_long_name") > 1, stl::Predicate("x") <= -2}; }},
  {"and, or, not", [](Box& b) { auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5; auto c = stl::And({x, y}); b.f = {c, stl::Or({c, stl::Not(y), stl::Const(true)}), stl::Not(c), c & x, c | c, x | c, ~(c & c)}; }},
  {"implies, xor, iff", [](Box& b) { auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5; b.f = {stl::Implies(x, y), stl::Xor(x, y), stl::Iff(x, stl::Xor(y, x)), Expr(x) >> Expr(y)}; }},
  {"always, eventually", [](Box& b) { auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5; b.f = {stl::Always(x), stl::Eventually(stl::Always(y)), stl::Always(x, {0.5, 1.5}), stl::Eventually(stl::Always(x, {0.0, 0.5}), {1ull, 2ull}), stl::Always(y, {0.5, INFINITY})}; }},
  {"until", [](Box& b) { auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5; b.f = {stl::Until(x, y), stl::Until(stl::Until(y, x), stl::Not(x)), stl::Until(x, y, {0.0, INFINITY})}; }},
  {"shared subformulas", [](Box& b) { Expr e = stl::Predicate("x") >= 0; for (int k = 0; k < 5; k++) { e = k % 2 ? stl::Until(e, e) : stl::Or({e, stl::Not(e)}); b.f.push_back(e); } }},
  {"signals from lists", [](Box& b) { b.s = {std::make_shared<Signal>(std::vector<double>{1, 2, 4, 4, 5}, std::vector<double>{0, 1, 2, 3.5, 4}), std::make_shared<Signal>(std::vector<Sample>{{0, 1}, {1, 3}, {2.5, 3}}), std::make_shared<Signal>()}; }},
  {"appended and copied signals", [](Box& b) { auto s = std::make_shared<Signal>(); for (int k = 0; k < 40; k++) s->push_back(k * 0.25, k % 7); auto c = std::make_shared<Signal>(*s); c->push_back(Sample{20, 1}); b.s = {s, c}; }},
  {"derived signals", [](Box& b) { auto t = trace(); auto p = stl::signal::synchronize(t["x"], t["y"]); b.s = {t["x"]->simplify(), t["x"]->resize(-1, 4, 9), t["y"]->shift(0.5), t["y"]->resize_shift(0.75, 2, 3, -0.75), std::get<0>(p), std::get<1>(p)}; }},
  {"a trace", [](Box& b) { b.tr = trace(); }},
  {"results", [](Box& b) { auto t = trace(); auto x = stl::Predicate("x") >= 0, y = stl::Predicate("y") < 0.5; for (auto& e : {Expr(x), stl::And({x, y}), stl::Or({x, stl::Not(y), x}), stl::Always(x), stl::Eventually(y, {0.5, 1.0}), stl::Until(x, y), Expr(stl::Const(true)), stl::Not(stl::Until(y, stl::Always(x)))}) b.s.push_back(stl::compute_robustness(e, t)); }},
  {"a specification", [](Box& b) { b.sp = stl::parser::from_string(spec_text); }},
  {"a specification from a file", [](Box& b) { b.sp = stl::parser::from_file(std::string(getenv("STLMC_FILE"))); }},
  {"formulas of a specification", [](Box& b) { auto s = stl::parser::from_string(spec_text); for (auto& p : s->formulas) b.f.push_back(p.second); for (auto& p : s->assertions) b.f.push_back(p.second); }},
  {"a syntax error", [](Box& b) { b.ex = caught([] { (void)stl::parser::from_string("(define-formula f (and x"); }); }},
  {"an undefined name", [](Box& b) { b.ex = caught([] { (void)stl::parser::from_string("(assert a (until f true))"); }); }},
  {"a rejected numeral", [](Box& b) { b.ex = caught([] { (void)stl::parser::from_string("(assert a (< x 1e400))"); }); }},
  {"a missing signal", [](Box& b) { b.ex = caught([] { (void)stl::compute_robustness(stl::Predicate("nosuch") > 1, trace()); }); }},
  {"an unsupported until", [](Box& b) { b.ex = caught([] { (void)stl::compute_robustness(stl::Until(stl::Predicate("x") > 1, stl::Predicate("y") > 1, {1.0, 2.0}), trace()); }); }},
  {"a rejected append", [](Box& b) { b.ex = caught([] { auto t = trace(); t["x"]->push_back(1, 1); }); }},
  {"a rejected construction", [](Box& b) { b.ex = caught([] { Signal s(std::vector<double>{1, 2}, std::vector<double>{0}); }); }},
  {"texts", [](Box& b) { auto x = stl::Predicate("x") >= 0.5; std::ostringstream o; ::operator<<(o, stl::Until(x, stl::Always(x, {0.5, 2.0}))); b.text = o.str() + fmt::format("{} {}", stl::And({x, stl::Const(true)}), *trace()["x"]); }},
  {"everything", [](Box& b) { auto t = trace(); b.tr = t; b.sp = stl::parser::from_string(spec_text); b.f = {b.sp->assertions.begin()->second, stl::Always(b.sp->formulas.begin()->second, {0.5, 1.0})}; b.s = {stl::compute_robustness(b.f[0], t), t["y"]}; b.ex = caught([] { (void)stl::parser::from_string("(assert"); }); b.text = fmt::format("{}", b.f[0]); }},
};
std::string guard(std::string (*f)(Box&), Box& b) { try { return f(b); } catch (const std::exception& e) { return std::string("<") + typeid(e).name() + " " + e.what() + ">"; } }
const Use uses[] = {
  {"read", [](Box& b) { std::string r = b.text; for (auto& e : b.f) r += astr::str(e) + ";"; for (auto& s : b.s) r += show(s) + ";"; for (auto& p : b.tr) r += p.first + show(p.second); if (b.sp) { for (auto& p : b.sp->formulas) r += p.first + astr::str(p.second); for (auto& p : b.sp->assertions) r += p.first + astr::str(p.second); } if (b.ex) try { std::rethrow_exception(b.ex); } catch (const std::exception& e) { r += e.what(); } return r; }},
  {"evaluate", [](Box& b) { auto t = trace(); std::string r; for (auto& e : b.f) r += show(stl::compute_robustness(e, b.tr.empty() ? t : b.tr)); if (b.sp) for (auto& p : b.sp->assertions) r += show(stl::compute_robustness(p.second, t)); for (size_t k = 0; k < b.s.size(); k++) { Trace u; u["x"] = b.s[k]; u["y"] = b.s[(k + 1) % b.s.size()]; if (u["x"]->empty() || u["y"]->empty()) continue; for (auto& e : {stl::And({stl::Predicate("x") > 0, stl::Predicate("y") <= 1}), stl::Until(stl::Predicate("x") > 0, stl::Predicate("y") > 0), stl::Always(stl::Predicate("x") > 1, {0.25, 1.0})}) r += show(stl::compute_robustness(e, u)); } for (auto& p : b.tr) { Trace u; u["z"] = p.second; r += show(stl::compute_robustness(stl::Eventually(stl::Predicate("z") < 2), u)); } return r; }},
  {"combine", [](Box& b) { std::string r; Expr all = stl::Const(false); auto f = b.f; if (b.sp) for (auto& p : b.sp->formulas) f.push_back(p.second); for (auto& e : f) { all = all | e; r += astr::str(stl::Until(e, all & e)) + astr::str(stl::Xor(e, all)) + astr::str(~e) + astr::str(stl::Always(stl::Implies(all, e), {0.5, 1.0})); if (r.size() > 100000) break; } if (f.size() > 1) r += astr::str(stl::And(f)) + astr::str(stl::Or(f)); return r; }},
  {"print", [](Box& b) { std::string r; for (auto& e : b.f) { std::ostringstream o; ::operator<<(o, e); r += o.str() + fmt::format("{}", e); } for (auto& s : b.s) r += fmt::format("{}", *s); for (auto& p : b.tr) r += fmt::format("{}", *p.second); if (b.sp) for (auto& p : b.sp->assertions) r += fmt::format("{}", p.second); return r; }},
  {"work on the signals", [](Box& b) { std::string r; auto v = b.s; for (auto& p : b.tr) v.push_back(p.second); for (auto& s : v) { auto c = *s; double end = c.end_time(); c.push_back(end + 1, 7); s->push_back(end + 2, 1); r += show(c) + show(s) + show(c.simplify()) + show(s->resize(0.5, end + 3, 2)) + show(s->shift(1)) + astr::dbl(s->at(end + 1.5).value); for (auto& u : v) if (!u->empty()) { auto p = stl::signal::synchronize(s, u); r += show(std::get<0>(p)) + show(std::get<1>(p)); } } return r; }},
  {"copy, drop and use the copies", [](Box& b) { auto f = b.f; b.f.clear(); std::vector<Signal> v; for (auto& s : b.s) v.push_back(*s); b.s.clear(); Trace t = b.tr; b.tr.clear(); std::string r; std::unique_ptr<stl::Specification> sp; if (b.sp) sp = std::make_unique<stl::Specification>(*b.sp); b.sp.reset(); for (auto& e : f) r += astr::str(e) + show(stl::compute_robustness(e, t.empty() ? trace() : t)); for (auto& s : v) r += show(s); if (sp) for (auto& p : sp->assertions) r += astr::str(p.second) + show(stl::compute_robustness(p.second, trace())); b.f = f; return r; }},
  {"make it all again", [](Box& b) { std::string r; for (auto& m : makes) { if (std::string(m.name) == "a specification from a file") continue; Box c; m.f(c); r += guard(uses[0].f, c); } return r + guard(uses[0].f, b); }},
};
constexpr u64 NM = sizeof makes / sizeof *makes, NU = sizeof uses / sizeof *uses;

// -- a program started with a plan: "maker user made used dropped", phases as digits
enum Made { INIT, MAIN, THREAD, MADES };
enum Used { U_INIT, U_MAIN, U_THREAD, U_OTHER, USEDS };
enum Drop { D_MAIN, D_THREAD, D_EXIT, DROPS };
const char* const made_name[] = {"during static initialisation", "in main", "in a thread"};
const char* const used_name[] = {"during static initialisation", "in main", "in the thread that may have made them", "in another thread (after the first ended)"};
const char* const drop_name[] = {"in main", "in a thread", "by static destruction"};
struct Plan { unsigned m = 0, u = 0; int made = 0, used = 0, drop = 0; bool on = false; std::string result; };
bool possible(int made, int used) { return !(used == U_INIT && made != INIT); }
struct Early { // the first object with dynamic initialisation in the program
  Plan p; Box box;
  void make() { makes[p.m].f(box); }
  void use() { p.result = guard(uses[p.u].f, box); }
  Early() {
    const char* e = getenv("STLMC_CHILD"); if (!e) return; p.on = sscanf(e, "%u %u %d %d %d", &p.m, &p.u, &p.made, &p.used, &p.drop) == 5 && p.m < NM && p.u < NU; if (!p.on) return;
    try { if (p.made == INIT) make(); if (p.used == U_INIT) use(); } catch (const std::exception& x) { fprintf(stderr, "static initialisation: %s\n", x.what()); _exit(9); }
  }
};
Early early;
int child() {
  auto& p = early.p; if (!p.on) return 8;
  try {
    if (p.made == MAIN) early.make();
    std::exception_ptr bad;
    if (p.made == THREAD || p.used == U_THREAD) std::thread([&] { bad = caught([&] { if (p.made == THREAD) early.make(); if (p.used == U_THREAD) early.use(); }); }).join();
    if (bad) std::rethrow_exception(bad);
    if (p.used == U_OTHER) std::thread([&] { bad = caught([&] { early.use(); }); }).join();
    if (bad) std::rethrow_exception(bad);
    if (p.used == U_MAIN) early.use();
    if (p.drop == D_MAIN) early.box = Box();
    if (p.drop == D_THREAD) std::thread([&] { early.box = Box(); }).join();
  } catch (const std::exception& x) { fprintf(stderr, "%s\n", x.what()); return 9; }
  const std::string& r = p.result; for (size_t n = 0; n < r.size();) { ssize_t k = write(1, r.data() + n, r.size() - n); if (k <= 0) return 7; n += k; }
  return 0; // static destruction follows
}
struct Ended { int status = 0; std::string out, err; };
Ended program(const Plan& p) {
  std::string plan = "STLMC_CHILD=" + std::to_string(p.m) + " " + std::to_string(p.u) + " " + std::to_string(p.made) + " " + std::to_string(p.used) + " " + std::to_string(p.drop), file = "STLMC_FILE=" + mc::scratch() + "/c30.stl";
  std::vector<char*> env{plan.data(), file.data()}; for (char** e = environ; *e; e++) env.push_back(*e); env.push_back(nullptr);
  std::string errf = mc::scratch() + "/c30-" + std::to_string(getpid()); int fd[2]; if (pipe2(fd, O_CLOEXEC)) throw std::runtime_error("pipe");
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fd[1], 1); posix_spawn_file_actions_addopen(&fa, 2, errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  char exe[] = "/proc/self/exe"; char* argv[] = {exe, nullptr}; pid_t pid; static char self[4096]; if (!*self && readlink("/proc/self/exe", self, sizeof self - 1) < 0) throw std::runtime_error("readlink");
  int e = posix_spawn(&pid, self, &fa, nullptr, argv, env.data()); posix_spawn_file_actions_destroy(&fa); close(fd[1]); if (e) { close(fd[0]); throw std::runtime_error("spawn"); }
  Ended r; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) r.out.append(buf, n); close(fd[0]); waitpid(pid, &r.status, 0);
  std::ifstream f(errf); r.err.assign(std::istreambuf_iterator<char>(f), {}); unlink(errf.c_str()); return r;
}
} // namespace
extern "C" int mc_child_main() { return child(); }

void mc_register() {
  { std::ofstream o(mc::scratch() + "/c30.stl"); o << spec_text; } setenv("STLMC_FILE", (mc::scratch() + "/c30.stl").c_str(), 1);
  auto base = std::make_shared<std::vector<std::string>>(NM * NU);
  auto want = [=](u64 m, u64 u) -> const std::string& { auto& s = (*base)[m * NU + u]; if (s.empty()) { Box b; makes[m].f(b); s = guard(uses[u].f, b) + "."; } return s; };
  bool th = mc::thorough();
#ifdef __SANITIZE_ADDRESS__
  constexpr bool slow = true;
#else
  constexpr bool slow = false;
#endif
  mc::family("lives", NM * NU * MADES * USEDS * DROPS, [=](u64 i) {
    Plan p; p.drop = i % DROPS; i /= DROPS; p.used = i % USEDS; i /= USEDS; p.made = i % MADES; i /= MADES; p.u = i % NU; p.m = i / NU; if (!possible(p.made, p.used)) return false;
    if (slow && !th && (p.u != 0 && p.u != 4 && p.u != 6)) return false;
    auto what = [&] { return std::string("made ") + made_name[p.made] + ": " + makes[p.m].name + "; " + uses[p.u].name + " " + used_name[p.used] + "; dropped " + drop_name[p.drop]; }; if (mc::verbose) mc::desc(what());
    auto r = program(p); const std::string& w = want(p.m, p.u); mc::transition(3);
    if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) mc::fail(what() + ": the program ends with " + (WIFSIGNALED(r.status) ? "signal " + std::to_string(WTERMSIG(r.status)) : "status " + std::to_string(WEXITSTATUS(r.status))) + (r.out + "." == w ? " after the right result" : "") + "\n" + r.err.substr(0, 3000));
    if (r.out + "." != w) mc::fail(what() + " gives\n  " + r.out.substr(0, 3000) + "\ninstead of\n  " + w.substr(0, 3000));
    mc::state(mc::mix(mc::mix(p.m, p.u), (p.made * 10 + p.used) * 10 + p.drop)); mc::outcome(mc::hstr(w)); mc::trace(); return true;
  }, std::to_string(NM) + " ways to make objects x " + (slow && !th ? "3" : std::to_string(NU)) + " uses x 9 pairs of phases x 3 phases to drop them in, each a program of its own");
}
