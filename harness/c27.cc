// C27: the Python module gives the results of its C++ counterparts.  The module's own sources
// (python_bindings/*.cc) are compiled against the stand-in for pybind11 in pystub/ and loaded into CPython.
#include <pybind11/pybind11.h>
#include "alpha.hpp"
#include "signal_tl/exception.hpp"
#include "signal_tl/fmt.hpp"
#include <fmt/format.h>
#include <unordered_map>
using namespace alpha;
namespace stl = signal_tl;
namespace ast = stl::ast;
using stl::Expr;
using stl::signal::Sample; using stl::signal::Signal; using stl::signal::SignalPtr; using stl::signal::Trace;
extern "C" PyObject* PyInit__cext();
extern "C" int __lsan_is_turned_off() { return 1; }

namespace {
#if defined(__SANITIZE_ADDRESS__)
constexpr bool san = true;
#else
constexpr bool san = false;
#endif
std::string hex(double d) { if (std::isnan(d)) return "nan"; char b[40]; std::snprintf(b, sizeof b, "%a", d); return b; }

// ---- what C++ gives, in the notation of canon() below
std::string show(double d) { return hex(d); }
std::string show(bool b) { return b ? "True" : "False"; }
std::string show(size_t n) { return std::to_string(n); }
std::string show(const std::string& s) { return "'" + s + "'"; }
std::string show(const Sample& s) { return "Sample<" + hex(s.time) + " " + hex(s.value) + " " + hex(s.derivative) + ">"; }
std::string show(const Signal& s) {
  std::string r = "Signal<" + hex(s.begin_time()) + " " + hex(s.end_time()) + " " + std::to_string(s.size()) + ":";
  for (auto& x : s) r += " " + show(x);
  return r + ">";
}
std::string show(const SignalPtr& s) { return s ? show(*s) : "None"; }
std::string show(const std::tuple<SignalPtr, SignalPtr>& p) { return "(" + show(std::get<0>(p)) + ", " + show(std::get<1>(p)) + ")"; }
std::string show(const Expr& e);
std::string show(const ast::Interval& i) { auto p = i.as_double(); return p.first == 0 && std::isinf(p.second) ? "None" : "(" + hex(p.first) + ", " + hex(p.second) + ")"; }
std::string show(const std::vector<Expr>& v) { std::string r = "["; for (auto& e : v) r += show(e) + ", "; return r + "]"; }
struct Show {
  std::string operator()(const ast::Const& e) const { return "Const<" + show(e.value) + " "; }
  std::string operator()(const ast::Predicate& e) const { return "Predicate<" + show(e.name) + " "; }
  std::string operator()(const ast::NotPtr& e) const { return "Not<" + show(e->arg) + " "; }
  std::string operator()(const ast::AndPtr& e) const { return "And<" + show(e->args) + " "; }
  std::string operator()(const ast::OrPtr& e) const { return "Or<" + show(e->args) + " "; }
  std::string operator()(const ast::AlwaysPtr& e) const { return "Always<" + show(e->arg) + " " + show(e->interval) + " "; }
  std::string operator()(const ast::EventuallyPtr& e) const { return "Eventually<" + show(e->arg) + " " + show(e->interval) + " "; }
  std::string operator()(const ast::UntilPtr& e) const { return "Until<(" + show(e->args.first) + ", " + show(e->args.second) + ") " + show(e->interval) + " "; }
};
std::string show(const Expr& e) { return std::visit(Show{}, e) + fmt::format("{}", e) + ">"; }
/// the outcome of a C++ call; its exceptions under the names pybind11 documents for them
template <class F> std::string cpp(F f) {
  try { return show(f()); }
  catch (const stl::not_implemented_error&) { return "!FunctionNotImplemented"; }
  catch (const std::invalid_argument&) { return "!ValueError"; }
  catch (const std::domain_error&) { return "!ValueError"; }
  catch (const std::length_error&) { return "!ValueError"; }
  catch (const std::out_of_range&) { return "!IndexError"; }
  catch (const std::overflow_error&) { return "!OverflowError"; }
  catch (const std::range_error&) { return "!ValueError"; }
  catch (const std::bad_alloc&) { return "!MemoryError"; }
  catch (const std::exception&) { return "!RuntimeError"; }
}

// ---- what Python gives
struct Python {
  PyObject* g = nullptr;
  std::unordered_map<std::string, PyObject*> code;
  std::string error; // message of the last exception
  void start() {
    if (g) return;
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1;
    PyStatus st = Py_PreInitialize(&pre); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); _exit(3); }
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.use_hash_seed = 1; c.hash_seed = 1;
    PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3.12");
    st = Py_InitializeFromConfig(&c); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); _exit(3); }
    PyConfig_Clear(&c);
    g = PyDict_New(); PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
    PyObject* m = PyInit__cext();
    if (!m) mc::fail("the module could not be initialised: " + take());
    PyObject* s = PyImport_AddModule("signal_tl._cext"); // as after an import
    if (s != m) mc::fail("the module is registered under another name");
    const char* tree = std::getenv("VERIF_TREE");
    run("import sys, gc\nsys.path.insert(0, '" + std::string(tree ? tree : "/repo") + "')\nsys.dont_write_bytecode = True\nimport signal_tl as stl, signal_tl._cext as _cext\nfrom signal_tl._cext import ast, semantics, signal\n"
        "def build(x, t): return stl.Signal(x, t)\n"
        "def at(o, path):\n  for p in path: o = getattr(o, p) if isinstance(p, str) else o[p]\n  return o\n");
  }
  std::string take() { // the pending exception's class name
    PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
    std::string r = t ? "!" + std::string(PyExceptionClass_Check(t) ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "?") : "!no exception set";
    if (auto d = r.rfind('.'); d != std::string::npos) r = "!" + r.substr(d + 1);
    error.clear(); if (v) if (PyObject* s = PyObject_Str(v)) { if (const char* u = PyUnicode_AsUTF8(s)) error = u; Py_DECREF(s); }
    PyErr_Clear(); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); return r;
  }
  PyObject* compiled(const std::string& s, int how) {
    if (code.size() > 4000) { for (auto& x : code) Py_XDECREF(x.second); code.clear(); }
    auto& c = code[(how == Py_eval_input ? "e" : "x") + s];
    if (!c) c = Py_CompileString(s.c_str(), "case", how);
    return c;
  }
  void run(const std::string& s) {
    PyObject* c = compiled(s, Py_file_input); PyObject* r = c ? PyEval_EvalCode(c, g, g) : nullptr;
    if (!r) { auto e = take(); mc::fail("running\n" + s + "\n  raised " + e + ": " + error); }
    Py_DECREF(r);
  }
  /// the outcome of an expression
  std::string eval(const std::string& s) {
    PyObject* c = compiled(s, Py_eval_input); PyObject* r = c ? PyEval_EvalCode(c, g, g) : nullptr;
    if (!r) return take();
    std::string o = canon(r); Py_DECREF(r); return o;
  }
  std::string attr(PyObject* o, const char* n) { PyObject* a = PyObject_GetAttrString(o, n); if (!a) return take(); std::string r = canon(a); Py_DECREF(a); return r; }
  std::string repr(PyObject* o) { PyObject* a = PyObject_Repr(o); if (!a) return take(); const char* u = PyUnicode_AsUTF8(a); std::string r = u ? u : take(); Py_DECREF(a); return r; }
  std::string canon(PyObject* o) {
    if (o == Py_None) return "None"; if (o == Py_True) return "True"; if (o == Py_False) return "False";
    if (PyFloat_Check(o)) return hex(PyFloat_AsDouble(o));
    if (PyLong_Check(o)) return std::to_string(PyLong_AsLong(o));
    if (PyUnicode_Check(o)) { const char* u = PyUnicode_AsUTF8(o); return u ? "'" + std::string(u) + "'" : take(); }
    if (PyTuple_Check(o)) { std::string r = "("; for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(o); i++) r += (i ? ", " : "") + canon(PyTuple_GET_ITEM(o, i)); return r + ")"; }
    if (PyList_Check(o)) { std::string r = "["; for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) r += canon(PyList_GET_ITEM(o, i)) + ", "; return r + "]"; }
    std::string t = Py_TYPE(o)->tp_name; if (auto d = t.rfind('.'); d != std::string::npos) t = t.substr(d + 1);
    if (t == "Sample") return "Sample<" + attr(o, "time") + " " + attr(o, "value") + " " + attr(o, "derivative") + ">";
    if (t == "Signal") {
      std::string r = "Signal<" + attr(o, "begin_time") + " " + attr(o, "end_time") + " " + std::to_string(PyObject_Size(o)) + ":";
      PyObject* it = PyObject_GetIter(o); if (!it) return take();
      while (PyObject* x = PyIter_Next(it)) { r += " " + canon(x); Py_DECREF(x); }
      Py_DECREF(it); if (PyErr_Occurred()) return take();
      return r + ">";
    }
    if (t == "Const") return "Const<" + attr(o, "value") + " " + repr(o) + ">";
    if (t == "Predicate") return "Predicate<" + attr(o, "name") + " " + repr(o) + ">";
    if (t == "Not") return "Not<" + attr(o, "arg") + " " + repr(o) + ">";
    if (t == "And" || t == "Or") return t + "<" + attr(o, "args") + " " + repr(o) + ">";
    if (t == "Always" || t == "Eventually") return t + "<" + attr(o, "arg") + " " + attr(o, "interval") + " " + repr(o) + ">";
    if (t == "Until") return "Until<" + attr(o, "args") + " " + attr(o, "interval") + " " + repr(o) + ">";
    return "instance of " + t;
  }
} py;

template <class F> void same(const std::string& code, F f, const std::string& context = "") {
  std::string want = cpp(f), got = py.eval(code);
  mc::transition(); mc::outcome(mc::hstr(want));
  if (want != got) mc::fail(context + (context.empty() ? "" : "\n") + "Python: " + code + "\n  gives " + got + (got[0] == '!' ? " (" + py.error + ")" : "") + "\n  the C++ counterpart gives " + want);
}
void rejects(const std::string& code, const std::string& want) {
  std::string got = py.eval(code); mc::transition();
  if (got != want) mc::fail("Python: " + code + "\n  gives " + got + (got[0] == '!' ? " (" + py.error + ")" : "") + ", expected " + want);
}

// ---- Python source of values
std::string lit(double d) {
  if (std::isnan(d)) return "float('nan')";
  if (std::isinf(d)) return d < 0 ? "float('-inf')" : "float('inf')";
  return fmt::format("{:.17g}", d); // integral ones are Python ints
}
std::string litf(double d) { std::string s = lit(d); return s.find_first_of(".en(") == std::string::npos ? s + ".0" : s; }
std::string seq(const std::vector<double>& v, int style) { // list of numbers, tuple, list of floats
  std::string r; for (auto d : v) r += (style == 2 ? litf(d) : lit(d)) + ", ";
  return style == 1 ? "(" + r + ")" : "[" + r + "]";
}
std::string str_lit(const std::string& s) { std::string r = "'"; for (char c : s) { if (c == '\'' || c == '\\') r += '\\'; r += c; } return r + "'"; }
std::string sig_src(const Pwl& p, int style = 0) { std::vector<double> v, t; for (auto& q : p.p) { v.push_back(q.v); t.push_back(q.t); } return "stl.Signal(" + seq(v, style) + ", " + seq(t, style) + ")"; }

// ---- formulas, with the ways to write each
struct Pf { std::string src; Expr e; };
std::string pair_src(const std::pair<double, double>& p, int style) {
  return style == 0 ? "(" + lit(p.first) + ", " + lit(p.second) + ")" : style == 1 ? "[" + litf(p.first) + ", " + litf(p.second) + "]" : "(" + litf(p.first) + ", " + lit(p.second) + ")";
}
using Iv = std::optional<std::pair<double, double>>;
Expr timed(int op, const std::vector<Expr>& k, const Iv& iv) {
  if (op == 0) return iv ? stl::Always(k[0], ast::Interval(iv->first, iv->second)) : stl::Always(k[0]);
  if (op == 1) return iv ? stl::Eventually(k[0], ast::Interval(iv->first, iv->second)) : stl::Eventually(k[0]);
  return iv ? stl::Until(k[0], k[1], ast::Interval(iv->first, iv->second)) : stl::Until(k[0], k[1]);
}
std::vector<std::string> timed_src(int op, const std::vector<std::string>& k, const Iv& iv) {
  static const char* names[3][4] = {{"stl.Always", "stl.G", "ast.Always", "_cext.Always"}, {"stl.Eventually", "stl.F", "ast.Eventually", "_cext.Eventually"}, {"stl.Until", "stl.U", "ast.Until", "_cext.Until"}};
  std::string pos = k[0] + (op == 2 ? ", " + k[1] : ""), kw = op == 2 ? "arg1=" + k[1] + ", arg0=" + k[0] : "arg=" + k[0];
  std::vector<std::string> r;
  for (auto n : names[op]) {
    std::string f = std::string(n) + "(";
    if (!iv) for (auto& s : {pos + ")", kw + ")", pos + ", None)", kw + ", interval=None)", pos + ", interval=None)"}) r.push_back(f + s);
    else for (int style = 0; style < 3; style++) for (auto& s : {pos + ", ", pos + ", interval=", kw + ", interval="}) r.push_back(f + s + pair_src(*iv, style) + ")");
  }
  return r;
}
std::vector<Pf> atoms() {
  std::vector<Pf> r{{"stl.TOP", stl::Const(true)}, {"stl.BOT", stl::Const(false)}, {"stl.Const(True)", stl::Const(true)}, {"stl.Const(value=False)", stl::Const(false)}, {"ast.Const(False)", stl::Const(false)}, {"ast.Const(value=True)", stl::Const(true)}, {"_cext.Const(False)", stl::Const(false)}};
  for (std::string n : {"x", "speed of car", "", "\xc3\xa9\xe2\x82\xac", "{}", "it's"}) {
    for (auto& p : {"stl.Predicate(" + str_lit(n) + ")", "stl.Predicate(name=" + str_lit(n) + ")", "ast.Predicate(" + str_lit(n) + ")", "ast.Predicate(name=" + str_lit(n) + ")"}) {
      r.push_back({p, stl::Predicate(n)});
      for (double c : {0.0, 1.0, -2.5, 0.1, 1e300, INF, -INF, 5e-324, 3.0}) for (int f = 0; f < 2; f++) {
        std::string d = f ? litf(c) : lit(c); if (f && d == lit(c)) continue;
        r.push_back({"(" + p + " > " + d + ")", stl::Predicate(n) > c}); r.push_back({"(" + p + " >= " + d + ")", stl::Predicate(n) >= c});
        r.push_back({"(" + p + " < " + d + ")", stl::Predicate(n) < c}); r.push_back({"(" + p + " <= " + d + ")", stl::Predicate(n) <= c});
        r.push_back({"(" + d + " < " + p + ")", stl::Predicate(n) > c}); r.push_back({"(" + d + " <= " + p + ")", stl::Predicate(n) >= c});
        r.push_back({"(" + d + " > " + p + ")", stl::Predicate(n) < c}); r.push_back({"(" + d + " >= " + p + ")", stl::Predicate(n) <= c});
      }
    }
  }
  return r;
}
std::vector<Pf> base() { return {{"stl.TOP", stl::Const(true)}, {"stl.Predicate('x')", stl::Predicate("x")}, {"(stl.Predicate('x') > 0.5)", stl::Predicate("x") > 0.5}, {"(stl.Predicate('y') <= -1)", stl::Predicate("y") <= -1}}; }
const std::vector<Iv> ivs{std::nullopt, {{0, 1}}, {{0.5, 2}}, {{0, INF}}, {{1, INF}}, {{0.1, 1e9}}, {{0, 5e-324}}};
const std::vector<Iv> bad_ivs{{{1, 1}}, {{2, 1}}, {{-1, 1}}, {{0, NAN}}, {{NAN, 1}}, {{INF, INF}}, {{-2, -1}}, {{0, -0.0}}};
/// every way to write every node over the given operands (one: only the first way of each)
std::vector<Pf> over(const std::vector<Pf>& k, bool one, const std::vector<Iv>& is = ivs) {
  std::vector<Pf> r;
  auto add = [&](std::vector<std::string> src, Expr e) { for (auto& s : src) { r.push_back({s, e}); if (one) break; } };
  for (auto& a : k) {
    add({"stl.Not(" + a.src + ")", "(~" + a.src + ")", "stl.Not(arg=" + a.src + ")"}, stl::Not(a.e));
    add({"ast.Not(" + a.src + ")", "ast.Not(arg=" + a.src + ")"}, std::make_shared<ast::Not>(a.e));
    for (auto& iv : is) for (int op = 0; op < 2; op++) add(timed_src(op, {a.src}, iv), timed(op, {a.e}, iv));
    for (auto& b : k) {
      for (int o = 0; o < 2; o++) {
        std::string n = o ? "Or" : "And", l = a.src + ", " + b.src; Expr e = o ? stl::Or({a.e, b.e}) : stl::And({a.e, b.e});
        add({"stl." + n + "([" + l + "])", "stl." + n + "((" + l + "))", "stl." + n + "(args=[" + l + "])", "ast." + n + "([" + l + "])", "ast." + n + "(args=(" + l + "))"}, e);
        r.push_back({"(" + a.src + (o ? " | " : " & ") + b.src + ")", o ? (a.e | b.e) : (a.e & b.e)});
        add({"stl." + n + "([" + l + ", " + a.src + "])"}, o ? stl::Or({a.e, b.e, a.e}) : stl::And({a.e, b.e, a.e}));
      }
      for (auto& iv : is) add(timed_src(2, {a.src, b.src}, iv), timed(2, {a.e, b.e}, iv));
    }
  }
  return r;
}
/// a family of single expressions compared with C++
void list(const std::string& name, std::vector<Pf> fs, std::string bounds) {
  auto l = std::make_shared<std::vector<Pf>>(std::move(fs));
  mc::family(name, l->size(), [=](u64 i) {
    py.start(); auto& f = (*l)[i]; mc::state(mc::hstr(f.src)); if (mc::verbose) mc::desc(f.src);
    same(f.src, [&] { return f.e; }); mc::trace(); return true;
  }, bounds);
}
Expr child(const Expr& e, const std::string& step) { // a step of an attribute path, on the C++ side
  if (auto p = std::get_if<ast::NotPtr>(&e)) return (*p)->arg;
  if (auto p = std::get_if<ast::AlwaysPtr>(&e)) return (*p)->arg;
  if (auto p = std::get_if<ast::EventuallyPtr>(&e)) return (*p)->arg;
  if (auto p = std::get_if<ast::AndPtr>(&e)) return (*p)->args.at(step == "0" ? 0 : 1);
  if (auto p = std::get_if<ast::OrPtr>(&e)) return (*p)->args.at(step == "0" ? 0 : 1);
  auto& u = *std::get<ast::UntilPtr>(e); return step == "0" ? u.args.first : u.args.second;
}
bool leaf(const Expr& e) { return std::holds_alternative<ast::Const>(e) || std::holds_alternative<ast::Predicate>(e); }
bool binary(const Expr& e) { return std::holds_alternative<ast::AndPtr>(e) || std::holds_alternative<ast::OrPtr>(e) || std::holds_alternative<ast::UntilPtr>(e); }
} // namespace

void mc_register() {
  bool th = mc::thorough();
  // -- formulas: attributes, text and every way to build them
  if (!san || th) {
    list("atoms", atoms(), "constants and predicates: 6 names, 9 bounds (as ints and floats), 4 comparisons on either side");
    list("nodes", over(base(), false), "every node over 4 operands and 7 intervals, in every way to write it (functions, aliases, classes, operators; positional, keyword and None)");
  }
  { auto d1 = over({base()[0], base()[2]}, true, {ivs[0], ivs[2]}); list("nested", over(d1, !th, {ivs[0], ivs[1]}), "every node over every node (depth 2)"); }
  // -- what must be refused
  mc::family("refused", 1, [](u64) {
    py.start();
    std::vector<std::string> o{"stl.TOP", "(stl.Predicate('x') > 1)", "stl.Not(stl.BOT)"};
    for (auto& a : o) for (auto& iv : bad_ivs) for (int op = 0; op < 3; op++) for (auto& s : timed_src(op, {a, a}, iv)) rejects(s, "!ValueError");
    for (std::string n : {"stl.And", "stl.Or", "ast.And", "ast.Or"}) {
      for (std::string a : {"([])", "(())", "([stl.TOP])", "(args=[])", "((stl.BOT,))"}) rejects(n + a, "!ValueError");
      for (std::string a : {"()", "(1)", "('ab')", "(None)", "([1, 2])", "([stl.TOP, None])", "(stl.TOP, stl.BOT)", "([True, False])", "(arg=[stl.TOP, stl.BOT])", "(['a', 'b'])", "({})", "(stl.TOP)"}) rejects(n + a, "!TypeError");
    }
    for (std::string n : {"stl.Not", "ast.Not", "stl.Always", "stl.Eventually", "ast.Always", "ast.Eventually", "stl.G", "stl.F"})
      for (std::string a : {"()", "(1)", "('x')", "(True)", "([stl.TOP])", "(value=stl.TOP)", "(stl.TOP, arg=stl.TOP)", "(stl.Signal())", "(stl.TOP, stl.TOP, stl.TOP)"}) rejects(n + a, "!TypeError");
    for (std::string n : {"stl.Always", "stl.Eventually", "ast.Always", "ast.Eventually"})
      for (std::string a : {"(stl.TOP, 1)", "(stl.TOP, (1,))", "(stl.TOP, (1, 2, 3))", "(stl.TOP, ())", "(stl.TOP, ('a', 'b'))", "(stl.TOP, (1, None))", "(stl.TOP, 'ab')", "(stl.TOP, interval=2)", "(stl.TOP, intervals=(1, 2))", "(stl.TOP, (1, 2), interval=(1, 2))", "(stl.TOP, 0, 1)"}) rejects(n + a, "!TypeError");
    for (std::string n : {"stl.Until", "ast.Until", "stl.U"})
      for (std::string a : {"()", "(stl.TOP)", "(stl.TOP, 1)", "(1, stl.TOP)", "(stl.TOP, (0, 1))", "(stl.TOP, stl.BOT, 1)", "(stl.TOP, stl.BOT, 0, 1)", "(arg0=stl.TOP)", "(arg=stl.TOP, arg1=stl.TOP)"}) rejects(n + a, "!TypeError");
    for (std::string n : {"stl.Predicate", "ast.Predicate"}) for (std::string a : {"()", "(1)", "(None)", "('a', 'b')", "(value='a')", "(['a'])"}) rejects(n + a, "!TypeError");
    for (std::string a : {"stl.Predicate('x') > 'a'", "stl.Predicate('x') > None", "stl.Predicate('x') < stl.Predicate('y')", "stl.Predicate('x') & 1", "1 & stl.Predicate('x')", "stl.TOP | True", "stl.TOP & None", "stl.TOP > 1", "~stl.Signal()", "stl.Const('a', 'b')", "stl.Const()"}) rejects(a, "!TypeError");
    for (std::string a : {"stl.Predicate('x').value", "stl.TOP.arg", "stl.Not(stl.TOP).args", "stl.G(stl.TOP).args", "(stl.TOP & stl.BOT).interval", "stl.Signal().points", "stl.Sample().foo"}) rejects(a, "!AttributeError");
    // attributes cannot be written
    for (std::string w : {"stl.Predicate('x').name = 'y'", "ast.Const(True).value = False", "stl.G(stl.TOP).interval = (1, 2)", "stl.Not(stl.TOP).arg = stl.BOT", "stl.Sample().value = 2.0", "stl.Signal().begin_time = 1.0"})
      py.run("try:\n  " + w + "\n  bad = True\nexcept AttributeError:\n  bad = False\nassert not bad\n");
    mc::trace(); return true;
  }, "wrong types, wrong counts, unknown keywords, bad intervals, writes to attributes");
  // -- the names of the module
  mc::family("names", 1, [](u64) {
    py.start();
    for (std::string n : {"Always", "And", "Const", "Eventually", "Not", "Or", "Predicate", "Until"}) same("stl." + n + " is _cext." + n + " and ast." + n + " is not None", [] { return true; });
    for (std::string c : {"stl.F is stl.Eventually", "stl.G is stl.Always", "stl.U is stl.Until", "stl.TOP.value is True", "stl.BOT.value is False", "stl.compute_robustness is semantics.compute_robustness", "stl.Sample is signal.Sample", "stl.Signal is signal.Signal", "stl.Trace is signal.Trace", "stl.synchronize is signal.synchronize", "isinstance(signal.DoubleList, type) and isinstance(signal.SampleList, type)",
                          "issubclass(_cext.FunctionNotImplemented, NotImplementedError)", "_cext.__doc__ is not None", "isinstance(stl.G(stl.TOP), ast.Always)", "isinstance(stl.TOP, ast.Const)", "isinstance(stl.Predicate('x') > 1, ast.Predicate)", "not isinstance(stl.G(stl.TOP), ast.Eventually)"})
      same(c, [] { return true; });
    py.run("import types\ninit = types.ModuleType('generated')\nexec(open(sys.path[0] + '/python_bindings/init.py.in').read(), init.__dict__)\n"
           "for n in 'Always And Const Eventually Not Or Predicate Until compute_robustness Sample Signal Trace synchronize F G U'.split(): assert getattr(init, n) is getattr(stl, n), n\nassert init.TOP.value and not init.BOT.value\n");
    // the translation of the library's exception, thrown by a function defined the same way
    pybind11::module_ m{pybind11::borrow(PyImport_AddModule("probe"))};
    m.def("unimplemented", []() -> bool { throw stl::not_implemented_error("left \xc3\xa9 out"); });
    PyDict_SetItemString(py.g, "probe", m.ptr());
    rejects("probe.unimplemented()", "!FunctionNotImplemented");
    if (py.error != "left \xc3\xa9 out") mc::fail("the message of not_implemented_error arrives as " + py.error);
    mc::trace(); return true;
  }, "names and aliases of the package, generated __init__ included; the exception class");
  // -- signals: construction
  std::vector<std::vector<double>> lists{{}, {0.0}, {1.0}, {0, 1}, {1, 0}, {0, 0}, {0.5, 2.5}, {-1, 0.1}, {0, 1, 2}, {0, 2, 1}, {0, 0.5, 3}, {-3, 1e-9, 7}, {0, INF}, {NAN, 1}, {-INF, 2}, {1e300, -1e300, 0.1}, {0, 1, 1}};
  auto ls = std::make_shared<std::vector<std::vector<double>>>(lists);
  mc::family("signals", u64(lists.size() * lists.size()) * 3, [ls](u64 i) {
    py.start(); size_t n = ls->size(); auto &v = (*ls)[i % n], &t = (*ls)[i / n % n]; int style = int(i / n / n);
    std::string V = seq(v, style), T = seq(t, style); mc::state(mc::hstr(V + T)); if (mc::verbose) mc::desc(V + T);
    auto mk = [&] { return std::make_shared<Signal>(v, t); };
    for (std::string s : {"stl.Signal(" + V + ", " + T + ")", "stl.Signal(points=" + V + ", times=" + T + ")", "stl.Signal(times=" + T + ", points=" + V + ")", "stl.Signal(" + V + ", times=" + T + ")", "signal.Signal(" + V + ", " + T + ")",
                          "stl.Signal(stl.Signal(" + V + ", " + T + "))", "stl.Signal(other=stl.Signal(" + V + ", " + T + "))", "stl.Signal(list(stl.Signal(" + V + ", " + T + ")))", "stl.Signal(tuple(stl.Signal(" + V + ", " + T + ")))"}) {
      bool copies = s.find("other=") != s.npos || s.find("Signal(stl") != s.npos; bool from_samples = s.find("list(") != s.npos || s.find("tuple(") != s.npos;
      same(s, [&] { auto p = mk(); if (copies) return std::make_shared<Signal>(*p); if (from_samples) { std::vector<Sample> w(p->begin(), p->end()); return std::make_shared<Signal>(w); } return p; });
    }
    same("repr(stl.Signal(" + V + ", " + T + "))", [&] { return fmt::format("{}", *mk()); });
    same("[repr(s) for s in stl.Signal(" + V + ", " + T + ")][-1]", [&] { auto p = mk(); if (p->empty()) throw std::out_of_range(""); return fmt::format("{}", p->back()); });
    mc::trace(); return true;
  }, "17 x 17 lists of values and times (unsorted, repeated, infinite, of different lengths; ints, tuples, floats), 9 ways to make the signal");
  // -- signals: operations
  SigSpace sp{{-1, 0, 0.5, 2}, {-1, 0, 0.1}};
  mc::family("operations", sp.size(), [sp](u64 i) {
    Pwl p; if (!sp.get(i, p)) return false;
    py.start(); std::string S = sig_src(p, int(i % 3)); mc::state(bind_::hsig(*bind_::sig(p))); if (mc::verbose) mc::desc(S);
    py.run("s = " + S + "\n"); auto s = bind_::sig(p);
    same("s", [&] { return s; }); same("repr(s)", [&] { return fmt::format("{}", *s); }); same("len(s)", [&] { return s->size(); });
    same("s.begin_time", [&] { return s->begin_time(); }); same("s.end_time", [&] { return s->end_time(); });
    same("bool(s)", [&] { return !s->empty(); });
    for (size_t k = 0; k < 6; k++) same("s[" + std::to_string(k) + "]", [&] { return s->at_idx(k).value; });
    rejects("s[-1]", "!TypeError"); rejects("s[0.0]", "!TypeError"); rejects("s['a']", "!TypeError"); rejects("s.at()", "!TypeError"); rejects("s.at('a')", "!TypeError"); rejects("s.shift()", "!TypeError"); rejects("s.resize(0, 1)", "!TypeError"); rejects("s.resize(0, 1, 2, 3)", "!TypeError"); rejects("s.simplify(1)", "!TypeError");
    std::vector<double> ts{-2, -1, -0.3, 0, 0.25, 0.5, 1.7, 2, 3, INF, NAN};
    if (!s->empty()) for (double t : ts) same("s.at(" + lit(t) + ")", [&] { return s->at(t).value; });
    same("s.simplify()", [&] { return s->simplify(); });
    for (double d : {0.0, 1.0, -0.5, 0.1, 1e9 + 0.1}) for (std::string kw : {"", "dt="}) same("s.shift(" + kw + lit(d) + ")", [&] { return s->shift(d); });
    if (!s->empty()) for (double a : {-2.0, -1.0, 0.1, 0.5}) for (double b : {0.5, 1.1, 3.0}) for (double f : {-7.0, 0.1})
      for (auto& c : {"s.resize(" + lit(a) + ", " + lit(b) + ", " + lit(f) + ")", "s.resize(fill=" + lit(f) + ", end=" + lit(b) + ", start=" + lit(a) + ")", "s.resize(" + lit(a) + ", " + litf(b) + ", fill=" + litf(f) + ")"}) same(c, [&] { return s->resize(a, b, f); });
    if (!s->empty()) { same("s.shift(2).resize(1, 3, 5).simplify()", [&] { return s->shift(2)->resize(1, 3, 5)->simplify(); }); same("s.simplify().shift(-1).simplify()", [&] { return s->simplify()->shift(-1)->simplify(); }); }
    same("s", [&] { return s; }, "after the operations");
    // the order of samples
    for (size_t a = 0; a < s->size(); a++) for (size_t b = 0; b < s->size(); b++) {
      std::string x = "list(s)[" + std::to_string(a) + "]", y = "list(s)[" + std::to_string(b) + "]"; Sample A = s->at_idx(a), B = s->at_idx(b);
      same(x + " < " + y, [&] { return A < B; }); same(x + " > " + y, [&] { return A > B; }); same(x + " <= " + y, [&] { return A <= B; }); same(x + " >= " + y, [&] { return A >= B; });
    }
    mc::trace(); return true;
  }, "every signal over 4 instants and 3 values: length, elements, values at 11 instants, simplify, shift, resize, chains, order of samples");
  SigSpace sq{{-1, 0.5, 2}, {-1, 0.1}}; u64 nq = sq.size();
  mc::family("synchronize", nq * nq, [sq, nq](u64 i) {
    Pwl p, q; if (!sq.get(i % nq, p) || !sq.get(i / nq, q)) return false;
    for (auto& x : q.p) x.t += 0.25 * double(i % 3);
    py.start(); py.run("x = " + sig_src(p) + "\ny = " + sig_src(q) + "\n"); auto x = bind_::sig(p), y = bind_::sig(q); mc::state(mc::mix(bind_::hsig(*x), bind_::hsig(*y)));
    for (std::string c : {"stl.synchronize(x, y)", "stl.synchronize(y=y, x=x)", "stl.synchronize(x, y=y)", "signal.synchronize(x, y)"}) same(c, [&] { return stl::signal::synchronize(x, y); });
    same("stl.synchronize(y, x)", [&] { return stl::signal::synchronize(y, x); }); same("stl.synchronize(x, x)", [&] { return stl::signal::synchronize(x, x); });
    rejects("stl.synchronize(x)", "!TypeError"); rejects("stl.synchronize(x, 1)", "!TypeError"); rejects("stl.synchronize([1, 2], y)", "!TypeError");
    same("(x, y)", [&] { return std::make_tuple(x, y); }, "after synchronize");
    mc::trace(); return true;
  }, "every pair of signals over 3 instants and 2 values, the second shifted by 0, 0.25 or 0.5");
  // -- evaluation
  std::vector<Pf> fs; { auto b = base(); fs = over({b[0], b[2], b[3]}, true, {ivs[0], ivs[2]}); fs.insert(fs.end(), b.begin(), b.end()); }
  fs.push_back({"stl.G(stl.F(stl.Predicate('x') > 0, (0, 1)) | ~(stl.Predicate('y') <= 0.5))", stl::Always(stl::Eventually(stl::Predicate("x") > 0, ast::Interval(0.0, 1.0)) | ~Expr(stl::Predicate("y") <= 0.5))});
  fs.push_back({"stl.Predicate('z') > 0", stl::Predicate("z") > 0.0}); fs.push_back({"stl.And([stl.TOP, stl.Predicate('z')])", stl::And({stl::Const(true), stl::Predicate("z")})});
  auto fl = std::make_shared<std::vector<Pf>>(fs);
  auto sv = SigSpace{{0, 1, 2}, {-1, 0.75}}; u64 nv = sv.size();
  mc::family("evaluation", nv * nv, [=](u64 i) {
    Pwl p, q; if (!sv.get(i % nv, p) || !sv.get(i / nv, q)) return false;
    py.start(); py.run("tr = {'x': " + sig_src(p) + ", 'y': " + sig_src(q) + "}\n"); Trace tr{{"x", bind_::sig(p)}, {"y", bind_::sig(q)}}; mc::state(mc::mix(bind_::hsig(*tr["x"]), bind_::hsig(*tr["y"])));
    bool aligned = p.p.size() == q.p.size(); for (size_t k = 0; aligned && k < p.p.size(); k++) aligned = p.p[k].t == q.p[k].t;
    std::string where = "trace " + show(tr["x"]) + " " + show(tr["y"]); if (mc::verbose) mc::desc(where);
    for (auto& f : *fl) {
      auto rob = [&](bool sync) { return stl::semantics::compute_robustness(f.e, tr, sync); };
      for (std::string c : {"stl.compute_robustness(" + f.src + ", tr)", "semantics.compute_robustness(trace=tr, phi=" + f.src + ")", "stl.compute_robustness(" + f.src + ", tr, False)", "stl.compute_robustness(" + f.src + ", trace=tr, synchronized=False)"}) same(c, [&] { return rob(false); }, where);
      if (aligned) for (std::string c : {"stl.compute_robustness(" + f.src + ", tr, True)", "stl.compute_robustness(phi=" + f.src + ", trace=tr, synchronized=True)"}) same(c, [&] { return rob(true); }, where);
    }
    mc::trace(); return true;
  }, "every pair of signals over 3 instants and 2 values, " + std::to_string(fs.size()) + " formulas, calls with and without the flag");
  mc::family("evaluation-refused", 1, [](u64) {
    py.start(); py.run("x = stl.Signal([1, 2], [0, 1])\n");
    for (std::string c : {"()", "(stl.TOP)", "(1, {'x': x})", "('x', {'x': x})", "(stl.TOP, x)", "(stl.TOP, [x])", "(stl.TOP, {'x': 1})", "(stl.TOP, {1: x})", "(stl.TOP, {'x': [1, 2]})", "({'x': x}, stl.TOP)", "(stl.TOP, {'x': x}, False, 1)", "(stl.TOP, {'x': x}, sync=True)", "(stl.TOP, {'x': x}, synchronized='yes')"}) rejects("stl.compute_robustness" + c, "!TypeError");
    Trace tr{{"x", std::make_shared<Signal>(std::vector<double>{1, 2}, std::vector<double>{0, 1})}};
    same("stl.compute_robustness(stl.Predicate('q'), {'x': x})", [&] { return stl::semantics::compute_robustness(stl::Predicate("q"), tr); });
    same("stl.compute_robustness(stl.TOP, {})", [&] { return stl::semantics::compute_robustness(stl::Const(true), Trace{}); });
    same("stl.compute_robustness(stl.Predicate('x'), {})", [&] { return stl::semantics::compute_robustness(stl::Predicate("x"), Trace{}); });
    same("stl.compute_robustness(stl.Until(stl.TOP, stl.Predicate('x'), (0, 1)), {'x': x})", [&] { return stl::semantics::compute_robustness(stl::Until(stl::Const(true), stl::Predicate("x"), ast::Interval(0.0, 1.0)), tr); });
    mc::trace(); return true;
  }, "wrong types and counts, missing signals, empty traces, timed until");
  // -- what is obtained from an object stays valid without it
  std::vector<Pf> deep; { auto d1 = th ? over({base()[0], base()[2]}, true, {ivs[2]}) : over({base()[2]}, true, {ivs[2]}); deep = over(d1, true, {ivs[0]}); }
  auto dl = std::make_shared<std::vector<Pf>>(deep);
  mc::family("lifetimes", u64(deep.size()) * 4 * 8, [dl](u64 i) {
    auto& f = (*dl)[i / 32]; int way = int(i % 4), drop = int(i / 4 % 8);
    py.start(); if (mc::verbose) mc::desc(f.src + " way " + std::to_string(way) + " dropping " + std::to_string(drop));
    mc::state(mc::hstr(f.src, i % 32));
    py.run("o0 = " + f.src + "\n"); Expr e = f.e; std::string cur = "o0"; int n = 0;
    auto step = [&](const std::string& attribute) { // the next object, dropping the current one or not
      std::string nx = "o" + std::to_string(++n); py.run(nx + " = " + cur + attribute + "\n");
      if (drop >> ((n - 1) % 3) & 1) py.run("del " + cur + "\ngc.collect()\njunk = [ast.Predicate('junk') for _ in range(8)] + [stl.Not(stl.TOP)]\n");
      cur = nx;
    };
    for (int d = 0; d < 2 && !leaf(e); d++) {
      std::string k = way >> d & 1 ? "1" : "0";
      if (binary(e)) { step(".args"); e = child(e, k); step("[" + k + "]"); }
      else { if (k == "1") return false; e = child(e, k); step(".arg"); }
      same(cur, [&] { return e; }, f.src + ", " + cur);
    }
    py.run("for n in list(globals()):\n  if n != '" + cur + "' and n[0] == 'o' and n[1:].isdigit(): del globals()[n]\ngc.collect()\njunk = [ast.Predicate('junk') for _ in range(8)]\n");
    same(cur, [&] { return e; }, f.src + ", only " + cur + " left");
    same("(" + cur + " & stl.BOT)", [&] { return e & Expr(stl::Const(false)); });
    mc::trace(); return true;
  }, "paths of attributes into formulas of depth 2, each object on the way dropped or not, then only the last one left");
  mc::family("signal-lifetimes", sp.size() * 6, [sp](u64 i) {
    Pwl p; if (!sp.get(i / 6, p)) return false; if (p.p.empty()) return false;
    py.start(); py.run("s = " + sig_src(p) + "\n"); auto s = bind_::sig(p); mc::state(mc::mix(bind_::hsig(*s), i % 6));
    std::string all = "[" ; for (auto& x : *s) all += show(x) + ", "; all += "]";
    auto junk = "gc.collect()\njunk = [stl.Signal([9] * k, list(range(k))) for k in range(8)]\n";
    auto is = [&](const std::string& code, const std::string& want) { std::string got = py.eval(code); mc::transition(); if (got != want) mc::fail("signal " + show(s) + ", case " + std::to_string(i % 6) + "\nPython: " + code + "\n  gives " + got + "\n  expected " + want); };
    switch (i % 6) {
      case 0: py.run(std::string("it = iter(s)\ndel s\n") + junk); is("list(it)", all); break;
      case 1: py.run(std::string("l = list(s)\ndel s\n") + junk); is("l", all); break;
      case 2: py.run(std::string("it = iter(s)\na = next(it)\ndel s\n") + junk + "del it\n" + junk); is("a", show(s->front())); break;
      case 3: py.run(std::string("tr = {'x': s}\nr = stl.compute_robustness(stl.Predicate('x'), tr)\ndel s, tr\n") + junk); { auto r = stl::semantics::compute_robustness(stl::Predicate("x"), Trace{{"x", s}}); is("r", show(r)); } break;
      case 4: py.run(std::string("c = stl.Signal(s)\nx, y = stl.synchronize(s, c)\ndel s\n") + junk); is("c", show(s)); is("(x, y)", show(stl::signal::synchronize(s, s))); break;
      case 5: py.run(std::string("a, b = iter(s), iter(s)\nnext(a)\n") + "l = list(b)\ndel s, b\n" + junk); is("l", all); is("len(list(a))", std::to_string(s->size() - 1)); break;
    }
    mc::trace(); return true;
  }, "iterators, samples, results and copies that outlive the signal, 6 histories of each signal over 4 instants and 3 values");
}
