// A stand-in for the part of pybind11 that /repo/python_bindings uses, over the CPython C API (pybind11
// itself is not installed here).  Written from pybind11's documented behaviour: overload resolution in
// two passes (without, then with conversions), default and keyword arguments, holders, one Python object
// per C++ object, return value policies and keep_alive, casters for numbers, strings, optional, variant,
// pair/tuple, vector and map, translation of C++ exceptions.
#pragma once
#include <Python.h>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11 {
struct error_already_set : std::exception { const char* what() const noexcept override { return "python error"; } };
struct stop_iteration : std::runtime_error { stop_iteration() : std::runtime_error("") {} };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; index_error() : std::runtime_error("") {} };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct reference_cast_error : cast_error { reference_cast_error() : cast_error("") {} };

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// -- Instances and types
struct instance {
  PyObject_HEAD
  void* value;                        // the C++ object, or null before __init__
  void (*release)(instance*);         // what to do with it at the end
  alignas(std::max_align_t) char holder[sizeof(std::shared_ptr<void>)];
  std::vector<PyObject*>* patients;   // kept alive by this one
};
struct type_record { PyTypeObject* type = nullptr; std::string name; };
struct internals_t {
  std::unordered_map<std::type_index, type_record> types;
  std::unordered_multimap<const void*, instance*> instances;
  std::vector<std::function<bool(std::exception_ptr)>> translators;
  PyTypeObject* base = nullptr;
};
inline internals_t& internals() { static auto* i = new internals_t; return *i; }

inline void unregister(instance* i) {
  auto r = internals().instances.equal_range(i->value);
  for (auto it = r.first; it != r.second; ++it) if (it->second == i) { internals().instances.erase(it); return; }
}
inline PyObject* instance_new(PyTypeObject* t, PyObject*, PyObject*) {
  PyObject* o = t->tp_alloc(t, 0);
  return o; // all zero
}
inline void instance_dealloc(PyObject* o) {
  auto* i = reinterpret_cast<instance*>(o);
  PyTypeObject* t = Py_TYPE(o);
  if (i->value) { unregister(i); if (i->release) i->release(i); i->value = nullptr; }
  if (auto* p = i->patients) { i->patients = nullptr; for (auto* x : *p) Py_DECREF(x); delete p; }
  t->tp_free(o);
  Py_DECREF(t);
}
inline int instance_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name); return -1;
}
inline PyTypeObject* base_type() {
  auto& b = internals().base;
  if (!b) {
    static PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void*>(&instance_new)}, {Py_tp_init, reinterpret_cast<void*>(&instance_init)},
                                  {Py_tp_dealloc, reinterpret_cast<void*>(&instance_dealloc)}, {0, nullptr}};
    static PyType_Spec spec{"pybind11_builtins.pybind11_object", int(sizeof(instance)), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    b = reinterpret_cast<PyTypeObject*>(PyType_FromSpec(&spec));
  }
  return b;
}
inline void keep_alive_impl(PyObject* nurse, PyObject* patient) {
  if (!nurse || !patient || nurse == Py_None || patient == Py_None) return;
  if (!PyType_IsSubtype(Py_TYPE(nurse), base_type())) throw std::runtime_error("keep_alive of something that is not an instance");
  auto* i = reinterpret_cast<instance*>(nurse);
  if (!i->patients) i->patients = new std::vector<PyObject*>;
  Py_INCREF(patient); i->patients->push_back(patient);
}

// -- Handles
class handle {
 protected:
  PyObject* p = nullptr;
 public:
  handle() = default;
  handle(PyObject* o) : p(o) {}
  PyObject* ptr() const { return p; }
  bool is_none() const { return p == Py_None; }
  explicit operator bool() const { return p != nullptr; }
};
struct attr_accessor;
class object : public handle {
 public:
  object() = default;
  explicit object(PyObject* stolen) : handle(stolen) {}
  object(const object& o) : handle(o.p) { Py_XINCREF(p); }
  object(object&& o) noexcept : handle(o.p) { o.p = nullptr; }
  attr_accessor attr(const char* n) const;
  object& operator=(object o) { std::swap(p, o.p); return *this; }
  ~object() { Py_XDECREF(p); }
  PyObject* release() { auto* r = p; p = nullptr; return r; }
};
struct attr_accessor { PyObject* o; std::string n; template <class T> void operator=(T&& v) &&; operator object() const { PyObject* r = PyObject_GetAttrString(o, n.c_str()); if (!r) throw error_already_set(); return object(r); } };
inline object borrow(PyObject* o) { Py_XINCREF(o); return object(o); }

// -- Casters: load(source, convert), get(), and a static cast that gives a new reference
namespace detail {
template <class T> using intrinsic = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T, class = void> struct caster;
template <class T> using make_caster = caster<intrinsic<T>>;

inline PyObject* find_registered(const void* v, PyTypeObject* t) {
  auto r = internals().instances.equal_range(v);
  for (auto it = r.first; it != r.second; ++it) if (Py_TYPE(it->second) == t) { Py_INCREF(it->second); return reinterpret_cast<PyObject*>(it->second); }
  return nullptr;
}
template <class T> type_record* record() { auto it = internals().types.find(typeid(T)); return it == internals().types.end() ? nullptr : &it->second; }
template <class T> type_record& need_record() {
  if (auto* r = record<T>()) return *r;
  PyErr_Format(PyExc_TypeError, "Unregistered type : %s", typeid(T).name()); throw error_already_set();
}
inline instance* fresh(type_record& r) {
  auto* o = r.type->tp_alloc(r.type, 0); if (!o) throw error_already_set();
  return reinterpret_cast<instance*>(o);
}
inline void adopt(instance* i, void* v, void (*release)(instance*)) { i->value = v; i->release = release; internals().instances.emplace(v, i); }
template <class T> void release_owned(instance* i) { delete static_cast<T*>(i->value); }
template <class T> void release_shared(instance* i) { reinterpret_cast<std::shared_ptr<T>*>(i->holder)->~shared_ptr(); }
template <class T> void adopt_shared(instance* i, std::shared_ptr<T> s) { T* v = s.get(); new (i->holder) std::shared_ptr<T>(std::move(s)); adopt(i, const_cast<std::remove_const_t<T>*>(v), &release_shared<T>); }
/// T is held by shared_ptr rather than unique_ptr (set by class_)
template <class T> bool& held_shared() { static bool b = false; return b; }
template <class T> void adopt_new(instance* i, T* v) { if (held_shared<T>()) adopt_shared<T>(i, std::shared_ptr<T>(v)); else adopt(i, v, &release_owned<T>); }

// registered classes
template <class T> struct class_caster {
  T* v = nullptr;
  bool load(PyObject* o, bool convert) {
    auto* r = record<T>(); if (!r || !o) return false;
    if (o == Py_None) { v = nullptr; return convert; } // a null pointer: no reference can be bound to it
    if (!PyType_IsSubtype(Py_TYPE(o), r->type)) return false;
    v = static_cast<T*>(reinterpret_cast<instance*>(o)->value);
    return v != nullptr;
  }
  T& get() { if (!v) throw reference_cast_error(); return *v; }
  template <class U> static PyObject* cast(U&& src, return_value_policy p, PyObject* parent) {
    auto& r = need_record<T>();
    if constexpr (std::is_lvalue_reference_v<U>) {
      if (p == return_value_policy::automatic || p == return_value_policy::automatic_reference) p = return_value_policy::copy;
    } else {
      p = return_value_policy::move;
    }
    const void* address = std::addressof(src);
    if (auto* o = find_registered(address, r.type)) return o;
    auto* i = fresh(r);
    object guard(reinterpret_cast<PyObject*>(i));
    if constexpr (!std::is_lvalue_reference_v<U>) { adopt_new<T>(i, new T(std::move(src))); return guard.release(); }
    switch (p) {
      case return_value_policy::reference: adopt(i, const_cast<void*>(address), nullptr); break;
      case return_value_policy::reference_internal: adopt(i, const_cast<void*>(address), nullptr); keep_alive_impl(guard.ptr(), parent); break;
      case return_value_policy::take_ownership: adopt_new<T>(i, const_cast<T*>(static_cast<const T*>(address))); break;
      default: adopt_new<T>(i, new T(src));
    }
    return guard.release();
  }
};
template <class T, class> struct caster : class_caster<T> {};
// shared_ptr holders
template <class T> struct caster<std::shared_ptr<T>> {
  std::shared_ptr<T> v;
  bool load(PyObject* o, bool convert) {
    if (o == Py_None) { if (!convert) return false; v = nullptr; return true; }
    caster<std::remove_const_t<T>> c; if (!c.load(o, false)) return false;
    auto* i = reinterpret_cast<instance*>(o);
    if (i->release != &release_shared<std::remove_const_t<T>>) throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
    v = *reinterpret_cast<std::shared_ptr<std::remove_const_t<T>>*>(i->holder); return true;
  }
  std::shared_ptr<T>& get() { return v; }
  static PyObject* cast(const std::shared_ptr<T>& s, return_value_policy, PyObject*) {
    if (!s) Py_RETURN_NONE;
    auto& r = need_record<std::remove_const_t<T>>();
    if (auto* o = find_registered(s.get(), r.type)) return o;
    auto* i = fresh(r); adopt_shared<T>(i, s); return reinterpret_cast<PyObject*>(i);
  }
};
// numbers
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  T v{};
  bool load(PyObject* o, bool convert) {
    if (!o || (!convert && !PyFloat_Check(o))) return false;
    double d = PyFloat_AsDouble(o);
    if (d == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(o)) { object t(PyNumber_Float(o)); PyErr_Clear(); return t && load(t.ptr(), false); }
      return false;
    }
    v = T(d); return true;
  }
  T& get() { return v; }
  static PyObject* cast(T s, return_value_policy, PyObject*) { return PyFloat_FromDouble(double(s)); }
};
template <class T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  T v{};
  bool load(PyObject* o, bool convert) {
    if (!o || PyFloat_Check(o) || (!convert && !PyLong_Check(o) && !PyIndex_Check(o))) return false;
    object idx; PyObject* s = o;
    if (!PyLong_Check(o)) { idx = object(PyNumber_Index(o)); if (!idx) { PyErr_Clear(); if (!convert) return false; } else s = idx.ptr(); }
    bool bad = false;
    if constexpr (std::is_unsigned_v<T>) {
      unsigned long long r = PyLong_Check(s) ? PyLong_AsUnsignedLongLong(s) : (PyErr_SetString(PyExc_TypeError, ""), ~0ull);
      bad = r == ~0ull && PyErr_Occurred(); if (!bad && T(r) != r) { PyErr_Clear(); return false; } v = T(r);
    } else {
      long long r = PyLong_Check(s) ? PyLong_AsLongLong(s) : (PyErr_SetString(PyExc_TypeError, ""), -1);
      bad = r == -1 && PyErr_Occurred(); if (!bad && T(r) != r) { PyErr_Clear(); return false; } v = T(r);
    }
    if (bad) {
      PyErr_Clear();
      if (convert && PyNumber_Check(o)) { object t(PyNumber_Long(o)); PyErr_Clear(); return t && load(t.ptr(), false); }
      return false;
    }
    return true;
  }
  T& get() { return v; }
  static PyObject* cast(T s, return_value_policy, PyObject*) { if constexpr (std::is_unsigned_v<T>) return PyLong_FromUnsignedLongLong(s); else return PyLong_FromLongLong(s); }
};
template <> struct caster<bool> {
  bool v = false;
  bool load(PyObject* o, bool convert) {
    if (o == Py_True || o == Py_False) { v = o == Py_True; return true; }
    if (!o || !convert) return false;
    if (o == Py_None) { v = false; return true; }
    if (auto* nb = Py_TYPE(o)->tp_as_number; nb && nb->nb_bool) { int r = nb->nb_bool(o); if (r == 0 || r == 1) { v = r; return true; } PyErr_Clear(); }
    return false;
  }
  bool& get() { return v; }
  static PyObject* cast(bool s, return_value_policy, PyObject*) { return PyBool_FromLong(s); }
};
template <> struct caster<const char*> { static PyObject* cast(const char* s, return_value_policy, PyObject*) { return PyUnicode_FromString(s); } };
template <size_t N> struct caster<char[N]> { static PyObject* cast(const char* s, return_value_policy, PyObject*) { return PyUnicode_FromString(s); } };
template <> struct caster<std::string> {
  std::string v;
  bool load(PyObject* o, bool) {
    if (!o) return false;
    if (PyUnicode_Check(o)) { Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); return false; } v.assign(s, size_t(n)); return true; }
    if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), size_t(PyBytes_GET_SIZE(o))); return true; }
    return false;
  }
  std::string& get() { return v; }
  static PyObject* cast(const std::string& s, return_value_policy, PyObject*) {
    auto* o = PyUnicode_DecodeUTF8(s.data(), Py_ssize_t(s.size()), nullptr); if (!o) throw error_already_set(); return o;
  }
};
template <> struct caster<handle> { handle v; bool load(PyObject* o, bool) { v = handle(o); return o != nullptr; } handle& get() { return v; } static PyObject* cast(const handle& h, return_value_policy, PyObject*) { Py_XINCREF(h.ptr()); return h.ptr(); } };
template <class T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T> && !std::is_same_v<object, T>>> {
  std::optional<T> v; bool load(PyObject* o, bool) { if (!o || !T::check(o)) return false; v.emplace(borrow(o)); return true; } T& get() { return *v; }
  static PyObject* cast(const T& h, return_value_policy, PyObject*) { Py_XINCREF(h.ptr()); return h.ptr(); }
};
template <> struct caster<object> { object v; bool load(PyObject* o, bool) { v = borrow(o); return o != nullptr; } object& get() { return v; } static PyObject* cast(const object& h, return_value_policy, PyObject*) { Py_XINCREF(h.ptr()); return h.ptr(); } };
template <> struct caster<std::nullopt_t> {
  bool load(PyObject* o, bool) { return o == Py_None; }
  static PyObject* cast(std::nullopt_t, return_value_policy, PyObject*) { Py_RETURN_NONE; }
};
template <class T> struct caster<std::optional<T>> {
  std::optional<T> v;
  bool load(PyObject* o, bool convert) {
    if (!o) return false; if (o == Py_None) { v.reset(); return true; }
    caster<T> c; if (!c.load(o, convert)) return false; v.emplace(c.get()); return true;
  }
  std::optional<T>& get() { return v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) { if (!s) Py_RETURN_NONE; return caster<T>::cast(*std::forward<U>(s), p, parent); }
};
template <class... Ts> struct caster<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  std::optional<V> v;
  template <class T> bool alternative(PyObject* o, bool convert) { caster<T> c; if (!c.load(o, convert)) return false; v.emplace(c.get()); return true; }
  bool load(PyObject* o, bool convert) {
    if (convert && (alternative<Ts>(o, false) || ...)) return true; // an exact alternative first
    return (alternative<Ts>(o, convert) || ...);
  }
  V& get() { return *v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) {
    return std::visit([&](auto&& a) { return make_caster<decltype(a)>::cast(std::forward<decltype(a)>(a), p, parent); }, std::forward<U>(s));
  }
};
template <class... Ts> struct tuple_load {
  std::tuple<caster<Ts>...> c;
  template <size_t... I> bool load(PyObject* o, bool convert, std::index_sequence<I...>) {
    if (!o || !PySequence_Check(o)) return false;
    if (PySequence_Size(o) != Py_ssize_t(sizeof...(Ts))) { PyErr_Clear(); return false; }
    std::vector<object> items; for (size_t k = 0; k < sizeof...(Ts); k++) { items.emplace_back(PySequence_GetItem(o, Py_ssize_t(k))); if (!items.back()) throw error_already_set(); }
    bool ok = true; ((ok = ok && std::get<I>(c).load(items[I].ptr(), convert)), ...); return ok;
  }
};
template <class A, class B> struct caster<std::pair<A, B>> {
  tuple_load<A, B> l; std::optional<std::pair<A, B>> v;
  bool load(PyObject* o, bool convert) { if (!l.load(o, convert, std::index_sequence<0, 1>())) return false; v.emplace(std::get<0>(l.c).get(), std::get<1>(l.c).get()); return true; }
  std::pair<A, B>& get() { return *v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) {
    object a(make_caster<A>::cast(std::get<0>(std::forward<U>(s)), p, parent)), b(make_caster<B>::cast(std::get<1>(std::forward<U>(s)), p, parent));
    if (!a || !b) return nullptr; return PyTuple_Pack(2, a.ptr(), b.ptr());
  }
};
template <class... Ts> struct caster<std::tuple<Ts...>> {
  tuple_load<Ts...> l; std::optional<std::tuple<Ts...>> v;
  bool load(PyObject* o, bool convert) { if (!l.load(o, convert, std::index_sequence_for<Ts...>())) return false; v.emplace(std::apply([](auto&... c) { return std::tuple<Ts...>(c.get()...); }, l.c)); return true; }
  std::tuple<Ts...>& get() { return *v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) {
    std::vector<object> items; std::apply([&](auto&&... x) { (items.emplace_back(make_caster<decltype(x)>::cast(std::forward<decltype(x)>(x), p, parent)), ...); }, std::forward<U>(s));
    object t(PyTuple_New(Py_ssize_t(items.size()))); for (size_t k = 0; k < items.size(); k++) { if (!items[k]) return nullptr; PyTuple_SET_ITEM(t.ptr(), Py_ssize_t(k), items[k].release()); }
    return t.release();
  }
};
template <class T, class A> struct caster<std::vector<T, A>> {
  std::vector<T, A> v;
  bool load(PyObject* o, bool convert) {
    if (!o || !PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    v.clear(); auto n = PySequence_Size(o); if (n < 0) { PyErr_Clear(); return false; }
    for (Py_ssize_t k = 0; k < n; k++) {
      object item(PySequence_GetItem(o, k)); if (!item) throw error_already_set();
      caster<T> c; if (!c.load(item.ptr(), convert)) return false; v.push_back(c.get());
    }
    return true;
  }
  std::vector<T, A>& get() { return v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) {
    object l(PyList_New(0));
    for (auto&& x : s) { object i; if constexpr (std::is_lvalue_reference_v<U>) i = object(make_caster<T>::cast(x, p, parent)); else i = object(make_caster<T>::cast(std::move(x), p, parent)); if (!i) return nullptr; PyList_Append(l.ptr(), i.ptr()); }
    return l.release();
  }
};
template <class K, class T, class C, class A> struct caster<std::map<K, T, C, A>> {
  std::map<K, T, C, A> v;
  bool load(PyObject* o, bool convert) {
    if (!o || !PyDict_Check(o)) return false; v.clear(); PyObject *k, *x; Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &x)) { caster<K> ck; caster<T> ct; if (!ck.load(k, convert) || !ct.load(x, convert)) return false; v.emplace(ck.get(), ct.get()); }
    return true;
  }
  std::map<K, T, C, A>& get() { return v; }
  template <class U> static PyObject* cast(U&& s, return_value_policy p, PyObject* parent) {
    object d(PyDict_New()); for (auto&& x : s) { object k(make_caster<K>::cast(x.first, p, parent)), i; if constexpr (std::is_lvalue_reference_v<U>) i = object(make_caster<T>::cast(x.second, p, parent)); else i = object(make_caster<T>::cast(std::move(x.second), p, parent)); if (!k || !i) return nullptr; PyDict_SetItem(d.ptr(), k.ptr(), i.ptr()); }
    return d.release();
  }
};
/// passes a caster's content as the parameter type
template <class A, class C> decltype(auto) pass(C& c) {
  if constexpr (std::is_pointer_v<A>) return std::addressof(c.get());
  else if constexpr (std::is_lvalue_reference_v<A>) return static_cast<A>(c.get());
  else if constexpr (std::is_rvalue_reference_v<A>) return std::move(c.get());
  else return A(c.get());
}
} // namespace detail

inline attr_accessor object::attr(const char* n) const { return {p, n}; }
template <class T> object cast(T&& v, return_value_policy p = return_value_policy::automatic_reference) { return object(detail::make_caster<T>::cast(std::forward<T>(v), p, nullptr)); }
template <class T> void attr_accessor::operator=(T&& v) && { object x(detail::make_caster<T>::cast(std::forward<T>(v), return_value_policy::automatic_reference, nullptr)); if (PyObject_SetAttrString(o, n.c_str(), x.ptr())) throw error_already_set(); }

// -- Function attributes
struct arg { const char* name; explicit arg(const char* n) : name(n) {} template <class T> struct arg_v operator=(T&& v) const; arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } };
struct arg_v : arg { object value; arg_v(const char* n, object v) : arg(n), value(std::move(v)) {} };
template <class T> arg_v arg::operator=(T&& v) const { return arg_v(name, object(detail::make_caster<T>::cast(std::forward<T>(v), return_value_policy::copy, nullptr))); }
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
struct is_operator {};
struct buffer_protocol {};
struct module_local { module_local(bool = true) {} };
struct dynamic_attr {};
template <int N, int P> struct keep_alive {};
struct doc { const char* d; explicit doc(const char* s) : d(s) {} };
struct value_and_holder { instance* self; };
struct is_method { template <class T> explicit is_method(const T&) {} };
struct name { const char* n; explicit name(const char* s) : n(s) {} };
struct gil_scoped_release { PyThreadState* s = PyEval_SaveThread(); ~gil_scoped_release() { PyEval_RestoreThread(s); } };
struct gil_scoped_acquire { PyGILState_STATE s = PyGILState_Ensure(); ~gil_scoped_acquire() { PyGILState_Release(s); } };
template <class... G> struct call_guard {};
struct const_t {}; static constexpr const_t const_{};
template <class... A> struct overload_cast_t {
  template <class R> constexpr auto operator()(R (*p)(A...)) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, const_t) const { return p; }
};
template <class... A> static constexpr overload_cast_t<A...> overload_cast{};

struct function_record {
  std::string name; bool is_operator_ = false, is_constructor = false; size_t nargs = 0;
  std::vector<std::pair<std::string, object>> args; // names and defaults, of all parameters (self included)
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<int, int>> alive;
  std::function<PyObject*(std::vector<PyObject*>&, bool convert, PyObject* parent, function_record&)> impl; // null: next overload
  std::function<void(const std::function<void()>&)> impl_guard; // runs the call itself, without the conversions
  std::unique_ptr<function_record> next;
  PyMethodDef def{};
};
inline PyObject* try_next() { return reinterpret_cast<PyObject*>(1); }

inline void translate(std::exception_ptr e) {
  for (auto it = internals().translators.rbegin(); it != internals().translators.rend(); ++it) if ((*it)(e)) return;
  try { std::rethrow_exception(e); }
  catch (const error_already_set&) {}
  catch (const stop_iteration& x) { PyErr_SetString(PyExc_StopIteration, x.what()); }
  catch (const index_error& x) { PyErr_SetString(PyExc_IndexError, x.what()); }
  catch (const key_error& x) { PyErr_SetString(PyExc_KeyError, x.what()); }
  catch (const value_error& x) { PyErr_SetString(PyExc_ValueError, x.what()); }
  catch (const type_error& x) { PyErr_SetString(PyExc_TypeError, x.what()); }
  catch (const std::bad_alloc& x) { PyErr_SetString(PyExc_MemoryError, x.what()); }
  catch (const std::domain_error& x) { PyErr_SetString(PyExc_ValueError, x.what()); }
  catch (const std::invalid_argument& x) { PyErr_SetString(PyExc_ValueError, x.what()); }
  catch (const std::length_error& x) { PyErr_SetString(PyExc_ValueError, x.what()); }
  catch (const std::out_of_range& x) { PyErr_SetString(PyExc_IndexError, x.what()); }
  catch (const std::range_error& x) { PyErr_SetString(PyExc_ValueError, x.what()); }
  catch (const std::overflow_error& x) { PyErr_SetString(PyExc_OverflowError, x.what()); }
  catch (const std::exception& x) { PyErr_SetString(PyExc_RuntimeError, x.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}
inline PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kwargs) {
  auto* first = static_cast<function_record*>(PyCapsule_GetPointer(capsule, nullptr));
  const size_t n = size_t(PyTuple_GET_SIZE(args));
  PyObject* parent = n ? PyTuple_GET_ITEM(args, 0) : nullptr;
  if (first->is_constructor) {
    auto* t = internals().base;
    if (!parent || !PyType_IsSubtype(Py_TYPE(parent), t)) { PyErr_SetString(PyExc_TypeError, "__init__(self, ...) called with invalid `self` argument"); return nullptr; }
    if (reinterpret_cast<instance*>(parent)->value) Py_RETURN_NONE; // initialised already
  }
  PyObject* result = try_next(); std::vector<PyObject*> used; function_record* hit = nullptr;
  try {
    for (int pass = first->next ? 0 : 1; pass < 2 && result == try_next(); pass++)
      for (auto* f = first; f && result == try_next(); f = f->next.get()) {
        if (n > f->nargs || (n < f->nargs && f->args.empty())) continue;
        std::vector<PyObject*> a; for (size_t k = 0; k < n; k++) a.push_back(PyTuple_GET_ITEM(args, Py_ssize_t(k)));
        size_t kw = kwargs ? size_t(PyDict_Size(kwargs)) : 0, took = 0; bool ok = true;
        for (size_t k = 0; k < n && k < f->args.size() && kw; k++) if (!f->args[k].first.empty() && PyDict_GetItemString(kwargs, f->args[k].first.c_str())) ok = false; // given twice
        for (size_t k = n; ok && k < f->nargs; k++) {
          PyObject* v = nullptr; auto& d = f->args[k];
          if (kw && !d.first.empty()) v = PyDict_GetItemString(kwargs, d.first.c_str());
          if (v) took++; else v = d.second.ptr();
          if (!v) ok = false; else a.push_back(v);
        }
        if (!ok || took != kw || a.size() != f->nargs) continue;
        try { result = f->impl(a, pass == 1, parent, *f); } catch (const reference_cast_error&) { result = try_next(); }
        if (result != try_next()) { used = a; hit = f; }
      }
    if (result == try_next()) {
      if (first->is_operator_) { Py_RETURN_NOTIMPLEMENTED; }
      PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", first->name.c_str()); return nullptr;
    }
    if (!result) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!"); return nullptr; }
    for (auto& ka : hit->alive) {
      auto which = [&](int k) { return k == 0 ? result : size_t(k) <= used.size() ? used[size_t(k) - 1] : nullptr; };
      keep_alive_impl(which(ka.first), which(ka.second));
    }
    return result;
  } catch (...) {
    if (result && result != try_next()) Py_DECREF(result);
    translate(std::current_exception()); return nullptr;
  }
}

namespace detail {
inline void process(function_record& r, const arg& a, bool method) { if (method && r.args.empty()) r.args.emplace_back("self", object()); r.args.emplace_back(a.name, object()); }
inline void process(function_record& r, const arg_v& a, bool method) {
  if (!a.value) throw std::runtime_error("default argument cannot be converted");
  if (method && r.args.empty()) r.args.emplace_back("self", object()); r.args.emplace_back(a.name, a.value);
}
inline void process(function_record& r, const is_operator&, bool) { r.is_operator_ = true; }
inline void process(function_record& r, return_value_policy p, bool) { r.policy = p; }
inline void process(function_record&, const char*, bool) {}
inline void process(function_record&, const doc&, bool) {}
template <int N, int P> void process(function_record& r, const keep_alive<N, P>&, bool) { r.alive.emplace_back(N, P); }
inline void process(function_record&, const is_method&, bool) {}
inline void process(function_record&, const name&, bool) {}
template <class... G> void process(function_record& r, const call_guard<G...>&, bool) {
  r.impl_guard = [](const std::function<void()>& f) { std::tuple<G...> g; f(); };
}

template <class R, class... A, class F, class... Extra>
std::unique_ptr<function_record> make_record(const char* name, F f, R (*)(A...), bool method, const Extra&... extra) {
  auto r = std::make_unique<function_record>(); r->name = name; r->nargs = sizeof...(A);
  (process(*r, extra, method), ...);
  if (!r->args.empty() && r->args.size() != r->nargs) throw std::runtime_error(std::string(name) + ": number of annotated arguments differs from the number of parameters"); // a static_assert in pybind11
  r->impl = [f = std::move(f)](std::vector<PyObject*>& a, bool convert, PyObject* parent, function_record& rec) mutable -> PyObject* {
    std::tuple<make_caster<std::remove_pointer_t<A>>...> c;
    return [&]<size_t... I>(std::index_sequence<I...>) -> PyObject* {
      bool ok = true; ((ok = ok && std::get<I>(c).load(a[I], convert)), ...); if (!ok) return try_next();
      if constexpr (std::is_void_v<R>) {
        if (rec.impl_guard) rec.impl_guard([&] { f(pass<A>(std::get<I>(c))...); }); else f(pass<A>(std::get<I>(c))...);
        Py_RETURN_NONE;
      } else if (rec.impl_guard) {
        if constexpr (std::is_reference_v<R>) { std::remove_reference_t<R>* r = nullptr; rec.impl_guard([&] { r = std::addressof(f(pass<A>(std::get<I>(c))...)); }); return make_caster<R>::cast(std::forward<R>(*r), rec.policy, parent); }
        else { std::optional<R> r; rec.impl_guard([&] { r.emplace(f(pass<A>(std::get<I>(c))...)); }); return make_caster<R>::cast(std::move(*r), rec.policy, parent); }
      } else return make_caster<R>::cast(std::forward<R>(f(pass<A>(std::get<I>(c))...)), rec.policy, parent);
    }(std::index_sequence_for<A...>());
  };
  return r;
}
template <> struct caster<value_and_holder> { value_and_holder v{}; bool load(PyObject* o, bool) { v.self = reinterpret_cast<instance*>(o); return true; } value_and_holder& get() { return v; } };

template <class F> struct signature;
template <class C, class R, class... A> struct signature<R (C::*)(A...) const> { using type = R (*)(A...); };
template <class C, class R, class... A> struct signature<R (C::*)(A...)> { using type = R (*)(A...); };
template <class C, class R, class... A> struct signature<R (C::*)(A...) const noexcept> { using type = R (*)(A...); };
template <class F, class... E> auto record_of(const char* n, F f, bool method, const E&... e) {
  if constexpr (std::is_pointer_v<F>) return [&]<class R, class... A>(R (*p)(A...)) { return make_record(n, p, p, method, e...); }(f);
  else return make_record(n, f, typename signature<decltype(&F::operator())>::type(nullptr), method, e...);
}
/// member functions of T (or a base) as functions of an object
template <class T, class R, class C, class... A> auto method(R (C::*f)(A...) const) { return [f](const T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <class T, class R, class C, class... A> auto method(R (C::*f)(A...)) { return [f](T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <class T, class R, class C, class... A> auto method(R (C::*f)(A...) const noexcept) { return [f](const T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; }
template <class T, class F> auto method(F f) { return f; }

inline function_record* existing(PyObject* scope, const char* name, bool is_type) {
  PyObject* f = is_type ? PyDict_GetItemString(reinterpret_cast<PyTypeObject*>(scope)->tp_dict, name) : PyDict_GetItemString(PyModule_GetDict(scope), name);
  if (f && PyInstanceMethod_Check(f)) f = PyInstanceMethod_Function(f);
  if (!f || !PyCFunction_Check(f)) return nullptr;
  auto* self = PyCFunction_GET_SELF(f); return self && PyCapsule_CheckExact(self) ? static_cast<function_record*>(PyCapsule_GetPointer(self, nullptr)) : nullptr;
}
inline object function(std::unique_ptr<function_record> r) {
  auto* p = r.release();
  p->def = PyMethodDef{p->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
  object cap(PyCapsule_New(p, nullptr, nullptr)); return object(PyCFunction_New(&p->def, cap.ptr()));
}
inline void define(PyObject* scope, const char* name, std::unique_ptr<function_record> r, bool is_type) {
  if (auto* f = existing(scope, name, is_type)) { while (f->next) f = f->next.get(); f->next = std::move(r); return; }
  object fn = function(std::move(r));
  if (is_type) fn = object(PyInstanceMethod_New(fn.ptr()));
  if (PyObject_SetAttrString(scope, name, fn.ptr())) throw error_already_set();
  if (is_type && std::string(name) == "__eq__" && !PyDict_GetItemString(reinterpret_cast<PyTypeObject*>(scope)->tp_dict, "__hash__")) PyObject_SetAttrString(scope, "__hash__", Py_None);
}
// constructors
template <class... A> struct init_ctor {
  template <class T, class Cl, class... E> static void exec(Cl& cl, const E&... e) {
    auto f = [](value_and_holder v, A... a) {
      if constexpr (std::is_constructible_v<T, A...>) adopt_new<T>(v.self, new T(std::forward<A>(a)...)); else adopt_new<T>(v.self, new T{std::forward<A>(a)...});
    };
    auto r = make_record("__init__", f, static_cast<void (*)(value_and_holder, A...)>(nullptr), true, e...); r->is_constructor = true; define(cl.ptr(), "__init__", std::move(r), true);
  }
};
template <class F> struct init_factory {
  F f;
  template <class T, class Cl, class R, class... A, class... E> void run(Cl& cl, R (*)(A...), const E&... e) const {
    auto g = [f = f](value_and_holder v, A... a) {
      R r = f(std::forward<A>(a)...);
      if constexpr (std::is_same_v<R, std::shared_ptr<T>>) { if (!r) throw type_error("pybind11::init(): factory function returned nullptr"); adopt_shared<T>(v.self, std::move(r)); }
      else if constexpr (std::is_pointer_v<R>) { if (!r) throw type_error("pybind11::init(): factory function returned nullptr"); adopt_new<T>(v.self, r); }
      else if constexpr (std::is_same_v<R, std::unique_ptr<T>>) { if (!r) throw type_error("pybind11::init(): factory function returned nullptr"); adopt_new<T>(v.self, r.release()); }
      else adopt_new<T>(v.self, new T(std::move(r)));
    };
    auto r = make_record("__init__", g, static_cast<void (*)(value_and_holder, A...)>(nullptr), true, e...); r->is_constructor = true; define(cl.ptr(), "__init__", std::move(r), true);
  }
};
// operators
struct self_t {};
template <class Tag, class L, class R> struct op_ {};
struct undefined_t {};
} // namespace detail

template <class... A> detail::init_ctor<A...> init() { return {}; }
template <class F> detail::init_factory<F> init(F f) { return {std::move(f)}; }
static const detail::self_t self = {};

// -- Modules and classes
class module_ : public object {
 public:
  explicit module_(object o) : object(std::move(o)) {}
  static module_ create(const char* name) {
    object m = borrow(PyImport_AddModule(name)); return module_(m);
  }
  template <class F, class... E> module_& def(const char* name, F&& f, const E&... e) {
    if constexpr (std::is_pointer_v<std::decay_t<F>>) detail::define(ptr(), name, detail::record_of(name, std::decay_t<F>(f), false, e...), false);
    else detail::define(ptr(), name, detail::record_of(name, std::forward<F>(f), false, e...), false);
    return *this;
  }
  module_ def_submodule(const char* name, const char* d = nullptr) {
    std::string full = std::string(PyModule_GetName(ptr())) + "." + name; module_ m = create(full.c_str());
    if (d) m.doc() = d;
    PyObject_SetAttrString(ptr(), name, m.ptr()); return m;
  }
  struct doc_t { PyObject* m; void operator=(const char* d) { PyObject_SetAttrString(m, "__doc__", object(PyUnicode_FromString(d)).ptr()); } };
  doc_t doc() { return {ptr()}; }
};
using module = module_;

template <class T, class... Options> class class_ : public object {
  template <class H> static constexpr bool is_shared = std::is_same_v<H, std::shared_ptr<T>>;
 public:
  template <class... E> class_(handle scope, const char* name, const E&...) {
    detail::held_shared<T>() = (is_shared<Options> || ...);
    object dict(PyDict_New()); object slots(PyTuple_New(0)); PyDict_SetItemString(dict.ptr(), "__slots__", slots.ptr());
    object mod(scope && PyModule_Check(scope.ptr()) ? PyUnicode_FromString(PyModule_GetName(scope.ptr())) : nullptr);
    if (mod) PyDict_SetItemString(dict.ptr(), "__module__", mod.ptr());
    p = PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type), "s(O)O", name, base_type(), dict.ptr());
    if (!p) throw error_already_set();
    if (detail::record<T>()) throw std::runtime_error(std::string("generic_type: type \"") + name + "\" is already registered!");
    internals().types[typeid(T)] = type_record{reinterpret_cast<PyTypeObject*>(p), name}; Py_INCREF(p);
    if (scope) PyObject_SetAttrString(scope.ptr(), name, p);
  }
  template <class F, class... E> class_& def(const char* name, F&& f, const E&... e) {
    detail::define(p, name, detail::record_of(name, detail::method<T>(std::forward<F>(f)), true, e...), true); return *this;
  }
  template <class... A, class... E> class_& def(const detail::init_ctor<A...>&, const E&... e) { detail::init_ctor<A...>::template exec<T>(*this, e...); return *this; }
  template <class F, class... E> class_& def(detail::init_factory<F>&& i, const E&... e) {
    if constexpr (std::is_pointer_v<F>) [&]<class R, class... A>(R (*s)(A...)) { i.template run<T>(*this, s, e...); }(F(nullptr));
    else i.template run<T>(*this, typename detail::signature<decltype(&F::operator())>::type(nullptr), e...);
    return *this;
  }
  template <class Tag, class L, class R, class... E> class_& def(const detail::op_<Tag, L, R>& o, const E&... e) { o.template exec<T>(*this, e...); return *this; }
  template <class Get, class... E> class_& property(const char* name, Get g, object setter, const E&... e) {
    object get = detail::function(detail::record_of(name, std::move(g), true, e...));
    object prop(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(), setter ? setter.ptr() : Py_None, nullptr));
    if (!prop || PyObject_SetAttrString(p, name, prop.ptr())) throw error_already_set(); return *this;
  }
  template <class C, class D, class... E> class_& def_readonly(const char* name, D C::*m, const E&... e) {
    return property(name, [m](const T& c) -> const D& { return c.*m; }, object(), return_value_policy::reference_internal, e...);
  }
  template <class C, class D, class... E> class_& def_readwrite(const char* name, D C::*m, const E&... e) {
    return property(name, [m](const T& c) -> const D& { return c.*m; }, detail::function(detail::record_of(name, [m](T& c, const D& v) { c.*m = v; }, true)), return_value_policy::reference_internal, e...);
  }
  template <class G, class S, class... E> class_& def_property(const char* name, G g, S set, const E&... e) { return property(name, detail::method<T>(std::move(g)), detail::function(detail::record_of(name, detail::method<T>(std::move(set)), true)), return_value_policy::reference_internal, e...); }
  template <class F, class... E> class_& def_static(const char* name, F f, const E&... e) {
    object fn = detail::function(detail::record_of(name, f, false, e...)); object st(PyStaticMethod_New(fn.ptr())); PyObject_SetAttrString(p, name, st.ptr()); return *this;
  }
  template <class G, class... E> class_& def_property_readonly(const char* name, G g, const E&... e) { return property(name, detail::method<T>(std::move(g)), object(), return_value_policy::reference_internal, e...); }
};

template <class E> object register_exception(handle scope, const char* name, handle base = PyExc_Exception) {
  std::string full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
  object ex(PyErr_NewException(full.c_str(), base.ptr(), nullptr)); PyObject_SetAttrString(scope.ptr(), name, ex.ptr());
  PyObject* keep = borrow(ex.ptr()).release();
  internals().translators.push_back([keep](std::exception_ptr p) { try { std::rethrow_exception(p); } catch (const E& e) { PyErr_SetString(keep, e.what()); return true; } catch (...) { return false; } });
  return ex;
}
template <class F> void register_exception_translator(F f) {
  internals().translators.push_back([f](std::exception_ptr p) { try { f(p); return true; } catch (...) { return false; } });
}

namespace detail { template <class I, class S> struct iterator_state { I it; S end; bool first = true; }; }
template <return_value_policy P = return_value_policy::reference_internal, class I, class S, class... E>
object make_iterator(I first, S last, const E&... e) {
  using State = detail::iterator_state<I, S>;
  if (!detail::record<State>())
    class_<State>(handle(), "iterator").def("__iter__", [](State& s) -> State& { return s; }, return_value_policy::reference)
      .def("__next__", [](State& s) -> decltype(*first) { if (!s.first) ++s.it; else s.first = false; if (s.it == s.end) { s.first = true; throw stop_iteration(); } return *s.it; }, P, e...);
  return object(detail::caster<State>::cast(State{first, last, true}, return_value_policy::move, nullptr));
}
struct none : object { none() : object(borrow(Py_None)) {} explicit none(object o) : object(std::move(o)) {} static bool check(PyObject* o) { return o == Py_None; } };
struct str : object { explicit str(object o) : object(std::move(o)) {} str(const std::string& s) : object(PyUnicode_FromStringAndSize(s.data(), Py_ssize_t(s.size()))) {} static bool check(PyObject* o) { return PyUnicode_Check(o); } };
struct tuple : object { explicit tuple(object o) : object(std::move(o)) {} static bool check(PyObject* o) { return PyTuple_Check(o); } size_t size() const { return size_t(PyTuple_Size(p)); } object operator[](size_t i) const { return borrow(PyTuple_GetItem(p, Py_ssize_t(i))); } };
struct list : object { list() : object(PyList_New(0)) {} explicit list(object o) : object(std::move(o)) {} static bool check(PyObject* o) { return PyList_Check(o); } size_t size() const { return size_t(PyList_Size(p)); } object operator[](size_t i) const { return borrow(PyList_GetItem(p, Py_ssize_t(i))); } template <class T> void append(T&& v) { object x = pybind11::cast(std::forward<T>(v)); PyList_Append(p, x.ptr()); } };
template <class... A> tuple make_tuple(A&&... a) { object t(PyTuple_New(sizeof...(A))); Py_ssize_t k = 0; ((PyTuple_SET_ITEM(t.ptr(), k++, pybind11::cast(std::forward<A>(a), return_value_policy::automatic_reference).release())), ...); return tuple(t); }
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...) namespace pybind11::detail { template <> struct caster<__VA_ARGS__> : class_caster<__VA_ARGS__> {}; }
#define PYBIND11_MODULE(name, variable) \
  static void pybind11_init_##name(::pybind11::module_&); \
  extern "C" PyObject* PyInit_##name() { \
    try { auto m = ::pybind11::module_::create("signal_tl." #name); pybind11_init_##name(m); return m.release(); } \
    catch (...) { if (!PyErr_Occurred()) ::pybind11::translate(std::current_exception()); return nullptr; } \
  } \
  void pybind11_init_##name(::pybind11::module_& variable)
