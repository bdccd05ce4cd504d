#pragma once
#include "pybind11.h"
namespace pybind11::detail {
#define PYSTUB_OP(sym, nm, rnm) \
  struct tag_##nm {}; \
  template <> struct op_<tag_##nm, self_t, self_t> { template <class T, class C, class... E> void exec(C& c, const E&... e) const { c.def("__" #nm "__", [](const T& l, const T& r) { return l sym r; }, is_operator(), e...); } }; \
  template <class R> struct op_<tag_##nm, self_t, R> { template <class T, class C, class... E> void exec(C& c, const E&... e) const { c.def("__" #nm "__", [](const T& l, const R& r) { return l sym r; }, is_operator(), e...); } }; \
  template <class L> struct op_<tag_##nm, L, self_t> { template <class T, class C, class... E> void exec(C& c, const E&... e) const { c.def("__" #rnm "__", [](const T& r, const L& l) { return l sym r; }, is_operator(), e...); } }; \
  inline op_<tag_##nm, self_t, self_t> operator sym(const self_t&, const self_t&) { return {}; } \
  template <class T> op_<tag_##nm, self_t, T> operator sym(const self_t&, const T&) { return {}; } \
  template <class T> op_<tag_##nm, T, self_t> operator sym(const T&, const self_t&) { return {}; }
PYSTUB_OP(<, lt, gt) PYSTUB_OP(<=, le, ge) PYSTUB_OP(>, gt, lt) PYSTUB_OP(>=, ge, le) PYSTUB_OP(==, eq, eq) PYSTUB_OP(!=, ne, ne)
PYSTUB_OP(&, and, rand) PYSTUB_OP(|, or, ror) PYSTUB_OP(+, add, radd) PYSTUB_OP(-, sub, rsub) PYSTUB_OP(*, mul, rmul) PYSTUB_OP(/, truediv, rtruediv) PYSTUB_OP(>>, rshift, rrshift) PYSTUB_OP(<<, lshift, rlshift) PYSTUB_OP(^, xor, rxor)
#undef PYSTUB_OP
#define PYSTUB_UN(sym, nm) \
  struct tag_##nm {}; \
  template <> struct op_<tag_##nm, self_t, undefined_t> { template <class T, class C, class... E> void exec(C& c, const E&... e) const { c.def("__" #nm "__", [](const T& l) { return sym l; }, is_operator(), e...); } }; \
  inline op_<tag_##nm, self_t, undefined_t> operator sym(const self_t&) { return {}; }
PYSTUB_UN(-, neg) PYSTUB_UN(~, invert) PYSTUB_UN(!, bool)
#undef PYSTUB_UN
} // namespace pybind11::detail
