// bind_vector and bind_map without PYBIND11_MAKE_OPAQUE: the classes exist, but as stl.h converts these
// types, functions take lists and dicts, and the members of the classes are of no use.  Only construction is here.
#pragma once
#include "pybind11.h"
namespace pybind11 {
template <class V, class H = std::unique_ptr<V>, class... E> class_<V, H> bind_vector(handle scope, const std::string& name, const E&... e) { class_<V, H> c(scope, name.c_str(), e...); c.def(init<>()); return c; }
template <class M, class H = std::unique_ptr<M>, class... E> class_<M, H> bind_map(handle scope, const std::string& name, const E&... e) { class_<M, H> c(scope, name.c_str(), e...); c.def(init<>()); return c; }
} // namespace pybind11
