#pragma once
#include "bindtable.h"
namespace pybind11 {
struct arg { const char* n; explicit arg(const char* x) : n(x) {} template <class X> arg& operator=(const X&) { return *this; } template <class X> arg& operator=(const X&) const { return *const_cast<arg*>(this); } };
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <class... X> struct call_guard {};
enum class return_value_policy { automatic, copy, move, reference, take_ownership };
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
template <class... A> struct overload_cast_t {
  template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
};
template <class... A> constexpr overload_cast_t<A...> overload_cast{};
struct module_ {
  std::string d;
  std::string& doc() { return d; }
  template <class F, class... X> module_& def(const char* name, F&& f, const X&...) { bindtable::add(name, std::decay_t<F>(f)); return *this; }
};
using module = module_;
}  // namespace pybind11
#define PYBIND11_MODULE(name, m) void bindtable_init(pybind11::module_& m)
