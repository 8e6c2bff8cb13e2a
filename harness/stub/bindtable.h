// stands in for the binding libraries (pybind11, embind), which are not installed: records what is exposed under which name,
// and calls it with values converted the way those libraries convert them
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#ifndef BINDTABLE_WHOLE
#define BINDTABLE_WHOLE uint64_t
#endif
namespace bindtable {
struct Arg {
  int kind;  // 0 text 1 whole number 2 fraction 3 whole numbers 4 fractions 5 texts
  std::string s;
  uint64_t u = 0;
  double d = 0;
  std::vector<uint64_t> us;
  std::vector<double> ds;
  std::vector<std::string> ss;
  Arg(const char* x) : kind(0), s(x) {}
  Arg(const std::string& x) : kind(0), s(x) {}
  Arg(uint64_t x) : kind(1), u(x) {}
  Arg(double x) : kind(2), d(x) {}
  Arg(const std::vector<uint64_t>& x) : kind(3), us(x) {}
  Arg(const std::vector<double>& x) : kind(4), ds(x) {}
  Arg(const std::vector<std::string>& x) : kind(5), ss(x) {}
};
template <class X, class = void> struct Conv { static bool can(const Arg&) { return false; } static X get(const Arg&) { throw std::runtime_error("no conversion"); } };
template <> struct Conv<std::string> { static bool can(const Arg& a) { return a.kind == 0; } static std::string get(const Arg& a) { return a.s; } };
template <> struct Conv<const char*> { static bool can(const Arg& a) { return a.kind == 0; } static const char* get(const Arg& a) { return a.s.c_str(); } };
template <class X> struct Conv<X, std::enable_if_t<std::is_integral_v<X>>> { static bool can(const Arg& a) { return a.kind == 1; } static X get(const Arg& a) { return (X)(BINDTABLE_WHOLE)a.u; } };
template <class X> struct Conv<X, std::enable_if_t<std::is_floating_point_v<X>>> { static bool can(const Arg& a) { return a.kind == 1 || a.kind == 2; } static X get(const Arg& a) { return a.kind == 1 ? (X)a.u : (X)a.d; } };
template <class X> struct Conv<std::vector<X>, std::enable_if_t<std::is_arithmetic_v<X>>> {
  static bool can(const Arg& a) { return a.kind == 3 || (a.kind == 4 && std::is_floating_point_v<X>); }
  static std::vector<X> get(const Arg& a) { std::vector<X> r; if (a.kind == 3) for (auto x : a.us) r.push_back((X)x); else for (auto x : a.ds) r.push_back((X)x); return r; }
};
template <> struct Conv<std::vector<std::string>> { static bool can(const Arg& a) { return a.kind == 5; } static std::vector<std::string> get(const Arg& a) { return a.ss; } };
template <class X> using Bare = std::remove_cv_t<std::remove_reference_t<X>>;
struct Any {
  virtual ~Any() {}
  virtual bool can(const std::vector<Arg>&) = 0;
  virtual std::string call(const std::vector<Arg>&) = 0;
};
template <class F, class R, class... A> struct Fn : Any {
  F f;
  Fn(F x) : f(x) {}
  template <size_t... I> bool canAll(const std::vector<Arg>& a, std::index_sequence<I...>) { return (true && ... && Conv<Bare<A>>::can(a[I])); }
  bool can(const std::vector<Arg>& a) override { return a.size() == sizeof...(A) && canAll(a, std::index_sequence_for<A...>()); }
  template <size_t... I> std::string run(const std::vector<Arg>& a, std::index_sequence<I...>) {
    std::tuple<Bare<A>...> v{Conv<Bare<A>>::get(a[I])...};
    if constexpr (std::is_convertible_v<R, std::string>) return f(std::get<I>(v)...);
    else { f(std::get<I>(v)...); return "\"not text\""; }
  }
  std::string call(const std::vector<Arg>& a) override { return run(a, std::index_sequence_for<A...>()); }
};
struct Entry { std::string name; std::shared_ptr<Any> f; };
inline std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
template <class R, class... A> void add(const char* name, R (*f)(A...)) { table().push_back({name, std::make_shared<Fn<R (*)(A...), R, A...>>(f)}); }
template <class F, class R, class... A> void addCallable(const char* name, F f, R (F::*)(A...) const) { table().push_back({name, std::make_shared<Fn<F, R, A...>>(f)}); }
template <class F, class R, class... A> void addCallable(const char* name, F f, R (F::*)(A...)) { table().push_back({name, std::make_shared<Fn<F, R, A...>>(f)}); }
template <class F, class = decltype(&F::operator())> void add(const char* name, F f) { addCallable(name, f, &F::operator()); }
// call by name as the host language does
inline std::string call(const char* name, const std::vector<Arg>& a) {
  for (auto& e : table()) if (e.name == name && e.f->can(a)) return e.f->call(a);
  throw std::logic_error("nothing of that name takes these arguments");
}
}  // namespace bindtable
