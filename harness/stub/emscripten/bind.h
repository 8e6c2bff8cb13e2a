#pragma once
// long has 32 bits where this module runs, and a longer integer is no number of the host language
#define BINDTABLE_WHOLE uint32_t
#include "bindtable.h"
namespace emscripten {
struct val {
  template <class X> static val array(const X&) { return val(); }
};
namespace internal {
typedef const void* TYPEID;
template <class X> struct Canonicalized { typedef bindtable::Bare<X> type; };
template <class X, class = void> struct BindingType;
template <> struct BindingType<val> { typedef void* WireType; static WireType toWireType(const val&) { return nullptr; } static val fromWireType(WireType) { return val(); } };
template <class X, class = void> struct TypeID { static constexpr TYPEID get() { return nullptr; } };
}  // namespace internal
template <class X> std::vector<X> vecFromJSArray(const val&) { return {}; }
template <class X> std::vector<X> convertJSArrayToNumberVector(const val&) { return {}; }
template <class... X> struct allow_raw_pointers {};
template <class S> S* select_overload(S* f) { return f; }
template <class R, class... A, class... X> void function(const char* name, R (*f)(A...), X...) { bindtable::add(name, f); }
template <class F, class... X, class = decltype(&F::operator())> void function(const char* name, F f, X...) { bindtable::add(name, f); }
struct Field { std::string name; std::function<double(const void*)> num; std::function<uint64_t(const void*)> whole; };
inline std::vector<Field>& fields() { static std::vector<Field> f; return f; }
template <class O> struct value_object {
  value_object(const char*) {}
  template <class X> value_object& field(const char* n, X O::*p) {
    fields().push_back({n, [p](const void* o) { return (double)(((const O*)o)->*p); }, [p](const void* o) { return (uint64_t)(((const O*)o)->*p); }});
    return *this;
  }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name) void bindtable_init()
