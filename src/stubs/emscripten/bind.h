// Stand-in for embind: the bound functions end up in a table.
#pragma once
#include <string>
#include <type_traits>
#include <vector>

#include "../../host/host.h"

namespace emscripten {
class val {
 public:
  template <class T>
  static val array(const std::vector<T>&) { return val(); }
};
template <class T>
std::vector<T> vecFromJSArray(const val&) { return {}; }
namespace internal {
using TYPEID = const void*;
template <class T, class = void>
struct BindingType;
template <>
struct BindingType<val> {
  using WireType = void*;
  static WireType toWireType(const val&) { return nullptr; }
  static val fromWireType(WireType) { return val(); }
};
template <class T, class = void>
struct TypeID {
  static constexpr TYPEID get() { return nullptr; }
};
template <class T>
struct Canonicalized {
  using type = std::remove_cv_t<std::remove_reference_t<T>>;
};
}  // namespace internal
template <class R, class... A, class... Policies>
void function(const char* name, R (*f)(A...), Policies...) {
  host::def(name, f);
}
template <class C>
struct value_object {
  value_object(const char*) {}
  template <class F>
  value_object& field(const char*, F C::*) { return *this; }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name)             \
  static void host_init_##name();             \
  static const bool host_done_##name = [] {   \
    host_init_##name();                       \
    return true;                              \
  }();                                        \
  static void host_init_##name()
