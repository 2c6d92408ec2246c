// Stand-in for pybind11: a module is a table of functions.
#pragma once
#include <string>

#include "../../host/host.h"

namespace pybind11 {
namespace literals {}
class module_ {
  std::string doc_;

 public:
  std::string& doc() { return doc_; }
  template <class R, class... A, class... Extra>
  module_& def(const char* name, R (*f)(A...), const Extra&...) {
    host::def(name, f);
    return *this;
  }
};
using module = module_;
template <class... A>
struct overload_cast_t {
  template <class R>
  constexpr auto operator()(R (*f)(A...)) const { return f; }
};
template <class... A>
constexpr overload_cast_t<A...> overload_cast{};
struct arg {
  const char* n;
  arg(const char* x) : n(x) {}
};
namespace literals {
inline arg operator""_a(const char* s, size_t) { return arg(s); }
}
}  // namespace pybind11
#define PYBIND11_MODULE(name, m)                        \
  static void host_init_##name(pybind11::module_& m);   \
  static const bool host_done_##name = [] {             \
    static pybind11::module_ m;                         \
    host_init_##name(m);                                \
    return true;                                        \
  }();                                                  \
  static void host_init_##name(pybind11::module_& m)
