// A table of the functions a binding exposes (pybind11, embind), callable with JSON arguments from a child process.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace host {
using nlohmann::json;
using Fn = std::function<json(const json&)>;
std::map<std::string, Fn>& table();

template <class T>
struct As {
  static T get(const json& j) { return j.get<T>(); }
};
template <>
struct As<double> {
  static double get(const json& j) {
    if (j.is_null()) return std::numeric_limits<double>::quiet_NaN();
    if (!j.is_number()) throw std::invalid_argument("incompatible function arguments: not a number: " + j.dump());
    return j.get<double>();
  }
};
template <class U>
U natural(const json& j) {
  if (!j.is_number_integer() || (!j.is_number_unsigned() && j.get<int64_t>() < 0))
    throw std::invalid_argument("incompatible function arguments: not an unsigned integer: " + j.dump());
  if (j.get<uint64_t>() > std::numeric_limits<U>::max()) throw std::invalid_argument("integer out of range: " + j.dump());
  return j.get<U>();
}
template <>
struct As<unsigned long> {
  static unsigned long get(const json& j) { return natural<unsigned long>(j); }
};
template <>
struct As<unsigned int> {
  static unsigned int get(const json& j) { return natural<unsigned int>(j); }
};
template <class T>
struct As<std::vector<T>> {
  static std::vector<T> get(const json& j) {
    std::vector<T> r;
    for (auto& x : j) r.push_back(As<T>::get(x));
    return r;
  }
};

template <class R, class... A, size_t... I>
json call(R (*f)(A...), const json& args, std::index_sequence<I...>) {
  if (args.size() != sizeof...(A)) throw std::invalid_argument("incompatible function arguments: wrong number of them");
  if constexpr (std::is_void_v<R>) {
    f(As<std::decay_t<A>>::get(args[I])...);
    return nullptr;
  } else
    return f(As<std::decay_t<A>>::get(args[I])...);
}
template <class R, class... A>
void def(const char* name, R (*f)(A...)) {
  table()[name] = [f](const json& args) { return call(f, args, std::index_sequence_for<A...>()); };
}
}  // namespace host
