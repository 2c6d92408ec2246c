// Glue to the code under test (public API only).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "rtbot/Message.h"
#include "rtbot/Operator.h"

#include "ref.h"

namespace nat {
using T = uint64_t;
using V = double;
using PM = rtbot::ProgramMessage<T, V>;
using OM = rtbot::OperatorMessage<T, V>;
using NMsg = rtbot::Message<T, V>;

inline ref::Msg conv(const NMsg& m) { return {(int64_t)m.time, m.value}; }
inline NMsg conv(const ref::Msg& m) { return NMsg((T)m.t, m.v); }

using Trace = std::map<std::string, ref::Ports>;

inline void append(Trace& tr, const PM& pm) {
  for (auto& [id, om] : pm)
    for (auto& [port, ms] : om) {
      auto& st = tr[id][port];
      for (auto& m : ms) st.push_back(conv(m));
    }
}
inline Trace trace(const PM& pm) {
  Trace t;
  append(t, pm);
  return t;
}
inline bool same(const PM& a, const PM& b) { return a == b; }
inline std::string show(const PM& pm) {
  std::ostringstream o;
  o.precision(17);
  o << "{";
  for (auto& [id, om] : pm) {
    o << id << ":{";
    for (auto& [port, ms] : om) {
      o << port << ":[";
      for (auto& m : ms) o << "(" << m.time << "," << m.value << ")";
      o << "]";
    }
    o << "} ";
  }
  o << "}";
  return o.str();
}
}  // namespace nat
