// Glue to rtbot::Program / rtbot::FactoryOp for generated programs.
#pragma once
#include "pre.h"

#include "genjson.h"
#include "native.h"
#include "rtbot/FactoryOp.h"
#include "rtbot/Program.h"

namespace api {
using gen::Event;
using gen::Prog;
using json = nlohmann::json;
using nat::OM;
using nat::PM;
using rtbot::Bytes;
using rtbot::FactoryOp;
using rtbot::Program;

using Batch = std::vector<Event>;

inline OM message(const Batch& b) {
  OM om;
  for (auto& e : b) om[e.port].push_back(nat::conv(e.m));
  return om;
}

// cut a history into calls; a call with several ports is delivered port by port
inline std::vector<Batch> batches(pbt::Source& s, const std::vector<Event>& ev, bool several) {
  std::vector<Batch> r;
  if (!several) {
    for (auto& e : ev) r.push_back({e});
    return r;
  }
  int mode = (int)s.below(3);
  size_t i = 0;
  while (i < ev.size()) {
    size_t n = mode == 0 ? (size_t)s.range(1, 4) : mode == 1 ? (size_t)s.range(1, 12) : (s.chance(1, 3) ? 1 : ev.size());
    if (ev.size() > 100 && !s.chance(1, 6)) n = (size_t)s.range(1, ev.size() / (s.flip() ? 1 : 5));
    n = std::min(n, ev.size() - i);
    r.push_back(Batch(ev.begin() + i, ev.begin() + i + n));
    i += n;
  }
  return r;
}

// a call that has several ports delivers them in the order of the port names
inline Batch delivered(const Batch& b) {
  Batch r = b;
  std::stable_sort(r.begin(), r.end(), [](const Event& a, const Event& c) { return a.port < c.port; });
  return r;
}

// the same messages, NaN aware
inline bool same(const nat::OM& a, const nat::OM& b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) {
    if (i->first != j->first || i->second.size() != j->second.size()) return false;
    for (size_t k = 0; k < i->second.size(); k++) {
      double x = i->second[k].value, y = j->second[k].value;
      if (i->second[k].time != j->second[k].time) return false;
      if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
    }
  }
  return true;
}
inline bool same(const PM& a, const PM& b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !same(i->second, j->second)) return false;
  return true;
}
inline bool same(const ref::Stream& a, const ref::Stream& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].t != b[i].t || !(a[i].v == b[i].v || (std::isnan(a[i].v) && std::isnan(b[i].v)))) return false;
  return true;
}
inline size_t count(const PM& a) {
  size_t n = 0;
  for (auto& [id, om] : a)
    for (auto& [p, ms] : om) n += ms.size();
  return n;
}

// the part of a full trace selected by an output map
inline PM filtered(const PM& all, const std::map<std::string, std::vector<std::string>>& output) {
  if (output.empty()) return all;
  PM r;
  for (auto& [id, ports] : output)
    for (auto& p : ports) {
      auto i = all.find(id);
      if (i == all.end()) continue;
      auto j = i->second.find(p);
      if (j != i->second.end()) r[id][p] = j->second;
    }
  return r;
}

inline PM without_empty(const PM& a) {
  PM r;
  for (auto& [id, om] : a)
    for (auto& [p, ms] : om)
      if (!ms.empty()) r[id][p] = ms;
  return r;
}

// What a call did: its result, or that it threw. A demultiplexer refuses some inputs by throwing; whatever
// the engine does then has to be the same for all the instances.
struct Outcome {
  bool threw = false;
  PM out;
  std::string what;
};
template <class F>
Outcome attempt(F f) {
  Outcome o;
  try {
    o.out = f();
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
  }
  return o;
}
inline bool same(const Outcome& a, const Outcome& b) { return a.threw == b.threw && same(a.out, b.out); }
inline std::string show(const Outcome& o) { return o.threw ? "threw: " + o.what : nat::show(o.out); }

inline void log_case(pbt::Ctx& c, const std::string& def, const std::vector<Batch>& calls) {
  c.log([&](std::ostream& o) {
    o.precision(17);
    o << "program " << def << "\ncalls";
    for (auto& b : calls) {
      o << " [";
      gen::show_events(o, b);
      o << " ]";
    }
    o << "\n";
  });
}
}  // namespace api
