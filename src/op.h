// Define WITH_<Type> for every operator needed before including this file (compile time matters).
// Single operators driven through their public interface and compared, delivery by delivery, with the
// reference definition.
#pragma once
#include "pre.h"

#ifdef WITH_Demultiplexer
#include "rtbot/Demultiplexer.h"
#endif
#ifdef WITH_Input
#include "rtbot/Input.h"
#endif
#ifdef WITH_Join
#include "rtbot/Join.h"
#endif
#include "rtbot/Message.h"
#include "rtbot/Operator.h"
#ifdef WITH_Output
#include "rtbot/Output.h"
#endif
#ifdef WITH_RelativeStrengthIndex
#include "rtbot/finance/RelativeStrengthIndex.h"
#endif
#ifdef WITH_Add
#include "rtbot/std/Add.h"
#endif
#ifdef WITH_And
#include "rtbot/std/And.h"
#endif
#ifdef WITH_AutoRegressive
#include "rtbot/std/AutoRegressive.h"
#endif
#ifdef WITH_Constant
#include "rtbot/std/Constant.h"
#endif
#ifdef WITH_ConstantResampler
#include "rtbot/std/ConstantResampler.h"
#endif
#ifdef WITH_CosineResampler
#include "rtbot/std/CosineResampler.h"
#endif
#ifdef WITH_Count
#include "rtbot/std/Count.h"
#endif
#ifdef WITH_CumulativeSum
#include "rtbot/std/CumulativeSum.h"
#endif
#ifdef WITH_Difference
#include "rtbot/std/Difference.h"
#endif
#ifdef WITH_Division
#include "rtbot/std/Division.h"
#endif
#ifdef WITH_EqualTo
#include "rtbot/std/EqualTo.h"
#endif
#ifdef WITH_FiniteImpulseResponse
#include "rtbot/std/FiniteImpulseResponse.h"
#endif
#ifdef WITH_Function
#include "rtbot/std/Function.h"
#endif
#ifdef WITH_GreaterThan
#include "rtbot/std/GreaterThan.h"
#endif
#ifdef WITH_GreaterThanStream
#include "rtbot/std/GreaterThanStream.h"
#endif
#ifdef WITH_HermiteResampler
#include "rtbot/std/HermiteResampler.h"
#endif
#ifdef WITH_Identity
#include "rtbot/std/Identity.h"
#endif
#ifdef WITH_LessThan
#include "rtbot/std/LessThan.h"
#endif
#ifdef WITH_LessThanStream
#include "rtbot/std/LessThanStream.h"
#endif
#ifdef WITH_Linear
#include "rtbot/std/Linear.h"
#endif
#ifdef WITH_Minus
#include "rtbot/std/Minus.h"
#endif
#ifdef WITH_MovingAverage
#include "rtbot/std/MovingAverage.h"
#endif
#ifdef WITH_Multiplication
#include "rtbot/std/Multiplication.h"
#endif
#ifdef WITH_Or
#include "rtbot/std/Or.h"
#endif
#ifdef WITH_PeakDetector
#include "rtbot/std/PeakDetector.h"
#endif
#ifdef WITH_Plus
#include "rtbot/std/Plus.h"
#endif
#ifdef WITH_Power
#include "rtbot/std/Power.h"
#endif
#ifdef WITH_Scale
#include "rtbot/std/Scale.h"
#endif
#ifdef WITH_StandardDeviation
#include "rtbot/std/StandardDeviation.h"
#endif
#ifdef WITH_TimeShift
#include "rtbot/std/TimeShift.h"
#endif
#ifdef WITH_Variable
#include "rtbot/std/Variable.h"
#endif

#include "gen.h"

namespace op {
using gen::Node;
using ref::Msg;
using ref::Ports;
using ref::Stream;
template <class T>
using Op = rtbot::Operator<T, double>;
template <class T>
using OpPtr = std::unique_ptr<Op<T>>;

template <class T>
OpPtr<T> make(const Node& n) {
  using namespace rtbot;
  using V = double;
  auto& t = n.type;
  auto& p = n.p;
  auto& id = n.id;
#ifdef WITH_Input
  if (t == "Input") return std::make_unique<Input<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_Output
  if (t == "Output") return std::make_unique<Output<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_Join
  if (t == "Join") return std::make_unique<Join<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_Demultiplexer
  if (t == "Demultiplexer") return std::make_unique<Demultiplexer<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_Linear
  if (t == "Linear") return std::make_unique<Linear<T, V>>(id, p.coeff);
#endif
#ifdef WITH_Plus
  if (t == "Plus") return std::make_unique<Plus<T, V>>(id);
#endif
#ifdef WITH_Minus
  if (t == "Minus") return std::make_unique<Minus<T, V>>(id);
#endif
#ifdef WITH_Multiplication
  if (t == "Multiplication") return std::make_unique<Multiplication<T, V>>(id);
#endif
#ifdef WITH_Division
  if (t == "Division") return std::make_unique<Division<T, V>>(id);
#endif
#ifdef WITH_And
  if (t == "And") return std::make_unique<And<T, V>>(id);
#endif
#ifdef WITH_Or
  if (t == "Or") return std::make_unique<Or<T, V>>(id);
#endif
#ifdef WITH_GreaterThanStream
  if (t == "GreaterThanStream") return std::make_unique<GreaterThanStream<T, V>>(id);
#endif
#ifdef WITH_LessThanStream
  if (t == "LessThanStream") return std::make_unique<LessThanStream<T, V>>(id);
#endif
#ifdef WITH_Add
  if (t == "Add") return std::make_unique<Add<T, V>>(id, p.value);
#endif
#ifdef WITH_Scale
  if (t == "Scale") return std::make_unique<Scale<T, V>>(id, p.value);
#endif
#ifdef WITH_Power
  if (t == "Power") return std::make_unique<Power<T, V>>(id, p.value);
#endif
#ifdef WITH_Constant
  if (t == "Constant") return std::make_unique<Constant<T, V>>(id, p.value);
#endif
#ifdef WITH_Identity
  if (t == "Identity") return std::make_unique<Identity<T, V>>(id);
#endif
#ifdef WITH_GreaterThan
  if (t == "GreaterThan") return std::make_unique<GreaterThan<T, V>>(id, p.value);
#endif
#ifdef WITH_LessThan
  if (t == "LessThan") return std::make_unique<LessThan<T, V>>(id, p.value);
#endif
#ifdef WITH_EqualTo
  if (t == "EqualTo") return std::make_unique<EqualTo<T, V>>(id, p.value);
#endif
#ifdef WITH_Count
  if (t == "Count") return std::make_unique<Count<T, V>>(id);
#endif
#ifdef WITH_CumulativeSum
  if (t == "CumulativeSum") return std::make_unique<CumulativeSum<T, V>>(id);
#endif
#ifdef WITH_MovingAverage
  if (t == "MovingAverage") return std::make_unique<MovingAverage<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_StandardDeviation
  if (t == "StandardDeviation") return std::make_unique<StandardDeviation<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_PeakDetector
  if (t == "PeakDetector") return std::make_unique<PeakDetector<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_FiniteImpulseResponse
  if (t == "FiniteImpulseResponse") return std::make_unique<FiniteImpulseResponse<T, V>>(id, p.coeff);
#endif
#ifdef WITH_Difference
  if (t == "Difference") return std::make_unique<Difference<T, V>>(id, p.oldest);
#endif
#ifdef WITH_AutoRegressive
  if (t == "AutoRegressive") return std::make_unique<AutoRegressive<T, V>>(id, p.coeff);
#endif
#ifdef WITH_TimeShift
  if (t == "TimeShift") return std::make_unique<TimeShift<T, V>>(id, (T)p.n, (int)p.times);
#endif
#ifdef WITH_Function
  if (t == "Function") return std::make_unique<Function<T, V>>(id, p.points, p.hermite ? "hermite" : "linear");
#endif
#ifdef WITH_ConstantResampler
  if (t == "ConstantResampler") return std::make_unique<ConstantResampler<T, V>>(id, (T)p.n);
#endif
#ifdef WITH_CosineResampler
  if (t == "CosineResampler") return std::make_unique<CosineResampler<T, V>>(id, (T)p.n);
#endif
#ifdef WITH_HermiteResampler
  if (t == "HermiteResampler") return std::make_unique<HermiteResampler<T, V>>(id, (T)p.n);
#endif
#ifdef WITH_RelativeStrengthIndex
  if (t == "RelativeStrengthIndex") return std::make_unique<RelativeStrengthIndex<T, V>>(id, (size_t)p.n);
#endif
#ifdef WITH_Variable
  if (t == "Variable") return std::make_unique<Variable<T, V>>(id, p.value);
#endif
  throw std::runtime_error("op: unknown type " + t);
}

// records whatever a connection delivers
template <class T>
struct Sink : public Op<T> {
  Stream got;
  explicit Sink(const std::string& id) : Op<T>(id) { this->addDataInput("i1"); }
  std::string typeName() const override { return "Sink"; }
  rtbot::OperatorMessage<T, double> processData() override { return {}; }
  void receiveData(rtbot::Message<T, double> msg, std::string) override { got.push_back({(int64_t)msg.time, msg.value}); }
  rtbot::ProgramMessage<T, double> executeData() override { return {}; }
};

template <class T>
rtbot::ProgramMessage<T, double> deliver(Op<T>& o, const std::string& port, const Msg& m) {
  rtbot::Message<T, double> msg((T)m.t, m.v);
  if (o.isControlInput(port)) {
    o.receiveControl(msg, port);
    return o.executeControl();
  }
  o.receiveData(msg, port);
  return o.executeData();
}

// every output port with a sink attached
template <class T>
struct Probe {
  OpPtr<T> o;
  std::map<std::string, std::unique_ptr<Sink<T>>> sinks;
  explicit Probe(const Node& n) : o(make<T>(n)) {
    for (auto& p : n.outs) {
      sinks[p] = std::make_unique<Sink<T>>("sink_" + p);
      o->connect(sinks[p].get(), p, "i1");
    }
  }
  // what was returned; fails when the sinks saw something else
  Ports feed(pbt::Ctx& c, const std::string& port, const Msg& m) {
    for (auto& [k, s] : sinks) s->got.clear();
    auto r = deliver(*o, port, m);
    Ports out;
    for (auto& [id, om] : r) {
      if (id != o->id) continue;
      for (auto& [p, ms] : om)
        for (auto& x : ms) out[p].push_back({(int64_t)x.time, x.value});
    }
    for (auto& [k, s] : sinks)
      if (!(s->got == ref::port(out, k)) && !gen::same_stream(s->got, ref::port(out, k), true, 0))
        c.fail("output port " + k + " returned " + gen::show(ref::port(out, k)) + " but its connection delivered " + gen::show(s->got));
    for (auto& [k, s] : out)
      if (!sinks.count(k)) c.fail("messages on an unknown output port " + k);
    return out;
  }
};

inline std::string describe(const Node& n) { return gen::node_text(n); }

// how the value of an emitted message may differ from the reference: got, want, largest magnitude so far
using Same = bool (*)(double, double, double);
inline bool exact(double g, double w, double) { return g == w || (std::isnan(g) && std::isnan(w)); }
inline bool near(double g, double w, double mag) {
  return exact(g, w, 0) || std::fabs(g - w) <= 1e-9 * mag;
}
// a few roundings of the result itself, whatever was seen before
inline bool tight(double g, double w, double) { return exact(g, w, 0) || std::fabs(g - w) <= 1e-13 * std::fabs(w); }
inline bool same_msgs(const Stream& g, const Stream& w, Same same, double mag) {
  if (g.size() != w.size()) return false;
  for (size_t i = 0; i < g.size(); i++)
    if (g[i].t != w[i].t || !same(g[i].v, w[i].v, mag)) return false;
  return true;
}

inline Stream tail(const Stream& s, size_t from) { return from >= s.size() ? Stream{} : Stream(s.begin() + from, s.end()); }

// what the values of the case are multiplied by, see magnitude()
inline double unit = 1;

// sometimes all values of a case are tiny or huge: multiplied by a power of two, so that nothing else changes
inline double magnitude(pbt::Source& s, pbt::Ctx& c) {
  unit = 1;
  if (!s.chance(1, 6)) return unit;
  int e = s.oneof({-30, -50, -120, 40});
  unit = std::ldexp(1.0, e);
  c.label(e < 0 ? "tiny values" : "huge values");
  return unit;
}
inline void magnitude(pbt::Source& s, pbt::Ctx& c, Stream& in) {
  double u = magnitude(s, c);
  for (auto& m : in) m.v *= u;
}

// Deliver the events one by one; after each the messages returned must be exactly what the definition adds
// for the longer prefix. `altEval`: a second acceptable reading (Hermite's mean gap).
template <class T>
size_t check(pbt::Ctx& c, const Node& n, const std::vector<gen::Event>& ev, Same same, bool alt = false) {
  c.log([&](std::ostream& o) {
    o.precision(17);
    o << describe(n) << (n.type == "Difference" ? (n.p.oldest ? " newest time" : " previous time") : "") << " fed";
    gen::show_events(o, ev);
  });
  Probe<T> probe(n);
  Ports in;
  std::map<std::string, size_t> seen;
  double mag = unit;
  for (auto x : n.p.coeff) mag = std::max(mag, unit * std::fabs(x));
  size_t emitted = 0;
  ref::Params p2 = n.p;
  if (alt) p2.oldest = !p2.oldest;
  for (size_t i = 0; i < ev.size(); i++) {
    in[ev[i].port].push_back(ev[i].m);
    mag = std::max(mag, std::fabs(ev[i].m.v));
    Ports want;
    try {
      want = ref::eval(n.type, n.p, in);
    } catch (const ref::Undefined&) {
      c.discard();
    }
    Ports want2;
    if (alt) want2 = ref::eval(n.type, p2, in);
    Ports got = probe.feed(c, ev[i].port, ev[i].m);
    for (auto& k : n.outs) {
      const Stream& w = ref::port(want, k);
      for (auto& m : w) mag = std::max(mag, std::fabs(m.v));
      if (w.size() < seen[k]) throw std::runtime_error("reference is not prefix-stable");
      Stream add = tail(w, seen[k]);
      const Stream& g = ref::port(got, k);
      bool ok = same_msgs(g, add, same, mag);
      if (!ok && alt) ok = same_msgs(g, tail(ref::port(want2, k), seen[k]), same, mag);
      if (!ok) {
        std::ostringstream m;
        m.precision(17);
        m << n.type << ": after delivery " << i + 1 << " (" << ev[i].port << " " << ev[i].m.t << "," << ev[i].m.v << ") port " << k
          << " emitted " << gen::show(g) << ", expected " << gen::show(add);
        c.fail(m.str());
      }
      seen[k] = w.size();
      emitted += add.size();
    }
  }
  return emitted;
}

// The same comparison for long histories: at eight points on the way and at the end.
template <class T>
void check_long(pbt::Ctx& c, const Node& n, const std::vector<gen::Event>& ev, Same same, bool alt = false) {
  c.log([&](std::ostream& o) {
    o.precision(17);
    o << describe(n) << " fed " << ev.size() << " messages";
    gen::show_events(o, ev);
  });
  Probe<T> probe(n);
  Ports in, got;
  double mag = unit;
  for (auto x : n.p.coeff) mag = std::max(mag, unit * std::fabs(x));
  for (size_t i = 0; i < ev.size(); i++) {
    in[ev[i].port].push_back(ev[i].m);
    mag = std::max(mag, std::fabs(ev[i].m.v));
    for (auto& [k, ms] : probe.feed(c, ev[i].port, ev[i].m)) got[k].insert(got[k].end(), ms.begin(), ms.end());
    if (i + 1 < ev.size() && (i + 1) % (ev.size() / 8 + 1)) continue;
    Ports want;
    try {
      want = ref::eval(n.type, n.p, in);
    } catch (const ref::Undefined&) {
      c.discard();
    }
    Ports want2;
    if (alt) {
      ref::Params p2 = n.p;
      p2.oldest = !p2.oldest;
      want2 = ref::eval(n.type, p2, in);
    }
    for (auto& k : n.outs) {
      const Stream &g = ref::port(got, k), &w = ref::port(want, k);
      for (auto& m : w) mag = std::max(mag, std::fabs(m.v));
      if (alt && same_msgs(g, ref::port(want2, k), same, mag)) continue;
      for (size_t q = 0; q < std::max(g.size(), w.size()); q++)
        if (q >= g.size() || q >= w.size() || g[q].t != w[q].t || !same(g[q].v, w[q].v, mag))
          c.fail(n.type + ": after " + std::to_string(i + 1) + " deliveries message " + std::to_string(q + 1) + " of " + k + " is " +
                 (q < g.size() ? gen::show({g[q]}) : "missing") + ", expected " + (q < w.size() ? gen::show({w[q]}) : "none"));
    }
  }
}

// strictly increasing stream for one port as events
inline std::vector<gen::Event> on_port(const std::string& port, const Stream& s) {
  std::vector<gen::Event> r;
  for (auto& m : s) r.push_back({port, m});
  return r;
}

template <class T>
void check_long(pbt::Ctx& c, const Node& n, const Stream& in, Same same, bool alt = false) {
  check_long<T>(c, n, on_port("i1", in), same, alt);
}

// arbitrary finite double, for operators that must hand values on untouched
inline double any_value(pbt::Source& s) {
  switch (s.below(6)) {
    case 0:
    case 1: return gen::value(s);
    case 2: return (double)s.range(-1000000, 1000000) / 7.0;
    case 3: return s.oneof({0.0, -0.0, 1e300, -1e300, 1e-300, 5e-324, 0.1, 1.0 / 3.0, 9007199254740993.0});
    case 4: return std::ldexp((double)s.range(1, 1 << 30), (int)s.range(-80, 80));
    default: return -std::ldexp((double)s.range(1, 1 << 30), (int)s.range(-80, 80));
  }
}

// merge per-port streams with a random lag between the ports
inline std::vector<gen::Event> interleave(pbt::Source& s, const std::map<std::string, Stream>& per) {
  std::vector<gen::Event> ev;
  std::vector<std::string> ports;
  for (auto& [k, v] : per) ports.push_back(k);
  std::map<std::string, size_t> at;
  int mode = (int)s.below(4);  // 0: by time; 1: random; 2: bursts of one port; 3: port after port
  if (mode == 3)
    for (size_t i = ports.size(); i > 1; i--) std::swap(ports[i - 1], ports[s.below(i)]);
  std::string last;
  while (true) {
    std::vector<std::string> c;
    for (auto& k : ports)
      if (at[k] < per.at(k).size()) c.push_back(k);
    if (c.empty()) break;
    std::string k = c[0];
    if (mode == 0) {
      // earliest first, ties in random order
      std::vector<std::string> e;
      int64_t best = INT64_MAX;
      for (auto& q : c) best = std::min(best, per.at(q)[at[q]].t);
      for (auto& q : c)
        if (per.at(q)[at[q]].t == best) e.push_back(q);
      k = e[s.below(e.size())];
    } else if (mode == 1)
      k = c[s.below(c.size())];
    else if (mode == 2) {
      bool cont = std::find(c.begin(), c.end(), last) != c.end() && s.chance(4, 5);
      k = cont ? last : c[s.below(c.size())];
    }
    last = k;
    ev.push_back({k, per.at(k)[at[k]++]});
  }
  return ev;
}

// per-port streams over one grid: every port keeps a random subset of the timestamps
inline std::map<std::string, Stream> partial_streams(pbt::Source& s, const std::vector<std::string>& ports, int maxLen,
                                                      double (*val)(pbt::Source&), int minLen = 1) {
  std::map<std::string, Stream> per;
  int len = (int)s.range(minLen, maxLen);
  int64_t t = s.oneof<int64_t>({0, 1, 1000, 1600000000000ll});
  int64_t scale = gen::time_scale(s);
  int keep = (int)s.range(1, 4);  // quarters
  for (auto& k : ports) per[k];
  for (int i = 0; i < len; i++) {
    for (auto& k : ports)
      if (keep == 4 || s.chance(keep, 4)) per[k].push_back({t, val(s)});
    t += gen::gap(s) * scale;
  }
  return per;
}

// most messages per port of a history with a long lag
inline int lag_length(pbt::Source& s, size_t ports) { return ports <= 4 && s.chance(1, 8) ? 5000 : 400; }

// moderate double, not on the exact grid
inline double rough(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return (double)s.range(-1000, 1000) / 7.0;
    case 1: return (double)s.range(-1000000, 1000000) / 977.0;
    default: return gen::value(s);
  }
}
// few distinct values: plateaus and repeats
inline double level(pbt::Source& s) { return (double)s.range(0, 3); }

inline Stream stream(pbt::Source& s, int len, double (*val)(pbt::Source&), bool epoch = true) {
  Stream r;
  int64_t t = epoch ? s.oneof<int64_t>({0, 1, 1000, 1600000000000ll}) : s.range(0, 20);
  int64_t scale = gen::time_scale(s);
  for (int i = 0; i < len; i++) {
    r.push_back({t, val(s)});
    t += gen::gap(s) * scale;
  }
  return r;
}

// an interval, and a stream around it: gaps shorter, equal, multiple and, sometimes, very long
inline int64_t interval(pbt::Source& s) {
  switch (s.weighted({6, 3, 2, 1, 1})) {
    case 0: return s.range(1, 3);
    case 1: return s.range(1, 9);
    case 2: return s.range(1, 60000);
    case 3: return s.range(1000, 5000) * gen::time_scale(s);
    default: return s.oneof<int64_t>({4294967299ll, 5000000000ll, 8589934590ll, 1000000000007ll});
  }
}
inline Stream gaps(pbt::Source& s, pbt::Ctx& c, int64_t dt, int len) {
  Stream r;
  int64_t t = s.oneof<int64_t>({0, 1, 7, 1000, 1600000000000ll});
  int mode = (int)s.below(4);
  int outage = s.chance(1, 40) ? (int)s.range(1, 8) : -1;
  for (int i = 0; i < len; i++) {
    r.push_back({t, rough(s)});
    if (i == outage) {
      t += dt * s.range(60, s.flip() ? 200 : 3000) + (int64_t)s.below(dt);
      c.label("an outage");
      continue;
    }
    switch (mode == 3 ? (int)s.below(3) : mode) {
      case 0: t += s.range(1, std::max<int64_t>(1, dt - 1)); break;  // shorter than dt
      case 1: t += dt * s.range(1, 3); break;                        // multiples of dt
      default: t += s.range(1, 5 * dt + 3); break;                   // anything, many grid points at once
    }
  }
  magnitude(s, c, r);
  return r;
}

// sometimes: values far from zero compared with their spread
inline void offset(pbt::Source& s, pbt::Ctx& c, Stream& in, bool quarters = false) {
  if (!s.chance(1, 6)) return;
  c.label("large offset");
  double by = s.oneof({1e6, -1e8, 1e9, 4096.0});
  for (auto& m : in) m.v = (quarters ? std::floor(m.v * 4) / 4 : m.v) + by;
}

}  // namespace op
