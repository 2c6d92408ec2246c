#define WITH_Demultiplexer
#define WITH_Input
#define WITH_Join
#define WITH_Output
#define WITH_RelativeStrengthIndex
#define WITH_Add
#define WITH_And
#define WITH_AutoRegressive
#define WITH_Constant
#define WITH_ConstantResampler
#define WITH_CosineResampler
#define WITH_Count
#define WITH_CumulativeSum
#define WITH_Difference
#define WITH_Division
#define WITH_EqualTo
#define WITH_FiniteImpulseResponse
#define WITH_Function
#define WITH_GreaterThan
#define WITH_GreaterThanStream
#define WITH_HermiteResampler
#define WITH_Identity
#define WITH_LessThan
#define WITH_LessThanStream
#define WITH_Linear
#define WITH_Minus
#define WITH_MovingAverage
#define WITH_Multiplication
#define WITH_Or
#define WITH_PeakDetector
#define WITH_Plus
#define WITH_Power
#define WITH_Scale
#define WITH_StandardDeviation
#define WITH_TimeShift
#define WITH_Variable
#include "../api.h"
#include "../op.h"

using namespace api;
using T = uint64_t;

static const std::vector<std::string> SYNC = {"Join", "Linear", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream",
                                              "LessThanStream"};
static const std::vector<std::string> SINGLE = {
    "Input", "Output", "Add", "Scale", "Power", "Constant", "Identity", "GreaterThan", "LessThan", "EqualTo", "Count", "CumulativeSum",
    "MovingAverage", "StandardDeviation", "PeakDetector", "FiniteImpulseResponse", "Difference", "AutoRegressive", "TimeShift", "Function",
    "ConstantResampler", "CosineResampler", "HermiteResampler", "RelativeStrengthIndex"};

static size_t kept(rtbot::Operator<T, double>& o) {
  size_t n = 0;
  for (auto& p : o.getDataInputs()) n += o.getDataInputSize(p);
  for (auto& [k, in] : o.controlInputs) n += in.size();
  return n;
}

// messages an operator may hold back per port
static size_t window(const gen::Node& n) {
  auto& t = n.type;
  if (t == "MovingAverage" || t == "StandardDeviation" || t == "PeakDetector") return (size_t)n.p.n;
  if (t == "FiniteImpulseResponse") return n.p.coeff.size();
  if (t == "RelativeStrengthIndex") return (size_t)n.p.n + 1;
  if (t == "Difference") return 2;
  if (t.find("Resampler") != std::string::npos) return 4;
  if (t == "AutoRegressive") return n.p.coeff.size();
  return 1;
}

// one message per port in flight: a window operator with any number of messages
static void single(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = gen::make(s, "op", SINGLE[s.below(SINGLE.size())]);
  if (s.chance(1, 4) && (n.type == "MovingAverage" || n.type == "StandardDeviation" || n.type == "PeakDetector" || n.type == "RelativeStrengthIndex"))
    n.p.n = s.range(2, 40);
  if (s.chance(1, 4) && (n.type == "FiniteImpulseResponse" || n.type == "AutoRegressive"))
    n.p.coeff = std::vector<double>((size_t)s.range(1, 30), 0.25);
  gen::set_ports(n);
  size_t W = window(n);
  int len = (int)W * 2 + 20 + (int)s.range(0, 100 * s.sizeFactor);
  bool late = n.type == "Input";
  std::vector<gen::Event> ev;
  int64_t t = gen::origin(s);
  for (int i = 0; i < len; i++) {
    for (auto& p : n.ins)
      if (n.ins.size() == 1 || s.chance(3, 4)) ev.push_back({p, {late && s.chance(1, 10) ? t - 20 : t, s.flip() ? gen::value(s) : op::level(s)}});
    t += gen::gap(s);
  }
  c.log([&](std::ostream& o) {
    o.precision(17);
    o << gen::node_text(n);
    gen::show_events(o, ev);
  });
  auto o = op::make<T>(n);
  std::map<std::string, size_t> fed;
  size_t early = 0, i = 0;
  for (auto& e : ev) {
    op::deliver<T>(*o, e.port, e.m);
    i++;
    fed[e.port]++;
    for (auto& p : o->getDataInputs())
      c.require(o->getDataInputSize(p) <= W, n.type + " keeps " + std::to_string(o->getDataInputSize(p)) + " messages of " + p + " after " +
                                                 std::to_string(i) + ", its window is " + std::to_string(W));
    size_t size = o->collect().size();
    bool warm = true;
    for (auto& p : n.ins) warm = warm && fed[p] > 2 * W + 4;
    if (!warm)
      early = std::max(early, size);
    else
      c.require(size <= early, n.type + ": the state has grown from " + std::to_string(early) + " to " + std::to_string(size) +
                                              " bytes after " + std::to_string(i) + " messages");
  }
  c.label("one operator: " + n.type);
  c.mark();
}

static void sync(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = gen::make(s, "op", SYNC[s.below(SYNC.size())]);
  auto per = op::partial_streams(s, n.ins, 40 * s.sizeFactor, gen::value);
  auto ev = op::interleave(s, per);
  c.log([&](std::ostream& o) {
    o << gen::node_text(n);
    gen::show_events(o, ev);
  });
  auto o = op::make<T>(n);
  size_t unit = nat::NMsg((T)1, 1.0).collect().size();
  size_t base = o->collect().size(), most = 0, bytes = 0, i = 0;
  std::map<std::string, ref::Stream> got;
  std::map<std::string, int64_t> last;
  int64_t tuple = INT64_MIN;  // of the last complete tuple
  for (auto& e : ev) {
    op::deliver<T>(*o, e.port, e.m);
    i++;
    got[e.port].push_back(e.m);
    last[e.port] = e.m.t;
    size_t bound = 0;
    bool all = true;
    for (auto& q : n.ins) {
      bool has = false;
      for (auto& m : got[q]) has = has || m.t == e.m.t;
      all = all && has;
    }
    if (all) tuple = e.m.t;
    for (auto& [p, st] : got)
      for (auto& m : st) {
        // two ports: it waits for the other one to catch up
        bool waiting = n.ins.size() > 2;
        for (auto& q : n.ins)
          if (q != p && (!last.count(q) || last[q] < m.t)) waiting = true;
        bound += waiting && m.t > tuple;
      }
    size_t k = kept(*o), full = 0;
    for (auto& p : n.ins) full += o->getDataInputSize(p) > 0;
    c.require(full < n.ins.size(), n.type + " keeps messages on all its ports after message " + std::to_string(i));
    if (k > bound)
      c.fail(n.type + " keeps " + std::to_string(k) + " messages after message " + std::to_string(i) + ", only " + std::to_string(bound) +
             " can still be waiting for another port");
    most = std::max(most, k);
    size_t size = o->collect().size();
    size_t rest = size - std::min(size, unit * k);
    c.require(rest <= base + 64 + 16 * n.ins.size(), n.type + ": " + std::to_string(rest) + " bytes of state besides the " + std::to_string(k) + " messages");
    bytes = std::max(bytes, rest);
  }
  c.label("synchronising: " + n.type);
  if (most >= 1 && ev.size() >= 6) c.mark();
}

static void demultiplexer(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = gen::make(s, "op", "Demultiplexer");
  int len = (int)s.range(4, 40 * s.sizeFactor);
  int64_t t = gen::origin(s);
  std::map<std::string, ref::Stream> per;
  per["i1"];
  for (int i = 0; i < len; i++) {
    bool data = s.chance(3, 4);
    for (auto& k : n.ctls)
      if (data || s.chance(1, 2)) per[k].push_back({t, s.flip() ? 1.0 : 0.0});
    if (data) per["i1"].push_back({t, gen::value(s)});
    t += gen::gap(s);
  }
  auto ev = op::interleave(s, per);
  c.log([&](std::ostream& o) {
    o << gen::node_text(n);
    gen::show_events(o, ev);
  });
  auto o = op::make<T>(n);
  size_t unit = nat::NMsg((T)1, 1.0).collect().size(), base = o->collect().size();
  std::map<std::string, ref::Stream> got;
  size_t i = 0, most = 0;
  for (auto& e : ev) {
    op::deliver<T>(*o, e.port, e.m);
    i++;
    got[e.port].push_back(e.m);
    size_t bound = 0;
    int64_t routed = INT64_MIN;
    for (auto& d : got["i1"]) {
      bool answered = true;
      for (auto& k : n.ctls) answered = answered && !got[k].empty() && got[k].back().t >= d.t;
      if (answered)
        routed = std::max(routed, d.t);
      else
        bound++;
    }
    for (auto& k : n.ctls)
      for (auto& m : got[k]) bound += m.t > routed;
    size_t k = kept(*o);
    if (k > bound)
      c.fail("the demultiplexer keeps " + std::to_string(k) + " messages after message " + std::to_string(i) + ", " + std::to_string(bound) +
             " are not yet answered");
    most = std::max(most, k);
    size_t size = o->collect().size();
    c.require(size <= base + unit * k + 64 + 16 * n.ctls.size(), "the demultiplexer keeps more than its messages");
  }
  c.label("demultiplexer");
  if (most >= 2) c.mark();
}

static void variable(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = gen::make(s, "op", "Variable");
  auto per = op::partial_streams(s, {"i1", "c1"}, 50 * s.sizeFactor, gen::value);
  auto ev = op::interleave(s, per);
  c.log([&](std::ostream& o) {
    o << gen::node_text(n);
    gen::show_events(o, ev);
  });
  auto o = op::make<T>(n);
  size_t unit = nat::NMsg((T)1, 1.0).collect().size(), base = o->collect().size();
  ref::Stream data, query;
  size_t i = 0, most = 0;
  for (auto& e : ev) {
    op::deliver<T>(*o, e.port, e.m);
    i++;
    (e.port == "i1" ? data : query).push_back(e.m);
    int64_t newest = data.empty() ? INT64_MIN : data.back().t, answered = INT64_MIN;
    size_t pending = 0;
    for (auto& q : query)
      if (q.t > newest)
        pending++;
      else
        answered = q.t;
    size_t bound = pending + (data.empty() ? 0 : 1);
    for (auto& d : data) bound += d.t > answered;
    // the one in force, or (before the first answer) all of them
    size_t k = kept(*o);
    if (k > bound)
      c.fail("the variable keeps " + std::to_string(k) + " messages after message " + std::to_string(i) + ", at most " + std::to_string(bound) +
             " are unanswered queries, values in force or newer ones");
    most = std::max(most, k);
    size_t size = o->collect().size();
    c.require(size <= base + unit * k + 64, "the variable keeps more than its messages");
  }
  c.label("variable");
  if (most >= 2) c.mark();
}

// aligned streams of any length: the serialised state of a program stops growing
static void program(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 8;
  opt.aligned = true;
  opt.large = false;
  opt.otherEntry = false;
  gen::Prog p = gen::program(s, opt);
  std::string def = gen::prog_json(p).dump();
  auto& ins = p.node(p.entry).ins;
  int warm = 60, len = warm + (int)s.range(60, 200 * s.sizeFactor);
  std::vector<std::string> order = ins;
  int64_t t = gen::origin(s);
  c.log([&](std::ostream& o) { o << "program " << def << "\n" << len << " aligned messages per port"; });
  Program q(def);
  size_t early = 0;
  int mode = (int)s.below(3);
  size_t emitted = 0;
  for (int i = 0; i < len; i++) {
    if (s.flip()) std::reverse(order.begin(), order.end());
    // a batch per time, a call per message, or a batch of several times
    OM om;
    int k = mode == 2 ? (int)s.range(1, 4) : 1;
    for (; k > 0; k--, t += gen::gap(s))
      for (auto& port : order) {
        nat::NMsg m((T)t, gen::value(s));
        if (mode == 1) {
          OM one;
          one[port].push_back(m);
          emitted += count(q.receive(one));
        } else
          om[port].push_back(m);
      }
    if (mode != 1) emitted += count(q.receive(om));
    size_t size = q.serialize().size();
    if (i < warm)
      early = std::max(early, size);
    else if (size > early)
      c.fail("the state has grown from at most " + std::to_string(early) + " bytes during the first " + std::to_string(warm) + " calls to " +
             std::to_string(size) + " bytes after " + std::to_string(i + 1));
  }
  c.label("program");
  for (auto& n : p.nodes) c.label("in a program: " + n.type);
  if (emitted > 20) c.mark();
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  switch (s.weighted({4, 4, 2, 2, 2})) {
    case 0: return single(s, c);
    case 1: return sync(s, c);
    case 2: return demultiplexer(s, c);
    case 3: return variable(s, c);
    default: return program(s, c);
  }
}
PBT_MAIN("C25", prop, 40000, 1000000, "an operator fed past twice its window, a synchronising operator that had to hold messages back, or a program that emitted more than 20 messages")
