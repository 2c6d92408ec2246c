#include "pre.h"

#include "comp.h"
#include "rtbot/Composite.h"
#include "rtbot/Output.h"

namespace comp {
using namespace rtbot;
using T = uint64_t;
using V = double;
using O = Operator<T, V>;
using gen::Node;

const std::vector<std::string> KINDS = {
    "Add",   "AutoRegressive", "Constant",         "CosineResampler", "Count",         "CumulativeSum",         "Difference", "Join",  "Division",
    "Minus", "Linear",         "EqualTo",          "GreaterThan",     "LessThan",      "HermiteResampler",      "Identity",   "Power", "Scale",
    "Variable", "PeakDetector", "StandardDeviation", "Demultiplexer", "MovingAverage", "FiniteImpulseResponse", "TimeShift"};

struct Collector : public O {
  ref::Stream got;
  explicit Collector(const std::string& id) : O(id) { this->addDataInput("i1"); }
  std::string typeName() const override { return "Collector"; }
  OperatorMessage<T, V> processData() override { return {}; }
  void receiveData(Message<T, V> m, std::string) override { got.push_back({(int64_t)m.time, m.value}); }
  ProgramMessage<T, V> executeData() override { return {}; }
};

static std::shared_ptr<O> make(const Node& n) {
  auto& p = n.p;
  auto& t = n.type;
  auto& id = n.id;
  if (t == "Input") return std::make_shared<Input<T, V>>(id, (size_t)p.n);
  if (t == "Output") return std::make_shared<Output<T, V>>(id, (size_t)p.n);
  if (t == "Add") return std::make_shared<Add<T, V>>(id, p.value);
  if (t == "AutoRegressive") return std::make_shared<AutoRegressive<T, V>>(id, p.coeff);
  if (t == "Constant") return std::make_shared<Constant<T, V>>(id, p.value);
  if (t == "CosineResampler") return std::make_shared<CosineResampler<T, V>>(id, (T)p.n);
  if (t == "Count") return std::make_shared<Count<T, V>>(id);
  if (t == "CumulativeSum") return std::make_shared<CumulativeSum<T, V>>(id);
  if (t == "Difference") return std::make_shared<Difference<T, V>>(id, p.oldest);
  if (t == "Join") return std::make_shared<Join<T, V>>(id, (size_t)p.n);
  if (t == "Division") return std::make_shared<Division<T, V>>(id);
  if (t == "Minus") return std::make_shared<Minus<T, V>>(id);
  if (t == "Linear") return std::make_shared<Linear<T, V>>(id, p.coeff);
  if (t == "EqualTo") return std::make_shared<EqualTo<T, V>>(id, p.value);
  if (t == "GreaterThan") return std::make_shared<GreaterThan<T, V>>(id, p.value);
  if (t == "LessThan") return std::make_shared<LessThan<T, V>>(id, p.value);
  if (t == "HermiteResampler") return std::make_shared<HermiteResampler<T, V>>(id, (T)p.n);
  if (t == "Identity") return std::make_shared<Identity<T, V>>(id);
  if (t == "Power") return std::make_shared<Power<T, V>>(id, p.value);
  if (t == "Scale") return std::make_shared<Scale<T, V>>(id, p.value);
  if (t == "Variable") return std::make_shared<Variable<T, V>>(id, p.value);
  if (t == "PeakDetector") return std::make_shared<PeakDetector<T, V>>(id, (size_t)p.n);
  if (t == "StandardDeviation") return std::make_shared<StandardDeviation<T, V>>(id, (size_t)p.n);
  if (t == "Demultiplexer") return std::make_shared<Demultiplexer<T, V>>(id, (size_t)p.n);
  if (t == "MovingAverage") return std::make_shared<MovingAverage<T, V>>(id, (size_t)p.n);
  if (t == "FiniteImpulseResponse") return std::make_shared<FiniteImpulseResponse<T, V>>(id, p.coeff);
  if (t == "TimeShift") return std::make_shared<TimeShift<T, V>>(id, (T)p.n, (int)p.times);
  throw std::runtime_error("comp: unknown kind " + t);
}

static std::string create(Composite<T, V>& c, const Node& n) {
  auto& p = n.p;
  auto& t = n.type;
  auto& id = n.id;
  if (t == "Input") return c.createInput(id, (size_t)p.n);
  if (t == "Output") return c.createOutput(id, (size_t)p.n);
  if (t == "Add") return c.createAdd(id, p.value);
  if (t == "AutoRegressive") return c.createAutoregressive(id, p.coeff);
  if (t == "Constant") return c.createConstant(id, p.value);
  if (t == "CosineResampler") return c.createCosineResampler(id, (T)p.n);
  if (t == "Count") return c.createCount(id);
  if (t == "CumulativeSum") return c.createCumulativeSum(id);
  if (t == "Difference") return c.createDifference(id, p.oldest);
  if (t == "Join") return c.createJoin(id, (size_t)p.n);
  if (t == "Division") return c.createDivision(id);
  if (t == "Minus") return c.createMinus(id);
  if (t == "Linear") return c.createLinear(id, p.coeff);
  if (t == "EqualTo") return c.createEqualTo(id, p.value);
  if (t == "GreaterThan") return c.createGreaterThan(id, p.value);
  if (t == "LessThan") return c.createLessThan(id, p.value);
  if (t == "HermiteResampler") return c.createHermiteResampler(id, (T)p.n);
  if (t == "Identity") return c.createIdentity(id);
  if (t == "Power") return c.createPower(id, p.value);
  if (t == "Scale") return c.createScale(id, p.value);
  if (t == "Variable") return c.createVariable(id, p.value);
  if (t == "PeakDetector") return c.createPeakDetector(id, (size_t)p.n);
  if (t == "StandardDeviation") return c.createStandardDeviation(id, (size_t)p.n);
  if (t == "Demultiplexer") return c.createDemultiplexer(id, (size_t)p.n);
  if (t == "MovingAverage") return c.createMovingAverage(id, (size_t)p.n);
  if (t == "FiniteImpulseResponse") return c.createFiniteImpulseResponse(id, p.coeff);
  if (t == "TimeShift") return c.createTimeShift(id, (T)p.n, (int)p.times);
  throw std::runtime_error("comp: unknown kind " + t);
}

struct Base : Graph {
  std::map<std::string, std::unique_ptr<Collector>> sinks;
  ref::Ports arrived() override {
    ref::Ports r;
    for (auto& [port, k] : sinks) {
      r[port] = k->got;
      k->got.clear();
    }
    return r;
  }
};

struct Manual : Base {
  std::map<std::string, std::shared_ptr<O>> ops;
  O* entry;
  Manual(const gen::Prog& p, const std::string& out) {
    for (auto& n : p.nodes) ops[n.id] = make(n);
    for (auto& c : p.conns)
      if (!ops.at(c[0])->connect(ops.at(c[2]).get(), c[1], c[3])) throw std::runtime_error("comp: manual connection refused");
    entry = ops.at(p.entry).get();
    for (auto& o : p.node(out).outs) {
      sinks[o] = std::make_unique<Collector>("sink " + o);
      ops.at(out)->connect(sinks[o].get(), o, "i1");
    }
  }
  nat::PM feed(const std::string& port, const ref::Msg& m) override {
    entry->receiveData(nat::conv(m), port);
    return entry->executeData();
  }
  Bytes collect() override {
    Bytes b;
    for (auto& [id, o] : ops) {
      auto x = o->collect();
      b.insert(b.end(), x.begin(), x.end());
    }
    return b;
  }
  void restore(Bytes::const_iterator& it) override {
    for (auto& [id, o] : ops) o->restore(it);
  }
};

struct Comp : Base {
  Composite<T, V> c{"comp"};
  std::map<std::string, std::unique_ptr<Identity<T, V>>> sources;
  gen::Prog p;
  std::string accepted;
  bool via;

  // a call of the builder that must be refused
  void bad(pbt::Source& s, size_t created) {
    if (!s.chance(1, 6)) return;
    std::string what;
    auto refused = [&](auto f) {
      bool threw = false;
      try {
        f();
      } catch (const std::exception&) {
        threw = true;
      }
      if (!threw && accepted.empty()) accepted = what;
    };
    Node n;
    std::string known = created ? p.nodes[s.below(created)].id : "";
    bool hasIn = false, hasOut = false;
    for (size_t i = 0; i < created; i++) {
      hasIn = hasIn || p.nodes[i].type == "Input";
      hasOut = hasOut || p.nodes[i].type == "Output";
    }
    switch (s.below(4)) {
      case 0:
        if (!created) return;
        n = gen::make(s, known, s.chance(1, 8) ? "Input" : s.chance(1, 7) ? "Output" : KINDS[s.below(KINDS.size())]);
        what = "creating a second operator " + known + " as " + n.type + " was accepted";
        refused([&] { create(c, n); });
        break;
      case 1:
        if (!hasIn) return;
        n = gen::make(s, "another", "Input");
        what = "a second input was accepted";
        refused([&] { create(c, n); });
        break;
      case 2:
        if (!hasOut) return;
        n = gen::make(s, "another", "Output");
        what = "a second output was accepted";
        refused([&] { create(c, n); });
        break;
      case 3:
        if (!created) return;
        what = "a connection with an unknown operator or port was accepted";
        switch (s.below(4)) {
          case 0: refused([&] { c.createInternalConnection("nobody", known, "o1", "i1"); }); break;
          case 1: refused([&] { c.createInternalConnection(known, "nobody", "o1", "i1"); }); break;
          case 2: refused([&] { c.createInternalConnection(known, known, "o99", "i1"); }); break;
          case 3: refused([&] { c.createInternalConnection(known, known, "o1", "i99"); }); break;
        }
        break;
    }
  }

  Comp(const gen::Prog& q, const std::string& out, bool viaSource, pbt::Source* s) : p(q), via(viaSource) {
    size_t k = 0;
    for (auto& n : p.nodes) {
      if (s) bad(*s, k);
      std::string id = create(c, n);
      if (id != n.id && accepted.empty()) accepted = "the builder called operator " + n.id + " " + id;
      k++;
    }
    for (auto& x : p.conns) {
      if (s) bad(*s, k);
      c.createInternalConnection(x[0], x[2], x[1], x[3]);
    }
    if (s) bad(*s, k);
    for (auto& o : p.node(out).outs) {
      sinks[o] = std::make_unique<Collector>("sink " + o);
      if (!c.connect(sinks[o].get(), o, "i1") && accepted.empty()) accepted = "the composite refused a connection from its port " + o;
    }
    if (via)
      for (auto& i : p.node(p.entry).ins) {
        sources[i] = std::make_unique<Identity<T, V>>("src " + i);
        sources[i]->connect(&c, "o1", i);
      }
  }
  nat::PM feed(const std::string& port, const ref::Msg& m) override {
    nat::PM r;
    if (via) {
      auto& o = *sources.at(port);
      o.receiveData(nat::conv(m), "i1");
      r = o.executeData();
      r.erase(o.id);
    } else {
      c.receiveData(nat::conv(m), port);
      r = c.executeData();
    }
    return r;
  }
  Bytes collect() override { return c.collect(); }
  void restore(Bytes::const_iterator& it) override { c.restore(it); }
  std::string provoke(pbt::Source&) override { return accepted; }
};

std::unique_ptr<Graph> manual(const gen::Prog& p, const std::string& out) { return std::make_unique<Manual>(p, out); }
std::unique_ptr<Graph> composite(const gen::Prog& p, const std::string& out, bool viaSource, pbt::Source* s) {
  return std::make_unique<Comp>(p, out, viaSource, s);
}

gen::Prog program(pbt::Source& s, int maxOps, std::string& out, bool& bits) {
  gen::Prog p;
  p.large = s.chance(1, 16);
  gen::Large scope(p.large);
  size_t k = 0;
  std::vector<std::pair<std::string, std::string>> pool;
  Node e = gen::make(s, gen::new_id(s, k++), "Input");
  p.entry = e.id;
  p.nodes.push_back(e);
  for (auto& o : e.outs) pool.push_back({e.id, o});
  bits = false;
  auto src = [&]() { return s.flip() ? pool[pool.size() - 1 - s.below(std::min<size_t>(3, pool.size()))] : pool[s.below(pool.size())]; };
  auto add = [&](const Node& n, const std::vector<std::pair<std::string, std::string>>& ins) {
    p.nodes.push_back(n);
    for (size_t i = 0; i < ins.size(); i++) p.conns.push_back({ins[i].first, ins[i].second, n.id, n.ins[i]});
    for (auto& o : n.outs) pool.push_back({n.id, o});
  };
  int ops = (int)s.range(1, maxOps);
  for (int i = 0; i < ops; i++) {
    Node n = gen::make(s, gen::new_id(s, k++), KINDS[s.below(KINDS.size())]);
    if (n.type == "Difference") n.p.oldest = s.flip();
    std::vector<std::pair<std::string, std::string>> ins;
    if (n.type == "Demultiplexer") {
      // data and controls on the same timestamps, controls 0 or 1
      bits = true;
      std::pair<std::string, std::string> d{e.id, e.outs[s.below(e.outs.size())]};
      std::vector<std::pair<std::string, std::string>> ctl;
      for (int q = 0; q < n.p.n; q++) {
        Node a = gen::make(s, gen::new_id(s, k++), "Constant");
        if (s.flip()) {
          a.p.value = 1;
          add(a, {d});
          auto one = pool.back();
          add(gen::make(s, gen::new_id(s, k++), "Minus"), {one, d});
        } else {
          a = gen::make(s, a.id, "Identity");
          add(a, {d});
        }
        ctl.push_back(pool.back());
      }
      add(gen::make(s, gen::new_id(s, k++), "Add"), {d});
      auto data = pool.back();
      add(n, {data});
      for (int q = 0; q < n.p.n; q++) p.conns.push_back({ctl[q].first, ctl[q].second, n.id, n.ctls[q]});
      continue;
    }
    for (size_t q = 0; q < n.ins.size(); q++) ins.push_back(src());
    std::pair<std::string, std::string> c = src();
    add(n, ins);
    if (n.type == "Variable") p.conns.push_back({c.first, c.second, n.id, "c1"});
  }
  Node o = gen::make(s, gen::new_id(s, k++), "Output");
  std::vector<std::pair<std::string, std::string>> ins;
  for (size_t q = 0; q < o.ins.size(); q++) ins.push_back(src());
  out = o.id;
  add(o, ins);
  p.scale = gen::time_scale(s);
  for (auto& n : p.nodes) gen::stretch(n, p.scale);
  gen::shuffle_nodes(s, p);
  return p;
}

std::vector<gen::Event> history(pbt::Source& s, const gen::Prog& p, int maxSteps, bool bits) {
  auto ev = gen::history(s, p, maxSteps);
  if (bits)
    for (auto& e : ev) e.m.v = s.flip() ? 1 : 0;
  return ev;
}
}  // namespace comp
