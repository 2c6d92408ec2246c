#include "../api.h"
#include "../op.h"

using namespace api;
using OpPtr = rtbot::Op_ptr<uint64_t, double>;

static const std::vector<std::string> KINDS = {
    "Input", "Output", "Join", "Demultiplexer", "Linear", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream",
    "LessThanStream", "Add", "Scale", "Power", "Constant", "Identity", "GreaterThan", "LessThan", "EqualTo", "Count", "CumulativeSum",
    "MovingAverage", "StandardDeviation", "PeakDetector", "FiniteImpulseResponse", "Difference", "AutoRegressive", "TimeShift", "Function",
    "ConstantResampler", "CosineResampler", "HermiteResampler", "RelativeStrengthIndex", "Variable", "Pipeline"};

static std::string odd_id(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return "a";
    case 1: return "op 1";
    case 2: return "quote\"back\\slash";
    case 3: return "\xc3\xa4\xe2\x82\xac";
    case 4: return "x:y/z";
    default: return std::string(s.range(1, 40), 'q');
  }
}

// parameters of any size
static void extreme(pbt::Source& s, gen::Node& n) {
  auto& t = n.type;
  auto& p = n.p;
  auto val = [&]() {
    switch (s.below(4)) {
      case 0: return s.oneof({0.1, 1.0 / 3, -2.0 / 7, 3.141592653589793, 1e300, -1e300, 1e-300, 5e-324, 9007199254740993.0, 123456789.123456789});
      case 1: return (double)s.range(-1000000, 1000000) / 7.0;
      case 2: return std::ldexp((double)s.range(1, 1 << 30), (int)s.range(-80, 80));
      default: return (double)s.range(-5, 5);
    }
  };
  if (t == "Add" || t == "Scale" || t == "Power" || t == "Constant" || t == "GreaterThan" || t == "LessThan" || t == "EqualTo" || t == "Variable")
    p.value = val();
  if (t == "FiniteImpulseResponse" || t == "AutoRegressive" || t == "Linear") {
    int k = (int)s.range(t == "Linear" ? 2 : 1, 14);
    p.coeff.clear();
    for (int i = 0; i < k; i++) p.coeff.push_back(val());
  }
  if (t == "Join") p.n = s.range(2, 14);
  if (t == "Input" || t == "Output" || t == "Demultiplexer") p.n = s.range(1, 14);
  if (t == "MovingAverage" || t == "PeakDetector" || t == "StandardDeviation" || t == "RelativeStrengthIndex")
    p.n = s.oneof<int64_t>({2, 3, 100, 65536, 1000000, 4294967296ll});
  if (t == "CosineResampler" || t == "HermiteResampler" || t == "ConstantResampler")
    p.n = s.oneof<int64_t>({1, 1000, 86400000, 2147483648ll, 4294967297ll, 1ll << 53});
  if (t == "TimeShift") {
    p.n = s.oneof<int64_t>({1, 60000, 2147483648ll, 4294967297ll, 31536000000ll});
    p.times = s.oneof<int64_t>({0, 1, -1, 2, 7, -3});
  }
  if (t == "Function") {
    int k = (int)s.range(2, 6);
    p.points.clear();
    double x = -3.3;
    for (int i = 0; i < k; i++) {
      p.points.push_back({x, val() / 1e10});
      x += (double)s.range(1, 1000) / 7.0;
    }
    if (s.flip()) std::reverse(p.points.begin(), p.points.end());
    p.hermite = s.flip();
  }
  gen::set_ports(n);
}

static std::vector<ref::Msg> feed(rtbot::Operator<uint64_t, double>& o, const std::string& port, const ref::Msg& m, ref::Ports* ports) {
  auto r = op::deliver<uint64_t>(o, port, m);
  std::vector<ref::Msg> all;
  for (auto& [id, om] : r)
    for (auto& [p, ms] : om)
      for (auto& x : ms) {
        all.push_back({(int64_t)x.time, x.value});
        if (id == o.id && ports) (*ports)[p].push_back({(int64_t)x.time, x.value});
      }
  return all;
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  bool wild = s.chance(1, 3);
  gen::Node n;
  std::string type = KINDS[s.below(KINDS.size())];
  if (type == "Pipeline") {
    n = gen::pipeline(s, odd_id(s), 4, 1);
    wild = false;
  } else {
    n = gen::make(s, odd_id(s), type);
    if (wild) extreme(s, n);
  }
  json j = gen::node_json(n);
  // leave optional fields out: the documented defaults apply
  bool omitted = false;
  auto drop = [&](const char* k, auto set) {
    if (!wild && s.flip() && j.contains(k)) {
      j.erase(k);
      set();
      omitted = true;
    }
  };
  if (type == "Input" || type == "Output" || type == "Demultiplexer") drop("numPorts", [&] { n.p.n = 1; });
  if (type == "Join") drop("numPorts", [&] { n.p.n = 2; });
  if (type == "Variable") drop("value", [&] { n.p.value = 0; });
  if (type == "TimeShift") {
    drop("dt", [&] { n.p.n = 1; });
    drop("times", [&] { n.p.times = 1; });
  }
  if (type == "Function") {
    if (!n.p.hermite && s.flip()) j["interpolation"] = "linear";
    drop("interpolation", [&] { n.p.hermite = false; });
  }
  if (type != "Pipeline") gen::set_ports(n);
  std::string text = j.dump();

  // inputs for every port
  std::map<std::string, ref::Stream> per;
  int len = (int)s.range(1, 20 * s.sizeFactor);
  int64_t t = s.oneof<int64_t>({1000, 1600000000000ll});
  int keep = type == "Demultiplexer" ? 4 : (int)s.range(2, 4);
  for (int i = 0; i < len; i++) {
    for (auto& p : n.ins)
      if (keep == 4 || s.chance(keep, 4)) per[p].push_back({t, gen::value(s)});
    for (auto& p : n.ctls)
      if (keep == 4 || s.chance(keep, 4)) per[p].push_back({t, type == "Demultiplexer" ? (double)s.below(2) : gen::value(s)});
    t += gen::gap(s);
  }
  auto ev = op::interleave(s, per);
  if (type == "Pipeline") {
    // an inner demultiplexer wants its messages together
    ev.clear();
    std::map<int64_t, std::vector<gen::Event>> by;
    for (auto& [p, st] : per)
      for (auto& m : st) by[m.t].push_back({p, m});
    for (auto& [tt, es] : by)
      for (auto& e : es) ev.push_back(e);
  }
  c.log([&](std::ostream& o) {
    o << text << " fed";
    gen::show_events(o, ev);
  });

  OpPtr a = FactoryOp::readOp(text);
  std::string w1 = FactoryOp::writeOp(a);
  c.log([&](std::ostream& o) { o << "\nwritten " << w1; });
  json jw = json::parse(w1);
  // identity and documented parameters
  c.require(jw.value("type", "") == type, "written type is " + jw.value("type", std::string("missing")));
  c.require(jw.contains("id") && jw["id"] == n.id, "the written id differs");
  json full = gen::node_json(n);
  if (type == "Function") full["interpolation"] = n.p.hermite ? "hermite" : "linear";
  for (auto& [k, v] : full.items()) {
    if (!jw.contains(k)) c.fail("the written definition has lost \"" + k + "\"");
    json x = jw[k], y = v;
    if (k == "points") {
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
    }
    if (k == "prog") {
      // the same operators and connections, in any order
      auto norm = [](json q) {
        std::set<std::string> r;
        for (auto& e : q["operators"]) r.insert("op " + e["id"].get<std::string>() + " " + e["type"].get<std::string>());
        for (auto& e : q["connections"])
          r.insert(e["from"].get<std::string>() + "\t" + e.value("fromPort", "") + "\t" + e["to"].get<std::string>() + "\t" + e.value("toPort", ""));
        return r;
      };
      if (norm(x) != norm(y)) c.fail("the written inner program differs: " + x.dump());
      continue;
    }
    if (x != y) c.fail("\"" + k + "\" was " + y.dump() + " and is written as " + x.dump());
  }
  OpPtr b = FactoryOp::readOp(w1);
  std::string w2 = FactoryOp::writeOp(b);
  c.require(json::parse(w2) == jw, "writing it a second time gives " + w2);
  c.require(a->id == n.id && b->id == n.id && a->typeName() == type && b->typeName() == type, "id or type of the operator differ");

  // behaviour: the same before and after the round trip, and the documented one
  ref::Ports in, got;
  size_t emitted = 0;
  bool refuse = false;
  for (size_t i = 0; i < ev.size(); i++) {
    std::vector<ref::Msg> x, y;
    bool tx = false, ty = false;
    try {
      x = feed(*a, ev[i].port, ev[i].m, &got);
    } catch (const std::exception&) {
      tx = true;
    }
    try {
      y = feed(*b, ev[i].port, ev[i].m, nullptr);
    } catch (const std::exception&) {
      ty = true;
    }
    if (tx != ty || !same(x, y))
      c.fail("message " + std::to_string(i + 1) + ": the operator emitted " + (tx ? "an error" : gen::show(x)) + ", written and read again " +
             (ty ? "an error" : gen::show(y)));
    in[ev[i].port].push_back(ev[i].m);
    emitted += x.size();
    refuse = refuse || tx;
  }
  if (!wild && type != "Pipeline" && !refuse) {
    ref::Ports want, want2;
    bool defined = true;
    try {
      want = ref::eval(type, n.p, in);
      auto p2 = n.p;
      p2.oldest = false;
      if (type == "HermiteResampler") want2 = ref::eval(type, p2, in);
    } catch (const ref::Undefined&) {
      defined = false;
    }
    if (defined)
      for (auto& o : n.outs) {
        double mag = 1;
        for (auto& m : ref::port(want, o)) mag = std::max(mag, std::fabs(m.v));
        for (auto& e : ev) mag = std::max(mag, std::fabs(e.m.v));
        if (type == "Function") mag *= 1e5;
        bool ok = gen::same_stream(ref::port(got, o), ref::port(want, o), false, mag) ||
                  (type == "HermiteResampler" && gen::same_stream(ref::port(got, o), ref::port(want2, o), false, mag));
        if (!ok)
          c.fail("port " + o + " emitted " + gen::show(ref::port(got, o)) + ", the documentation yields " + gen::show(ref::port(want, o)));
      }
  }

  // the written definition is accepted by a program wherever the original was
  auto prog = [&](const json& def) {
    json in = {{"id", "in put"}, {"type", "Input"}, {"numPorts", std::max<size_t>(n.ins.size() + n.ctls.size(), 1)}};
    json p = {{"entryOperator", "in put"}, {"operators", {in, def}}, {"connections", json::array()}};
    int k = 1;
    for (auto* l : {&n.ins, &n.ctls})
      for (auto& q : *l) p["connections"].push_back({{"from", "in put"}, {"to", n.id}, {"fromPort", ref::out(k++)}, {"toPort", q}});
    return p.dump();
  };
  Program pa(prog(j)), pb(prog(jw));
  std::map<std::string, std::string> to;
  int k = 1;
  for (auto* l : {&n.ins, &n.ctls})
    for (auto& q : *l) to[q] = ref::in(k++);
  for (size_t i = 0; i < ev.size(); i++) {
    OM om;
    om[to[ev[i].port]].push_back(nat::conv(ev[i].m));
    auto x = attempt([&] { return pa.receive(om); }), y = attempt([&] { return pb.receive(om); });
    if (!same(x, y)) c.fail("inside a program, message " + std::to_string(i + 1) + ": " + show(x) + ", with the written definition " + show(y));
  }
  json listing = json::parse(pa.getProgram());
  bool found = false;
  for (auto& x : listing) found = found || x == jw;
  c.require(listing.size() == 2 && found, "the program lists its operators as " + listing.dump());
  c.label(type);
  if (omitted) c.label("optional field left out");
  if (wild) c.label("large or fractional parameters");
  if (emitted >= 1) c.mark();
}
PBT_MAIN("C20", prop, 60000, 2000000, "the operator emitted at least one message")
