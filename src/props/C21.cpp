#include "../api.h"

using namespace api;

// the ports of a pipeline operator are its unconnected inner ports, numbered in sorted order
static void check_ports(pbt::Ctx& c, const gen::Node& n) {
  auto op = FactoryOp::readOp(gen::node_json(n).dump());
  auto sorted = [](std::vector<std::string> v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  c.require(sorted(op->getDataInputs()) == sorted(n.ins), "pipeline " + n.id + " has " + std::to_string(op->getNumDataInputs()) +
                                                              " inputs, " + std::to_string(n.ins.size()) + " inner ports are unconnected");
  c.require(sorted(op->getOutputs()) == sorted(n.outs), "pipeline " + n.id + " has " + std::to_string(op->getNumOutputPorts()) +
                                                            " outputs, " + std::to_string(n.outs.size()) + " inner ports are unconnected");
  c.require(op->getNumControlInputs() == 0, "pipeline " + n.id + " has control ports");
  c.require(op->typeName() == "Pipeline", "a pipeline calls itself " + op->typeName());
  for (auto& m : n.inner)
    if (m.type == "Pipeline") check_ports(c, m);
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 5 + 2 * (s.sizeFactor - 1);
  opt.pipelines = true;
  opt.pipelineWeight = 14;
  opt.pipelineOps = (int)s.range(1, 6);
  opt.pipelineDepth = (int)s.range(0, 2);
  opt.pipelineEntry = true;
  opt.openDemux = true;
  gen::Prog p = gen::program(s, opt);
  bool any = false;
  for (auto& n : p.nodes) any = any || n.type == "Pipeline";
  if (!any) c.discard();
  p.hasOutput = false;
  p.output.clear();
  gen::Flat flat = gen::flatten(p);
  gen::Prog q = flat.p;
  q.hasOutput = false;
  if (!q.entryMap.empty()) {
    // the same messages through an Input in front of the operators of the entry pipeline
    gen::Node in;
    in.id = "front door";
    in.type = "Input";
    in.p.n = (int)p.node(p.entry).ins.size();
    gen::set_ports(in);
    for (auto& [port, at] : q.entryMap) {
      std::string out = port;
      out[0] = 'o';
      q.conns.push_back({in.id, out, at.first, at.second});
    }
    q.nodes.push_back(in);
    q.entry = in.id;
    c.label("entry pipeline");
  }
  std::string def = gen::prog_json(p, &s).dump(), wired = gen::prog_json(q).dump();
  auto ev = gen::history(s, p, 30 * s.sizeFactor);
  auto calls = batches(s, ev, s.chance(1, 3));
  log_case(c, def, calls);
  c.log([&](std::ostream& o) { o << "wired in place: " << wired; });
  for (auto& n : p.nodes)
    if (n.type == "Pipeline") check_ports(c, n);
  Program nested(def), direct(wired);
  size_t through = 0, multi = 0;
  for (size_t k = 0; k < calls.size(); k++) {
    OM om = message(calls[k]);
    Outcome a = attempt([&] { return nested.receiveDebug(om); });
    Outcome b = attempt([&] { return direct.receiveDebug(om); });
    std::string at = "call " + std::to_string(k + 1) + ": ";
    if (a.threw != b.threw) c.fail(at + "with the pipeline " + show(a) + ", wired in place " + show(b));
    if (a.threw) return;
    PM got = without_empty(a.out), all = without_empty(b.out), want;
    for (auto& n : p.nodes)
      for (auto& o : n.outs) {
        auto e = n.type == "Pipeline" ? flat.outs.at({n.id, o}) : std::make_pair(n.id, o);
        auto i = all.find(e.first);
        if (i == all.end() || !i->second.count(e.second)) continue;
        want[n.id][o] = i->second.at(e.second);
        if (n.type == "Pipeline") through += want[n.id][o].size();
      }
    if (!same(got, want)) c.fail(at + "with the pipeline " + nat::show(got) + ", wired in place " + nat::show(want));
  }
  for (auto& n : p.nodes)
    if (n.type == "Pipeline") {
      if (n.ins.size() > 1 || n.outs.size() > 1) multi++;
      for (auto& m : n.inner) c.label("inside: " + m.type);
    }
  if (multi) c.label("pipeline with several ports");
  if (through >= 2) c.mark();
}
PBT_MAIN("C21", prop, 50000, 1500000, "the pipelines of the program emitted at least two messages")
