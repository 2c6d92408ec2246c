#include "../api.h"

using namespace api;

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 9 + 3 * (s.sizeFactor - 1);
  opt.pipelines = s.chance(1, 3);
  gen::Prog p = gen::program(s, opt);
  if (p.hasOutput && s.chance(1, 10)) {
    auto& l = p.output.begin()->second;  // a port selected twice is still one port
    l.push_back(l[0]);
    c.label("a port listed twice in the output map");
  }
  std::string def = gen::prog_json(p, &s).dump();
  auto ev = gen::history(s, p, 30 * s.sizeFactor);
  auto calls = batches(s, ev, s.flip() || ev.size() > 100);
  log_case(c, def, calls);
  gen::Interpreter in(p);
  Program full(def), plain(def);
  ref::Ports entry;
  std::map<std::string, std::map<std::string, size_t>> seen;
  gen::Trace t, t2;
  size_t emitted = 0, depth = 0;
  for (size_t k = 0; k < calls.size(); k++) {
    for (auto& e : delivered(calls[k])) entry[e.port].push_back(e.m);
    t = in.run(entry);
    if (in.hermite) t2 = in.run(entry, true);
    OM om = message(calls[k]);
    PM dbg = full.receiveDebug(om);
    for (auto& [id, ports] : dbg) {
      bool known = false;
      for (auto& n : p.nodes) known = known || n.id == id;
      c.require(known, "the trace names the unknown operator " + id);
      auto& n = p.node(id);
      for (auto& [port, ms] : ports)
        c.require(std::find(n.outs.begin(), n.outs.end(), port) != n.outs.end(), "the trace names the unknown port " + id + ":" + port);
    }
    for (auto& n : p.nodes)
      for (auto& o : n.outs) {
        size_t from = seen[n.id][o];
        auto cut = [&](const ref::Stream& x) { return from > x.size() ? ref::Stream{} : ref::Stream(x.begin() + from, x.end()); };
        const auto& all = ref::port(t.out[n.id], o);
        if (all.size() < from) c.discard();  // a value left the exact domain: comparison not decidable
        ref::Stream want = cut(all), got;
        auto i = dbg.find(n.id);
        if (i != dbg.end()) {
          auto j = i->second.find(o);
          if (j != i->second.end())
            for (auto& m : j->second) got.push_back(nat::conv(m));
        }
        bool ok = gen::same_stream(got, want, t.exact[n.id], t.mag[n.id]);
        if (!ok && in.hermite) ok = gen::same_stream(got, cut(ref::port(t2.out[n.id], o)), t2.exact[n.id], t2.mag[n.id]);
        if (!ok)
          c.fail("call " + std::to_string(k + 1) + ": operator " + n.id + " (" + n.type + ") port " + o + " emitted " + gen::show(got) +
                 ", its definition on the streams that reached it yields " + gen::show(want));
        seen[n.id][o] = all.size();
        emitted += want.size();
        if (!want.empty() && n.id != p.entry) depth++;
      }
    PM res = plain.receive(om);
    PM want = filtered(dbg, p.output);
    if (!same(without_empty(res), without_empty(want)))
      c.fail("call " + std::to_string(k + 1) + ": the result is " + nat::show(res) + " but the output map selects " + nat::show(want) + " of the trace");
  }
  std::set<std::string> live;
  for (auto& [id, ports] : seen)
    for (auto& [o, k] : ports)
      if (k) live.insert(id);
  for (auto& id : live) c.label("emitting " + p.node(id).type);
  if (calls.size() < ev.size()) c.label("batched");
  if (p.hasOutput) c.label("output map");
  if (p.large) c.label("large");
  if (live.size() >= 3 && ev.size() >= 5) c.mark();
}
PBT_MAIN("C18", prop, 30000, 1500000, "at least 5 messages in, and at least three operators emitted something")
