#include "../api.h"

using namespace api;

using Cum = std::map<std::string, std::map<std::string, ref::Stream>>;

static Cum cumulate(const std::vector<PM>& outs, const std::map<std::string, std::string>* back = nullptr) {
  Cum r;
  for (auto& pm : outs)
    for (auto& [id, om] : pm)
      for (auto& [port, ms] : om) {
        if (ms.empty()) continue;
        auto& st = r[back ? back->at(id) : id][port];
        for (auto& m : ms) st.push_back(nat::conv(m));
      }
  return r;
}

static std::string diff(const Cum& a, const Cum& b) {
  for (auto* x : {&a, &b})
    for (auto& [id, ports] : *x)
      for (auto& [port, st] : ports) {
        static const ref::Stream none;
        auto get = [&](const Cum& m) -> const ref::Stream& {
          auto i = m.find(id);
          if (i == m.end()) return none;
          auto j = i->second.find(port);
          return j == i->second.end() ? none : j->second;
        };
        if (!same(get(a), get(b))) return id + ":" + port + " " + gen::show(get(a)) + " and " + gen::show(get(b));
      }
  return "";
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 10 + 3 * (s.sizeFactor - 1);
  opt.pipelines = s.flip();
  gen::Prog p = gen::program(s, opt);
  json jdef = gen::prog_json(p);
  std::string def = jdef.dump();
  auto ev = gen::history(s, p, 40 * s.sizeFactor);

  // one message per call
  auto single = batches(s, ev, false);
  log_case(c, def, single);
  std::vector<PM> base, baseOut;
  {
    Program a(def), b(def);
    for (auto& x : single) {
      OM om = message(x);
      base.push_back(a.receiveDebug(om));
      baseOut.push_back(b.receive(om));
      if (!same(filtered(base.back(), p.output), baseOut.back()))
        c.fail("the result " + nat::show(baseOut.back()) + " is not the declared part of the trace " + nat::show(base.back()) +
               " another instance returned for the same calls");
    }
  }
  Cum want = cumulate(base), wantOut = cumulate(baseOut);

  int kind = (int)s.below(5);
  switch (kind) {
    case 0: {
      c.label("other batches");
      auto calls = batches(s, ev, true);
      c.log([&](std::ostream& o) {
        o << "batches of";
        for (auto& b : calls) o << " " << b.size();
      });
      Program a(def), b(def);
      std::vector<PM> got, gotOut;
      for (auto& x : calls) {
        OM om = message(x);
        got.push_back(a.receiveDebug(om));
        gotOut.push_back(b.receive(om));
      }
      std::string d = diff(want, cumulate(got));
      if (!d.empty()) c.fail("in other batches the trace differs: " + d);
      d = diff(wantOut, cumulate(gotOut));
      if (!d.empty()) c.fail("in other batches the result differs: " + d);
      if (p.node(p.entry).ins.size() == 1) {
        // with a single entry port the calls can be compared one by one
        size_t k = 0;
        for (size_t i = 0; i < calls.size(); i++) {
          std::vector<PM> part(base.begin() + k, base.begin() + k + calls[i].size());
          k += calls[i].size();
          d = diff(cumulate(part), cumulate({got[i]}));
          if (!d.empty()) c.fail("batch " + std::to_string(i + 1) + " returned something else than its messages one by one: " + d);
        }
      }
      break;
    }
    case 1: {
      c.label("operators reordered and renamed");
      std::map<std::string, std::string> name, back;
      gen::Prog q = p;
      size_t i = q.nodes.size();
      bool rename = s.chance(3, 4);
      for (auto& n : q.nodes) {
        std::string id = n.id;
        if (rename) id = std::string(1, (char)((s.flip() ? 'A' : 'a') + s.below(26))) + std::to_string(--i) + (s.chance(1, 6) ? ":" : "");
        name[n.id] = id;
        back[id] = n.id;
        n.id = id;
      }
      for (auto& k : q.conns) k = {name[k[0]], k[1], name[k[2]], k[3]};
      q.entry = name[q.entry];
      q.output.clear();
      for (auto& [id, ports] : p.output) q.output[name[id]] = ports;
      for (size_t k = q.nodes.size(); k > 1; k--) std::swap(q.nodes[k - 1], q.nodes[k - 1 - s.below(k)]);
      std::string def2 = gen::prog_json(q, &s).dump();
      c.log([&](std::ostream& o) { o << "second definition " << def2; });
      Program a(def2), b(def2);
      for (size_t k = 0; k < single.size(); k++) {
        OM om = message(single[k]);
        std::vector<PM> g{a.receiveDebug(om)}, h{b.receive(om)};
        std::string d = diff(cumulate({base[k]}), cumulate(g, &back));
        if (!d.empty()) c.fail("call " + std::to_string(k + 1) + ": the trace of the reordered definition differs: " + d);
        d = diff(cumulate({baseOut[k]}), cumulate(h, &back));
        if (!d.empty()) c.fail("call " + std::to_string(k + 1) + ": the result of the reordered definition differs: " + d);
      }
      break;
    }
    case 2: {
      c.label("connections reordered");
      gen::Prog q = p;
      for (size_t k = q.conns.size(); k > 1; k--) std::swap(q.conns[k - 1], q.conns[k - 1 - s.below(k)]);
      std::string def2 = gen::prog_json(q).dump();
      c.log([&](std::ostream& o) { o << "second definition " << def2; });
      Program a(def2);
      std::vector<PM> got;
      for (auto& x : single) got.push_back(a.receiveDebug(message(x)));
      for (size_t k = 0; k < single.size(); k++) {
        std::string d = diff(cumulate({base[k]}), cumulate({got[k]}));
        if (!d.empty()) c.fail("call " + std::to_string(k + 1) + ": with the connections in another order the trace differs: " + d);
      }
      break;
    }
    case 3: {
      c.label("instances interleaved");
      auto ev2 = gen::history(s, p, 40);
      Program a(def), b(def);
      std::unique_ptr<Program> t;
      // one more gets nearly the same numbers at the same times
      auto near = std::make_unique<Program>(def);
      double by = s.oneof<double>({0x1p-52, 0x1p-46, 0x1p-40, 0x1p-30});
      size_t k = 0;
      for (size_t i = 0; i < single.size(); i++) {
        while (k < ev2.size() && s.flip()) b.receive(message({ev2[k++]}));
        if (s.chance(1, 8)) t.reset(s.flip() ? new Program(def) : nullptr);  // others come and go
        if (t && s.flip()) t->receive(message(single[i]));
        if (near) {
          auto x = single[i];
          for (auto& e : x)
            if (e.m.v != 1) e.m.v += e.m.v * by;
          try {
            near->receive(message(x));
          } catch (const std::exception&) {
            near.reset();
          }
        }
        PM g = a.receiveDebug(message(single[i]));
        std::string d = diff(cumulate({base[i]}), cumulate({g}));
        if (!d.empty()) c.fail("call " + std::to_string(i + 1) + ": next to another instance the trace differs: " + d);
      }
      break;
    }
    case 4: {
      c.label("twice");
      Program a(def);
      for (size_t i = 0; i < single.size(); i++) {
        // a mixture of both kinds of call is the same history
        if (s.flip()) {
          PM g = a.receiveDebug(message(single[i]));
          if (!same(g, base[i])) c.fail("call " + std::to_string(i + 1) + ": running again gave " + nat::show(g) + " instead of " + nat::show(base[i]));
        } else {
          PM g = a.receive(message(single[i]));
          if (!same(g, baseOut[i]))
            c.fail("call " + std::to_string(i + 1) + ": running again gave " + nat::show(g) + " instead of " + nat::show(baseOut[i]));
        }
      }
      break;
    }
  }
  if (want.size() >= 3 && ev.size() >= 5) c.mark();
}
PBT_MAIN("C17", prop, 40000, 2000000, "at least 5 messages in, and at least three operators emitted something")
