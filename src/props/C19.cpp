#include "../api.h"

using namespace api;

// The model: every live program is a standalone Program fed the same messages, every buffer a list.
struct Live {
  std::unique_ptr<Program> alone;
  gen::Prog def;
  std::string text;
  std::vector<Event> history;  // messages to be delivered
  size_t next = 0;
  int64_t last = -1;  // newest time handed out, also before a restored snapshot was taken
};
struct Model {
  std::map<std::string, Live> live;
  std::map<std::string, std::map<std::string, std::vector<ref::Msg>>> buffer;
};

static OM buffered(const std::map<std::string, std::vector<ref::Msg>>& b) {
  OM om;
  for (auto& [port, ms] : b)
    for (auto& m : ms) om[port].push_back(nat::conv(m));
  return om;
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  static const std::vector<std::string> IDS = {"a", "b", "prog 1", ""};
  int nids = (int)s.range(1, 4);
  auto id_of = [&]() { return IDS[s.below(nids)]; };
  int registries = s.chance(1, 4) ? 2 : 1;
  std::vector<std::unique_ptr<FactoryOp>> reg;
  std::vector<Model> model(registries);
  for (int i = 0; i < registries; i++) reg.push_back(std::make_unique<FactoryOp>());
  std::vector<std::pair<Bytes, std::pair<int, std::string>>> dummy;

  // a few definitions, each with its own history
  gen::Options opt;
  opt.maxOps = 5;
  opt.pipelines = s.chance(1, 4);
  std::vector<gen::Prog> defs;
  int nd = (int)s.range(1, 3);
  for (int i = 0; i < nd; i++) defs.push_back(gen::program(s, opt));
  std::vector<std::string> texts;
  for (auto& d : defs) texts.push_back(gen::prog_json(d).dump());
  c.log([&](std::ostream& o) {
    for (auto& t : texts) o << "definition " << t << "\n";
  });

  struct Snapshot {
    Bytes fromRegistry, fromModel;
    int def;
    int64_t last;
  };
  std::vector<Snapshot> snaps;
  std::map<std::pair<int, std::string>, int> defOf;

  int steps = (int)s.range(5, 60 * s.sizeFactor);
  size_t processed = 0, refusals = 0, recreated = 0;
  std::set<std::pair<int, std::string>> everDeleted;
  for (int step = 0; step < steps; step++) {
    int r = (int)s.below(registries);
    FactoryOp& f = *reg[r];
    Model& m = model[r];
    std::string id = id_of();
    bool alive = m.live.count(id) > 0;
    Live* L = alive ? &m.live[id] : nullptr;
    std::ostringstream at;
    auto say = [&](const std::string& what) {
      c.log([&](std::ostream& o) { o << step + 1 << ": registry " << r << " " << what << " \"" << id << "\"\n"; });
      return "step " + std::to_string(step + 1) + ", " + what + " \"" + id + "\": ";
    };
    auto refused = [&](const std::string& what, auto call) {
      bool threw = false;
      try {
        call();
      } catch (const std::exception&) {
        threw = true;
      }
      if (!threw) c.fail(what + "an unknown program was not refused");
      refusals++;
    };
    auto next_message = [&](Live& l) -> Event {
      if (l.next >= l.history.size()) {
        auto ev = gen::history(s, l.def, 12);
        if (ev.empty()) c.discard();
        int64_t last = l.last;
        int64_t first = INT64_MAX;
        for (auto& e : ev) first = std::min(first, e.m.t);
        for (auto& e : ev) {
          if (last >= 0) e.m.t += last + 1 - first;
          l.history.push_back(e);
        }
      }
      l.last = std::max(l.last, l.history[l.next].m.t);
      return l.history[l.next++];
    };
    auto born = [&](int d) {
      Live l;
      l.def = defs[d];
      l.text = texts[d];
      m.live[id] = std::move(l);
      defOf[{r, id}] = d;
      if (everDeleted.count({r, id})) recreated++;
    };
    switch (s.weighted({5, 8, 6, 3, 6, 3, 2, 2, 2, 2, 1})) {
      case 0: {  // create from text
        int d = (int)s.below(nd);
        std::string w = say("create from definition " + std::to_string(d) + " as");
        std::string res = "";
        try {
          res = f.createProgram(id, texts[d]);
        } catch (const std::exception& e) {
          if (!alive) c.fail(w + "threw " + e.what());
        }
        if (!alive) {
          c.require(res.empty(), w + "returned " + res);
          born(d);
          m.live[id].alone = std::make_unique<Program>(texts[d]);
        }
        break;
      }
      case 1: {  // buffer
        if (!alive) {
          std::string w = say("buffer a message for");
          refused(w, [&] { f.addToMessageBuffer(id, "i1", nat::conv(ref::Msg{1, 1})); });
          break;
        }
        int n = (int)s.range(1, 4);
        for (int k = 0; k < n; k++) {
          Event e = next_message(*L);
          std::ostringstream t;
          t << "buffer " << e.port << "(" << e.m.t << "," << e.m.v << ") for";
          std::string w = say(t.str());
          c.require(f.addToMessageBuffer(id, e.port, nat::conv(e.m)), w + "returned false");
          m.buffer[id][e.port].push_back(e.m);
        }
        break;
      }
      case 2: {  // process the buffer
        bool dbg = s.flip();
        std::string w = say(dbg ? "process (debug) the buffer of" : "process the buffer of");
        if (!alive) {
          refused(w, [&] { dbg ? f.processMessageBufferDebug(id) : f.processMessageBuffer(id); });
          break;
        }
        OM om = buffered(m.buffer[id]);
        m.buffer.erase(id);
        Outcome got = attempt([&] { return dbg ? f.processMessageBufferDebug(id) : f.processMessageBuffer(id); });
        Outcome want = attempt([&] { return om.empty() ? PM{} : dbg ? L->alone->receiveDebug(om) : L->alone->receive(om); });
        if (!same(got, want)) c.fail(w + "returned " + show(got) + ", the program alone " + show(want));
        if (!om.empty()) processed++;
        break;
      }
      case 3: {  // delete
        std::string w = say("delete");
        bool res = f.deleteProgram(id);
        c.require(res == alive, w + (res ? "claims to have deleted something" : "did not find it"));
        if (alive) everDeleted.insert({r, id});
        m.live.erase(id);
        m.buffer.erase(id);
        break;
      }
      case 4: {  // direct call, past the buffer
        bool dbg = s.flip();
        std::string w = say(dbg ? "process (debug) a message for" : "process a message for");
        if (!alive) {
          OM om;
          om["i1"].push_back(nat::conv(ref::Msg{1, 1}));
          PM got;
          bool threw = false;
          try {
            got = dbg ? f.processMessageMapDebug(id, om) : f.processMessageMap(id, om);
          } catch (const std::exception&) {
            threw = true;
          }
          c.require(threw || got.empty(), w + "an unknown program returned " + nat::show(got));
          refusals++;
          break;
        }
        // only an Input copes with messages that overtake the buffered ones
        if (L->def.node(L->def.entry).type != "Input" && m.buffer.count(id)) break;
        Batch b;
        int n = (int)s.range(1, 3);
        for (int k = 0; k < n; k++) b.push_back(next_message(*L));
        c.log([&](std::ostream& o) {
          gen::show_events(o, b);
          o << "\n";
        });
        OM om = message(b);
        Outcome got = attempt([&] { return dbg ? f.processMessageMapDebug(id, om) : f.processMessageMap(id, om); });
        Outcome want = attempt([&] { return dbg ? L->alone->receiveDebug(om) : L->alone->receive(om); });
        if (!same(got, want)) c.fail(w + "returned " + show(got) + ", the program alone " + show(want));
        processed++;
        break;
      }
      case 5: {  // queries
        std::string w = say("query");
        if (!alive) {
          refused(w, [&] { f.getProgramEntryOperatorId(id); });
          refused(w, [&] { f.getProgramEntryPorts(id); });
          refused(w, [&] { f.getProgramOutputFilter(id); });
          break;
        }
        c.require(f.getProgramEntryOperatorId(id) == L->def.entry, w + "entry operator is " + f.getProgramEntryOperatorId(id));
        auto ports = f.getProgramEntryPorts(id);
        std::set<std::string> a(ports.begin(), ports.end()), b;
        for (auto& p : L->def.node(L->def.entry).ins) b.insert(p);
        c.require(a == b && ports.size() == b.size(), w + "wrong entry ports");
        c.require(f.getProgramOutputFilter(id) == L->def.output, w + "wrong output map");
        break;
      }
      case 6: {  // serialise
        std::string w = say("serialise");
        if (!alive) {
          refused(w, [&] { f.serialize(id); });
          break;
        }
        if (L->def.node(L->def.entry).type != "Input" && m.buffer.count(id)) break;
        snaps.push_back({f.serialize(id), L->alone->serialize(), defOf[{r, id}], L->last});
        break;
      }
      case 7: {  // create from a snapshot
        if (snaps.empty()) break;
        auto& q = snaps[s.below(snaps.size())];
        std::string w = say("restore a snapshot of definition " + std::to_string(q.def) + " as");
        if (alive) {
          bool threw = false;
          try {
            f.createProgram(id, q.fromRegistry);
          } catch (const std::exception&) {
            threw = true;
          }
          (void)threw;  // refused or ignored: the existing program is what counts
          break;
        }
        f.createProgram(id, q.fromRegistry);
        born(q.def);
        m.live[id].alone = std::make_unique<Program>(q.fromModel);
        m.live[id].last = q.last;
        break;
      }
      case 8: {  // a definition that must be refused
        std::string w = say("create from a broken definition as");
        json j = json::parse(texts[s.below(nd)]);
        std::string t;
        switch (s.below(3)) {
          case 0: t = j.dump().substr(0, s.below(j.dump().size())); break;
          case 1:
            j["entryOperator"] = "nobody";
            t = j.dump();
            break;
          default:
            j["operators"][0]["type"] = "Nothing";
            t = j.dump();
        }
        bool bad = false;
        try {
          bad = !f.createProgram(id, t).empty();
        } catch (const std::exception&) {
          bad = true;
        }
        if (!alive) {
          c.require(bad, w + "it was accepted");
          refused(w, [&] { f.getProgramEntryOperatorId(id); });
        }
        break;
      }
      case 9: {  // a message for a port that does not exist poisons one processing call, no more
        if (!alive || !s.chance(1, 4)) break;
        std::string w = say("buffer a message for an unknown port of");
        std::string port = s.flip() ? "i99" : "a";
        f.addToMessageBuffer(id, port, nat::conv(ref::Msg{5, 5}));
        m.buffer[id][port].push_back({5, 5});
        c.label("message for an unknown port");
        break;
      }
      case 10: {  // look at every program
        say("look around, starting from");
        for (auto& x : IDS) {
          bool known = true;
          try {
            f.getProgramEntryOperatorId(x);
          } catch (const std::exception&) {
            known = false;
          }
          c.require(known == (m.live.count(x) > 0), "step " + std::to_string(step + 1) + ": program \"" + x + "\" " +
                                                        (known ? "exists but should not" : "should exist but does not"));
        }
        break;
      }
    }
  }
  // at the end every program still answers as it does alone
  for (int r = 0; r < registries; r++)
    for (auto& x : IDS) {
      auto it = model[r].live.find(x);
      if (it == model[r].live.end()) {
        bool known = true;
        try {
          reg[r]->getProgramEntryOperatorId(x);
        } catch (const std::exception&) {
          known = false;
        }
        c.require(!known, "at the end the deleted or never created program \"" + x + "\" exists");
        continue;
      }
      OM om = buffered(model[r].buffer[x]);
      Outcome got = attempt([&] { return reg[r]->processMessageBufferDebug(x); });
      Outcome want = attempt([&] { return om.empty() ? PM{} : it->second.alone->receiveDebug(om); });
      if (!same(got, want)) c.fail("at the end the buffer of \"" + x + "\" yields " + show(got) + ", the program alone " + show(want));
    }
  if (refusals) c.label("refused calls");
  if (recreated) c.label("recreated after deletion");
  if (!snaps.empty()) c.label("serialised");
  if (processed >= 3 && (refusals || recreated)) c.mark();
}
PBT_MAIN("C19", prop, 40000, 2000000, "at least three processing calls delivered messages and some call was refused or an id was used again after deletion")
