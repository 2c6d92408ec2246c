#include "../schema.h"
#include "rtbot/bindings.h"

using namespace api;

// The binding layer next to a registry of its own: the same calls, message by message.
namespace {
struct Def {
  gen::Prog prog;
  json j;
  std::string text;
};
struct Text {
  bool threw = false;
  std::string s;
};
template <class F>
Text ask(F f) {
  Text t;
  try {
    t.s = f();
  } catch (const std::exception& e) {
    t.threw = true;
    t.s = e.what();
  }
  return t;
}
const std::vector<std::string> IDS = {"a", "b", "prog 1", ""};

void prop(pbt::Source& s, pbt::Ctx& c) {
  for (auto& x : IDS) deleteProgram(x);  // left by the previous case
  FactoryOp twin;
  gen::Options opt;
  opt.maxOps = 6;
  opt.documented = true;
  int nd = (int)s.range(1, 3), nids = (int)s.range(1, 4);
  std::vector<Def> defs;
  for (int i = 0; i < nd; i++) {
    Def d;
    d.prog = gen::program(s, opt);
    d.j = gen::prog_json(d.prog, &s);
    schema::describe(s, d.j);
    d.text = s.flip() ? d.j.dump() : d.j.dump(2);
    defs.push_back(d);
  }
  bool wild = s.chance(1, 4);
  int64_t shift = s.chance(1, 4) ? s.oneof<int64_t>({1700000000123, (1ll << 53) + 1, (1ll << 60) + 3, 4294967296}) : 0;
  c.log([&](std::ostream& o) {
    for (auto& d : defs) o << "definition " << d.j.dump() << "\n";
  });
  struct Live {
    int def;
    std::vector<Event> history;
    size_t next = 0;
    int64_t last = -1;
    bool pending = false;  // something may be buffered
  };
  struct Snapshot {
    Bytes bound, native;
    int def;
    int64_t last;
  };
  std::vector<Snapshot> snaps;
  std::map<std::string, Live> live;
  size_t delivered = 0, batches = 0, refused = 0;
  int steps = (int)s.range(3, 40 * s.sizeFactor);
  for (int step = 0; step < steps; step++) {
    std::string id = IDS[s.below(nids)];
    auto it = live.find(id);
    Live* L = it == live.end() ? nullptr : &it->second;
    std::string w;
    auto say = [&](const std::string& what) {
      c.log([&](std::ostream& o) { o << step + 1 << ": " << what << " \"" << id << "\"\n"; });
      w = "step " + std::to_string(step + 1) + ", " + what + " \"" + id + "\": ";
    };
    auto next = [&]() -> Event {
      if (!L) return {s.flip() ? "i1" : "i77", {5, 1}};
      if (s.chance(1, 40)) return {"i77", {5, 1}};
      if (L->next >= L->history.size()) {
        auto ev = gen::history(s, defs[L->def].prog, 10);
        if (ev.empty()) c.discard();
        int64_t first = INT64_MAX;
        for (auto& e : ev) first = std::min(first, e.m.t);
        for (auto& e : ev) {
          e.m.t += L->last >= 0 ? L->last + 1 - first : shift;
          if (wild && s.chance(1, 3)) e.m.v = s.oneof({0.1, 1e300, -1e-310, -0.0, 123456789.123456789, 1.0 / 3, -2.5e-7, 9007199254740993.0});
          L->history.push_back(e);
        }
      }
      L->last = std::max(L->last, L->history[L->next].m.t);
      return L->history[L->next++];
    };
    auto same_result = [&](const Text& got, const Outcome& want) {
      if (got.threw != want.threw) c.fail(w + (got.threw ? "threw " + got.s : "returned " + got.s) + ", the native registry " + show(want));
      if (got.threw) return;
      json g = json::parse(got.s), x = schema::rendered(want.out);
      if (g != x) c.fail(w + "returned " + got.s + ", the native registry yields " + x.dump());
    };
    auto rejected = [&](const std::string& answer) {
      json r = json::parse(answer);
      c.require(r.is_object() && r.contains("valid") && r["valid"] == false, w + "the answer is " + answer);
      c.require(r.contains("error") && r["error"].is_string() && !r["error"].get<std::string>().empty(), w + "no reason: " + answer);
    };
    switch (s.weighted({5, 5, 4, 6, 2, 4, 3, 2, 3, 3, 2, 2})) {
      case 0: {
        int d = (int)s.below(nd);
        say("create from definition " + std::to_string(d) + " as");
        auto got = ask([&] { return createProgram(id, defs[d].text); });
        auto want = ask([&] { return twin.createProgram(id, defs[d].text); });
        c.require(!want.threw && want.s.empty(), w + "the native registry refused it: " + want.s);
        c.require(!got.threw && got.s.empty(), w + "the answer is " + got.s);
        if (!L) live[id] = {d};
        break;
      }
      case 1: {
        int n = (int)s.range(1, 3);
        for (int i = 0; i < n; i++) {
          Event e = next();
          std::ostringstream o;
          o << "buffer " << e.port << "(" << e.m.t << "," << e.m.v << ") for";
          say(o.str());
          auto got = ask([&] { return addToMessageBuffer(id, e.port, (unsigned long)e.m.t, e.m.v); });
          auto want = ask([&] { return std::string(twin.addToMessageBuffer(id, e.port, nat::conv(e.m)) ? "1" : "0"); });
          c.require(got.threw == want.threw && (got.threw || got.s == want.s), w + "returned " + got.s + ", expected " + want.s);
          if (!L) refused++;
          if (L) L->pending = true;
        }
        break;
      }
      case 2: {
        bool dbg = s.flip();
        say(dbg ? "process the buffer (debug) of" : "process the buffer of");
        auto got = ask([&] { return dbg ? processMessageBufferDebug(id) : processMessageBuffer(id); });
        auto want = attempt([&] { return dbg ? twin.processMessageBufferDebug(id) : twin.processMessageBuffer(id); });
        same_result(got, want);
        delivered += count(want.out);
        if (L) L->pending = false;
        break;
      }
      case 3: {
        bool dbg = s.flip();
        int n = (int)s.range(0, s.chance(1, 5) ? 30 : 6);
        std::vector<uint64_t> times;
        std::vector<double> values;
        std::vector<std::string> ports;
        std::ostringstream o;
        for (int i = 0; i < n; i++) {
          Event e = next();
          times.push_back((uint64_t)e.m.t);
          values.push_back(e.m.v);
          ports.push_back(e.port);
          o << " " << e.port << "(" << e.m.t << "," << e.m.v << ")";
        }
        if (s.chance(1, 15)) {  // vectors of different lengths are refused and nothing is buffered
          switch (s.below(3)) {
            case 0: times.push_back(1); break;
            case 1: values.push_back(1); break;
            default: ports.push_back("i1");
          }
          say("uneven batch for");
          auto got = ask([&] { return dbg ? processBatchDebug(id, times, values, ports) : processBatch(id, times, values, ports); });
          c.require(got.threw, w + "it was accepted: " + got.s);
          refused++;
          break;
        }
        say((dbg ? "batch (debug) of" : "batch of") + o.str() + " for");
        auto got = ask([&] { return dbg ? processBatchDebug(id, times, values, ports) : processBatch(id, times, values, ports); });
        auto want = attempt([&] {
          for (int i = 0; i < n; i++) twin.addToMessageBuffer(id, ports[i], nat::NMsg(times[i], values[i]));
          return dbg ? twin.processMessageBufferDebug(id) : twin.processMessageBuffer(id);
        });
        same_result(got, want);
        delivered += count(want.out);
        if (n > 1 && !want.threw) batches++;
        if (L) L->pending = false;
        break;
      }
      case 4: {
        say("delete");
        auto got = ask([&] { return deleteProgram(id); });
        twin.deleteProgram(id);
        c.require(!got.threw && got.s == (L ? "1" : "0"), w + "returned " + got.s);
        live.erase(id);
        break;
      }
      case 5: {
        int kind = (int)s.below(3);
        // only an Input copes with messages that overtake the buffered ones
        if (L && L->pending && defs[L->def].prog.node(defs[L->def].prog.entry).type != "Input") break;
        Batch b;
        int n = (int)s.range(1, 3);
        for (int k = 0; k < n; k++) b.push_back(next());
        OM om = message(b);
        std::ostringstream o;
        gen::show_events(o, b);
        say(std::string(kind == 0 ? "message map" : kind == 1 ? "message map (debug)" : "native message map") + " " + o.str() + " for");
        Outcome want = attempt([&] { return kind == 1 ? twin.processMessageMapDebug(id, om) : twin.processMessageMap(id, om); });
        if (kind == 2) {
          Outcome got = attempt([&] { return processMessageMapNative(id, om); });
          if (!same(got, want)) c.fail(w + "returned " + show(got) + ", the native registry " + show(want));
        } else
          same_result(ask([&] { return kind == 1 ? processMessageMapDebug(id, om) : processMessageMap(id, om); }), want);
        delivered += count(want.out);
        break;
      }
      case 6: {
        say("query");
        auto e = ask([&] { return getProgramEntryOperatorId(id); });
        auto p = ask([&] { return getProgramEntryPorts(id); });
        auto f = ask([&] { return getProgramOutputFilter(id); });
        if (!L) {
          c.require(e.threw && p.threw && f.threw, w + "an unknown program was not refused");
          refused++;
          break;
        }
        auto& d = defs[L->def];
        c.require(!e.threw && e.s == d.prog.entry, w + "the entry operator is " + e.s);
        json ports = json::parse(p.s);
        c.require(!p.threw && ports == json(twin.getProgramEntryPorts(id)), w + "the entry ports are " + p.s);
        std::set<std::string> a, b(d.prog.node(d.prog.entry).ins.begin(), d.prog.node(d.prog.entry).ins.end());
        for (auto& x : ports) a.insert(x.get<std::string>());
        c.require(a == b, w + "the entry ports are " + p.s);
        json out = json::parse(f.s), want = d.j.contains("output") ? d.j["output"] : json::object();
        c.require(!f.threw && out == want, w + "the output map is " + f.s);
        break;
      }
      case 7: {
        say("serialise");
        if (L && L->pending) break;
        Bytes got;
        auto g = ask([&] {
          got = serializeProgram(id);
          return std::string();
        });
        Bytes want;
        auto x = ask([&] {
          want = twin.serialize(id);
          return std::string();
        });
        c.require(g.threw == x.threw, w + "only one of them refused");
        if (!g.threw) snaps.push_back({got, want, L->def, L->last});
        break;
      }
      case 8: {
        if (snaps.empty()) break;
        auto& q = snaps[s.below(snaps.size())];
        say("restore a snapshot of definition " + std::to_string(q.def) + " as");
        auto got = ask([&] {
          createProgram(id, q.bound);
          return std::string();
        });
        auto want = ask([&] {
          twin.createProgram(id, q.native);
          return std::string();
        });
        c.require(got.threw == want.threw, w + (got.threw ? "threw " + got.s : "did not throw, the native registry: " + want.s));
        if (!L) live[id] = {q.def, {}, 0, q.last};
        break;
      }
      case 9: {  // a definition that breaks the schema
        json j = defs[s.below(nd)].j;
        std::string how = schema::spoil(s, j), text = j.dump();
        if (s.chance(1, 10)) {
          text.resize(s.below(text.size() - 1));
          how = "cut off";
        }
        say("create from an invalid definition (" + how + ") as");
        c.log([&](std::ostream& o) { o << "  " << text << "\n"; });
        auto got = ask([&] { return createProgram(id, text); });
        c.require(!got.threw, w + "threw " + got.s);
        rejected(got.s);
        auto v = ask([&] { return validate(text); });
        c.require(!v.threw, w + "validate threw " + v.s);
        rejected(v.s);
        auto e = ask([&] { return getProgramEntryOperatorId(id); });
        c.require(e.threw == !L, w + (L ? "the program of that id is gone" : "it created a program"));
        refused++;
        break;
      }
      case 10: {  // one that satisfies it; the registry may still refuse it
        json j = defs[s.below(nd)].j;
        int kind = (int)s.below(3);
        if (kind == 1) j["entryOperator"] = "nobody";
        if (kind == 2) j["connections"].push_back({{"from", "nobody"}, {"to", j["operators"][0]["id"]}});
        say(std::string("validate ") + (kind ? "a definition that dangles" : "a definition") + ", then create it as");
        std::string text = j.dump();
        auto v = ask([&] { return validate(text); });
        json r = v.threw ? json() : json::parse(v.s);
        c.require(!v.threw && r.is_object() && r.value("valid", false) && !r.contains("error"), w + "validation says " + v.s);
        auto got = ask([&] { return createProgram(id, text); });
        auto want = ask([&] { return twin.createProgram(id, text); });
        c.require(got.threw == want.threw && (got.threw || got.s == want.s), w + "returned " + got.s + ", the native registry " + want.s);
        auto e = ask([&] { return getProgramEntryOperatorId(id); });
        if (!L && !e.threw) {
          c.require(kind == 0, w + "it was created");
          deleteProgram(id);
          twin.deleteProgram(id);
        }
        break;
      }
      case 11: {  // single operators
        json o = defs[s.below(nd)].j["operators"][0];
        std::string type = o["type"];
        say("validate operator " + o.dump() + " while at");
        auto v = ask([&] { return validateOperator(type, o.dump()); });
        json r = v.threw ? json() : json::parse(v.s);
        c.require(!v.threw && r.is_object() && r.value("valid", false), w + "validation says " + v.s);
        json bad = o;
        std::string how = schema::spoil_operator(s, bad);
        if (how.empty()) {
          bad = o;
          type = s.oneof<const char*>({"Nothing", "", "Pipeline"});
          how = "unknown type " + type;
        }
        say("validate operator " + bad.dump() + " (" + how + ") while at");
        auto b = ask([&] { return validateOperator(type, bad.dump()); });
        c.require(!b.threw, w + "validateOperator threw " + b.s);
        rejected(b.s);
        break;
      }
    }
  }
  if (shift) c.label("large timestamps");
  if (wild) c.label("wild values");
  if (refused) c.label("refused calls");
  if (batches) c.label("batches of several messages");
  if (!snaps.empty()) c.label("serialised");
  if (delivered >= 3 && batches) c.mark();
}
}  // namespace
PBT_MAIN("C27", prop, 10000, 600000, "batches of several messages were processed and at least three messages were emitted")
