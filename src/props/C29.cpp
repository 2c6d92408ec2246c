#include "../child.h"
#include "../schema.h"
#include "rtbot/bindings.h"

using namespace api;

// A program assembled through the javascript classes next to a model of it, run next to the native engine.
namespace {
std::vector<std::string> order(const std::string& t) {
  static const std::set<std::string> PORTS = {"Input", "Output", "Join", "Demultiplexer"};
  static const std::set<std::string> N = {"MovingAverage", "StandardDeviation", "PeakDetector"};
  static const std::set<std::string> COEFF = {"FiniteImpulseResponse", "AutoRegressive", "Linear"};
  static const std::set<std::string> VALUE = {"Add", "Scale", "Power", "Constant", "GreaterThan", "LessThan", "EqualTo", "Variable"};
  if (PORTS.count(t)) return {"id", "numPorts"};
  if (N.count(t)) return {"id", "n"};
  if (COEFF.count(t)) return {"id", "coeff"};
  if (VALUE.count(t)) return {"id", "value"};
  if (t == "CosineResampler" || t == "HermiteResampler") return {"id", "dt"};
  if (t == "ConstantResampler") return {"id", "interval"};
  if (t == "TimeShift") return {"id", "dt", "times"};
  if (t == "Function") return {"id", "points", "interpolation"};
  return {"id"};
}
json defaults(const std::string& t) {
  if (t == "Input" || t == "Output" || t == "Demultiplexer") return json::object({{"numPorts", 1}});
  if (t == "Join") return json::object({{"numPorts", 2}});
  if (t == "Variable") return json::object({{"value", 0}});
  if (t == "TimeShift") return json::object({{"dt", 1}, {"times", 1}});
  if (t == "Function") return json::object({{"interpolation", "linear"}});
  return json::object();
}
json full(json op) {
  json d = defaults(op.value("type", ""));
  for (auto& [k, v] : d.items())
    if (!op.contains(k)) op[k] = v;
  return op;
}

struct Model {
  bool exists = true;
  json meta = json::object();  // what is neither operators nor connections
  std::vector<json> ops, conns;
  json definition() const {
    json j = meta;
    j["operators"] = ops;
    j["connections"] = conns;
    return j;
  }
  bool has(const std::string& id) const {
    for (auto& o : ops)
      if (o["id"] == id) return true;
    return false;
  }
};
json comparable(json p) {
  for (const char* k : {"programId", "defaultPort"}) p.erase(k);
  for (auto& o : p["operators"]) o = full(o);
  return p;
}

struct Expect {
  std::string what;
  std::function<void(const json&, const std::string&)> check;  // the answer, where
};

Child& child() {
  static Child c({"node", std::string(BUILD_DIR) + "/js/child.js", std::string(BUILD_DIR) + "/js/engine.node"});
  return c;
}

// the definition is one the native engine takes, or its reason not to
bool refused(const json& def, std::string* reason = nullptr) {
  deleteProgram("x");
  bool r = false;
  std::string why;
  try {
    std::string a = createProgram("x", def.dump());
    r = !a.empty();
    if (r) why = json::parse(a).value("error", "");
  } catch (const std::exception&) {
    r = true;
  }
  deleteProgram("x");
  // the reason starts with the definition, which may spell the defaults out
  if (reason) *reason = why.substr(std::min(why.size(), why.rfind(" - ") + 1));
  return r;
}

void prop(pbt::Source& s, pbt::Ctx& c) {
  json steps = json::array();
  std::vector<Expect> expects;
  std::vector<Model> models;
  std::vector<json> made;
  size_t runs = 0, emitted = 0, refusals = 0, edits = 0;
  auto add = [&](json step, const std::string& what, std::function<void(const json&, const std::string&)> check) {
    steps.push_back(std::move(step));
    expects.push_back({what, std::move(check)});
  };
  auto fine = [&](const json& a, const std::string& w) { c.require(a.contains("ok"), w + "raised " + a.dump()); };
  auto raises = [&](const json& a, const std::string& w, const std::string& reason = "") {
    c.require(a.contains("error"), w + "was not refused: " + a.dump());
    c.require(!a["error"].get<std::string>().empty(), w + "gave no reason");
    c.require(a["error"].get<std::string>().find(reason) != std::string::npos, w + "raised " + a.dump() + ", the engine's reason is " + reason);
  };

  gen::Options opt;
  opt.maxOps = 6;
  opt.documented = true;
  gen::Prog def = gen::program(s, opt);
  bool parsed = s.chance(1, 4);
  json plan = parsed && s.flip() ? gen::prog_json(def, &s) : gen::prog_json(def);
  if (!parsed) plan.erase("output");
  bool explicitPorts = true;
  for (auto& k : plan["connections"]) explicitPorts = explicitPorts && k.contains("fromPort") && k.contains("toPort");

  auto describe = [&](json& j) {
    if (s.chance(1, 4)) j["title"] = s.oneof<const char*>({"Peak detector", "", "a \"quoted\" title \\ \xc3\xa9"});
    if (s.chance(1, 6)) j["description"] = "some text\nover two lines";
    if (s.chance(1, 6)) j["date"] = s.oneof<const char*>({"2000-01-01", "2024-02-29"});
    if (s.chance(1, 6)) j["author"] = "Someone <someone@gmail.com>";
    if (s.chance(1, 6)) j["license"] = s.oneof<const char*>({"MIT", "private"});
  };

  auto look = [&](int p) {
    if (!models[p].exists) return;
    Model m = models[p];
    std::string who = "program " + std::to_string(p);
    if (s.chance(1, 3))
      add({{"do", "validate"}, {"p", p}}, "validate " + who, [=, &c](const json& a, const std::string& w) {
        fine(a, w);
        c.require(a["ok"]["threw"] == false && a["ok"]["success"] == true, w + "says " + a.dump() + " of " + m.definition().dump());
      });
    else
      add({{"do", "json"}, {"p", p}}, "json of " + who, [=, &c](const json& a, const std::string& w) {
        fine(a, w);
        json want = comparable(m.definition());
        for (const char* k : {"json", "plain"}) {
          json got = a["ok"][k];
          c.require(got.contains("programId") && got["programId"].is_string() && !got["programId"].get<std::string>().empty(), w + "no program id: " + got.dump());
          if (comparable(got) != want) c.fail(w + "(" + k + ") yields " + comparable(got).dump() + ", declared was " + want.dump());
        }
      });
  };

  auto ports_of = [&](const json& d) {
    std::string entry = d.value("entryOperator", "");
    for (auto& n : def.nodes)
      if (n.id == entry) return n.ins.size();
    return (size_t)1;
  };

  auto run = [&](int p) {
    Model m = models[p];
    json d = m.definition();
    size_t ports = ports_of(d);
    json data = json::array();
    int64_t t = s.chance(1, 4) ? 1700000000123 : s.range(0, 20);
    int rows = s.chance(1, 6) ? (int)s.range(20, 60) : (int)s.range(0, 12);
    bool wild = s.chance(1, 5);
    for (int i = 0; i < rows; i++) {
      json row = json::array({t});
      for (size_t k = 0; k < ports; k++)
        row.push_back(wild && s.chance(1, 3) ? s.oneof({0.1, 1e300, -1e-310, 123456789.123456789, 1.0 / 3}) : s.range(-16, 16) / 4.0);
      data.push_back(row);
      t += s.range(1, 6) * def.scale;
    }
    std::string reason;
    bool no = refused(d, &reason);
    std::map<std::string, std::pair<json, json>> want;
    json list = json::array();
    bool fails = no;
    if (!no) {
      FactoryOp twin;
      twin.createProgram("x", d.dump());
      auto names = twin.getProgramEntryPorts("x");
      try {
        for (auto& row : data) {
          json in = json::object();
          for (size_t i = 0; i < names.size(); i++) {
            twin.addToMessageBuffer("x", names[i], nat::NMsg(row[0].get<uint64_t>(), row[i + 1].get<double>()));
            in[names[i]] = json::array({json{{"time", row[0]}, {"value", row[i + 1]}}});
          }
          auto pm = twin.processMessageBufferDebug("x");
          list.push_back({{"in", in}, {"out", schema::rendered(pm)}});
          for (auto& [id, om] : pm)
            for (auto& [port, ms] : om)
              for (auto& x : ms) {
                auto& w = want[id + ":" + port];
                w.first.push_back(x.time);
                w.second.push_back(schema::number(x.value));
                emitted++;
              }
        }
      } catch (const std::exception&) {
        fails = true;
      }
    }
    if (fails) refusals++;
    runs++;
    bool extended = s.chance(1, 3), text = s.chance(1, 4);
    int times = s.chance(1, 3) ? 2 : 1;
    for (int k = 0; k < times; k++)
      add({{"do", "run"}, {"p", p}, {"data", data}, {"extended", extended}, {"text", text}, {"verbose", s.chance(1, 6)}},
          "run program " + std::to_string(p) + (extended ? " (extended)" : ""), [=, &c](const json& a, const std::string& w) {
        c.require(a["live"] == 0, w + "left a program in the engine");
        if (fails) {
          raises(a, w, reason);
          return;
        }
        fine(a, w);
        const json& out = a["ok"]["out"];
        if (extended) {
          if (out != list) c.fail(w + "returned " + out.dump() + ", the native engine emits " + list.dump());
        } else {
          std::map<std::string, std::pair<json, json>> got;
          for (auto& [k, v] : out.items()) {
            c.require(v.is_array() && v.size() == 2, w + "returned " + out.dump());
            if (v[0].size() || v[1].size()) got[k] = {v[0], v[1]};
          }
          if (got != want) {
            json x;
            for (auto& [k, v] : want) x[k] = {v.first, v.second};
            c.fail(w + "returned " + out.dump() + ", the native engine emits " + x.dump());
          }
        }
        double last = 0;
        for (auto& x : a["ok"]["progress"]) {
          c.require(x.is_number() && x >= last && x <= 1, w + "reported the progress " + a["ok"]["progress"].dump());
          last = x;
        }
      });
  };

  // start, single messages, stop
  auto serve = [&](int p) {
    Model m = models[p];
    json d = m.definition();
    std::string reason;
    bool no = refused(d, &reason);
    std::string who = "program " + std::to_string(p);
    add({{"do", "start"}, {"p", p}}, "start " + who, [=, &c](const json& a, const std::string& w) {
      no ? raises(a, w, reason) : fine(a, w);
      c.require(a["live"] == (no ? 0 : 1), w + "there are now " + a["live"].dump() + " programs in the engine");
    });
    if (no) {
      refusals++;
      return;
    }
    runs++;
    auto twin = std::make_shared<FactoryOp>();
    twin->createProgram("x", d.dump());
    auto names = twin->getProgramEntryPorts("x");
    std::string first = names.empty() ? "i1" : names[0];
    std::map<std::string, int64_t> t;
    for (int n = (int)s.range(0, 14); n > 0; n--) {
      if (s.chance(1, 25)) {
        // refused or ignored: what runs goes on undisturbed
        add({{"do", "start"}, {"p", p}}, "start " + who + " again", [=, &c](const json& a, const std::string& w) {
          c.require(a["live"] == 1, w + "there are now " + a["live"].dump() + " programs in the engine");
        });
        refusals++;
      }
      size_t many = s.chance(1, 4) ? s.range(2, 5) : 1;  // that many without waiting for the answers
      json burst = json::array();
      std::vector<Outcome> wants;
      for (size_t q = 0; q < many; q++) {
        bool named = s.chance(2, 3), debug = s.flip();
        std::string port = named ? (s.chance(1, 20) ? "i77" : names[s.below(names.size())]) : first;
        int64_t at = t[port] += s.range(1, 6) * def.scale;
        double v = s.range(-16, 16) / 4.0;
        Outcome want = attempt([&] {
          twin->addToMessageBuffer("x", port, nat::NMsg((uint64_t)at, v));
          return debug ? twin->processMessageBufferDebug("x") : twin->processMessageBuffer("x");
        });
        emitted += count(want.out);
        json st = {{"time", at}, {"value", v}, {"debug", debug}};
        if (named) st["port"] = port;
        burst.push_back(st);
        wants.push_back(want);
      }
      auto answer = [=, &c](const json& a, const Outcome& want, const std::string& w) {
        if (want.threw) {
          raises(a, w);
          return;
        }
        fine(a, w);
        json x = schema::rendered(want.out);
        if (a["ok"] != x) c.fail(w + "returned " + a["ok"].dump() + ", the native engine emits " + x.dump());
      };
      if (many == 1) {
        json st = burst[0];
        st["do"] = "send";
        st["p"] = p;
        add(st, "send to " + who, [=](const json& a, const std::string& w) { answer(a, wants[0], w); });
      } else {
        c.label("overlapping");
        add({{"do", "burst"}, {"p", p}, {"messages", burst}}, "send " + std::to_string(many) + " messages at once to " + who, [=, &c](const json& a, const std::string& w) {
          fine(a, w);
          c.require(a["ok"].size() == many, w + "returned " + a["ok"].dump());
          for (size_t q = 0; q < many; q++) answer(a["ok"][q], wants[q], w + "message " + std::to_string(q + 1) + " ");
        });
      }
    }
    add({{"do", "stop"}, {"p", p}}, "stop " + who, [=, &c](const json& a, const std::string& w) {
      fine(a, w);
      c.require(a["live"] == 0, w + "the program is still in the engine");
    });
    if (s.chance(1, 3))
      add({{"do", "send"}, {"p", p}, {"time", 1000000}, {"value", 1}, {"debug", s.flip()}}, "send to the stopped " + who,
          [=](const json& a, const std::string& w) { raises(a, w); });
  };

  auto use = [&](int p) {
    if (s.flip())
      run(p);
    else
      serve(p);
  };

  // changes of a program that stands
  auto edit = [&](int p) {
    Model& m = models[p];
    edits++;
    std::string in = " in program " + std::to_string(p);
    switch (s.below(4)) {
      case 0: {  // an operator goes
        if (m.ops.empty()) return;
        bool unknown = s.chance(1, 6);
        std::string id = unknown ? "nobody" : m.ops[s.below(m.ops.size())]["id"].get<std::string>();
        if (id == m.meta.value("entryOperator", "")) return;
        add({{"do", "remove"}, {"p", p}, {"id", id}}, "delete operator " + id + in, [=](const json& a, const std::string& w) { fine(a, w); });
        std::vector<json> o, k;
        for (auto& x : m.ops)
          if (x["id"] != id) o.push_back(x);
        for (auto& x : m.conns)
          if (x["from"] != id && x["to"] != id) k.push_back(x);
        m.ops = o;
        m.conns = k;
        return;
      }
      case 1: {  // a connection goes
        if (m.conns.empty()) return;
        json k = m.conns[s.below(m.conns.size())];
        json args = json::array({k["from"], k["to"], k["fromPort"], k["toPort"]});
        if (s.chance(1, 3)) {  // something close to it that may not exist
          size_t at = s.below(4);
          args[at] = at < 2 ? m.ops[s.below(m.ops.size())]["id"].get<std::string>() : at == 2 ? ref::out((int)s.range(1, 3)) : ref::in((int)s.range(1, 3));
        }
        json want = args;
        if (args[3] == "i1" && s.flip()) {
          args.erase(3);
          if (args[2] == "o1") args.erase(2);
        }
        add({{"do", "disconnect"}, {"p", p}, {"args", args}}, "delete connection " + want.dump() + in, [=](const json& a, const std::string& w) { fine(a, w); });
        std::vector<json> left;
        for (auto& x : m.conns)
          if (json::array({x["from"], x["to"], x["fromPort"], x["toPort"]}) != want) left.push_back(x);
        m.conns = left;
        return;
      }
      case 2: {  // a connection that exists, or of an operator that does not
        if (m.conns.empty()) return;
        json k = m.conns[s.below(m.conns.size())];
        if (s.flip()) k[s.flip() ? "from" : "to"] = "nobody";
        add({{"do", "connect"}, {"p", p}, {"from", k["from"]}, {"to", k["to"]}, {"ports", json::array({k["fromPort"], k["toPort"]})}}, "connect " + k.dump() + in,
            [=](const json& a, const std::string& w) { raises(a, w); });
        refusals++;
        return;
      }
      default: {  // a new connection along the order of the operators (the list of nodes of gen::Prog is not sorted: take free inputs of an Output)
        std::vector<std::string> order;
        std::map<std::string, const gen::Node*> known;
        for (auto* n : gen::topo(def))
          if (m.has(n->id)) {
            order.push_back(n->id);
            known[n->id] = n;
          }
        if (order.size() < 2) return;
        size_t b = s.range(1, order.size() - 1), a = s.below(b);
        auto *f = known[order[a]], *t = known[order[b]];
        if (f->outs.empty() || t->ins.empty()) return;
        json k = {{"from", f->id}, {"to", t->id}, {"fromPort", f->outs[s.below(f->outs.size())]}, {"toPort", t->ins[s.below(t->ins.size())]}};
        bool there = false;
        for (auto& x : m.conns) there = there || x == k;
        // two streams that are not ordered between each other are nothing a resampler is made for
        if (!there && t->type != "Output")
          for (auto& x : m.conns)
            if (x["to"] == k["to"] && x["toPort"] == k["toPort"]) return;
        json ports = json::array({k["fromPort"], k["toPort"]});
        if (ports[1] == "i1" && s.flip()) {
          ports.erase(1);
          if (ports[0] == "o1" && s.flip()) ports.erase(0);
        }
        add({{"do", "connect"}, {"p", p}, {"from", k["from"]}, {"to", k["to"]}, {"ports", ports}}, "connect " + k.dump() + in,
            [=](const json& a2, const std::string& w) { there ? raises(a2, w) : fine(a2, w); });
        if (!there) m.conns.push_back(k);
        return;
      }
    }
  };

  if (parsed) {
    describe(plan);
    std::string how = s.chance(1, 3) ? schema::spoil(s, plan) : "";
    // what the package's own schema leaves open, or what the defaults of a new program fill in
    for (const char* k : {"no operators", "no connections", "entryOperator", "entry operator", "date", "output map", "definition is no object"})
      if (how.find(k) != std::string::npos) c.discard();
    bool ok = how.empty();
    add({{"do", "checkValid"}, {"text", plan.dump()}}, ok ? "check a definition" : "check a definition with a fault (" + how + ")",
        [=](const json& a, const std::string& w) { ok ? fine(a, w) : raises(a, w); });
    Model m;
    m.exists = ok;
    models.push_back(m);
    add({{"do", "parse"}, {"text", plan.dump()}}, "take a definition", [=](const json& a, const std::string& w) { fine(a, w); });
    if (!ok) {
      refusals++;
      add({{"do", "validate"}, {"p", 0}}, "validate a definition with a fault (" + how + ")", [=, &c](const json& a, const std::string& w) {
        fine(a, w);
        c.require(a["ok"]["threw"] == true && a["ok"]["success"] == false, w + "says " + a.dump());
      });
      add({{"do", "start"}, {"p", 0}}, "start it", [=, &c](const json& a, const std::string& w) {
        raises(a, w);
        c.require(a["live"] == 0, w + "left a program in the engine");
      });
    } else {
      Model& mm = models[0];
      mm.ops = plan["operators"].get<std::vector<json>>();
      mm.conns = plan["connections"].get<std::vector<json>>();
      mm.meta = plan;
      mm.meta.erase("operators");
      mm.meta.erase("connections");
      if (!mm.meta.contains("apiVersion")) mm.meta["apiVersion"] = "v1";
      look(0);
    }
  } else {
    Model m;
    describe(m.meta);
    bool late = s.chance(1, 8);
    std::string entry = plan["entryOperator"];
    if (!late) m.meta["entryOperator"] = entry;
    json args = json::array();
    for (const char* k : {"entryOperator", "title", "description", "date", "author", "license", "apiVersion"}) args.push_back(m.meta.contains(k) ? m.meta[k] : json());
    while (!args.empty() && args.back().is_null()) args.erase(args.size() - 1);
    m.meta["apiVersion"] = "v1";
    models.push_back(m);
    add({{"do", "program"}, {"args", args}}, "new Program", [=](const json& a, const std::string& w) { fine(a, w); });
    auto todoOps = plan["operators"].get<std::vector<json>>();
    auto todoConns = plan["connections"].get<std::vector<json>>();
    size_t at = 0;
    while (at < todoOps.size() || !todoConns.empty()) {
      Model& mm = models[0];
      switch (s.weighted({6, 4, 1, 1, 1})) {
        case 0: {
          if (at >= todoOps.size()) break;
          json o = todoOps[at++];
          std::string type = o["type"];
          json given = json::array(), d = defaults(type);
          for (auto& k : order(type)) given.push_back(d.contains(k) && (!o.contains(k) || (o[k] == d[k] && s.flip())) ? json{{"omitted", true}} : o[k]);
          while (given.back().is_object() && s.flip()) given.erase(given.size() - 1);
          json want = full(o);
          add({{"do", "operator"}, {"type", type}, {"args", given}}, "construct " + o.dump(), [=, &c](const json& a, const std::string& w) {
            fine(a, w);
            if (full(a["ok"]) != want) c.fail(w + "yields " + a["ok"].dump() + ", declared was " + want.dump());
          });
          made.push_back(o);
          add({{"do", "add"}, {"p", 0}, {"op", made.size() - 1}}, "add operator " + o.dump(), [=](const json& a, const std::string& w) { fine(a, w); });
          mm.ops.push_back(o);
          if (type == "Input") mm.meta["entryOperator"] = o["id"];
          break;
        }
        case 1: {
          if (todoConns.empty()) break;
          size_t k = s.below(todoConns.size());
          json conn = todoConns[k];
          bool known = mm.has(conn["from"]) && mm.has(conn["to"]);
          if (!known && !s.chance(1, 3)) break;
          bool there = false;
          for (auto& x : mm.conns) there = there || x == conn;
          json ports = json::array({conn["fromPort"], conn["toPort"]});
          if (ports[1] == "i1" && s.flip()) {
            ports.erase(1);
            if (ports[0] == "o1" && s.flip()) ports.erase(0);
          }
          bool ok = known && !there;
          add({{"do", "connect"}, {"p", 0}, {"from", conn["from"]}, {"to", conn["to"]}, {"ports", ports}}, "connect " + conn.dump(),
              [=](const json& a, const std::string& w) { ok ? fine(a, w) : raises(a, w); });
          if (ok) mm.conns.push_back(conn);
          if (known) todoConns.erase(todoConns.begin() + k);
          if (!ok) refusals++;
          break;
        }
        case 2: {
          json o = todoOps[s.below(todoOps.size())];
          std::string how = schema::spoil_operator(s, o);
          if (how.empty()) break;
          std::string type = o["type"];
          json given = json::array();
          for (auto& k : order(type)) given.push_back(o.contains(k) ? o[k] : json{{"omitted", true}});
          add({{"do", "operator"}, {"type", type}, {"args", given}}, "construct an operator with a fault (" + how + ")", [=](const json& a, const std::string& w) { raises(a, w); });
          made.push_back({{"id", "?"}, {"type", "?"}});
          refusals++;
          break;
        }
        case 3: look(0); break;
        case 4:
          if (s.chance(1, 3)) use(0);
          break;
      }
    }
    if (late) {
      use(0);
      models[0].meta["entryOperator"] = entry;
      add({{"do", "set"}, {"p", 0}, {"entry", entry}}, "set the entry operator", [=](const json& a, const std::string& w) { fine(a, w); });
    }
    look(0);
  }
  if (models[0].exists) {
    use(0);
    bool linked = explicitPorts || !parsed;
    for (int n = linked ? (int)s.below(5) : 0; n > 0; n--) {
      edit(0);
      if (s.flip()) look(0);
    }
    if (s.flip()) use(0);
    if (s.chance(1, 4)) {  // the same definition as text
      Model m = models[0];
      add({{"do", "parse"}, {"text", m.definition().dump()}}, "take the definition of program 0", [=](const json& a, const std::string& w) { fine(a, w); });
      models.push_back(m);
      look(1);
      use(1);
    }
  }
  c.log([&](std::ostream& o) {
    for (size_t i = 0; i < steps.size(); i++) o << i + 1 << ": " << expects[i].what << "\n    " << steps[i].dump() << "\n";
  });
  json answers = child().ask({{"steps", steps}}, c);
  c.require(answers.is_array() && answers.size() == steps.size(), "the harness answered " + answers.dump());
  for (size_t i = 0; i < answers.size(); i++) expects[i].check(answers[i], "step " + std::to_string(i + 1) + ", " + expects[i].what + ": ");
  if (refusals) c.label("something refused");
  if (edits) c.label("edited");
  if (runs > 1) c.label("several runs");
  if (emitted >= 3 && runs) c.mark();
}
}  // namespace
PBT_MAIN("C29", prop, 8000, 300000, "a program was run or started and at least three messages were emitted")
