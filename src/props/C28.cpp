#include "../child.h"
#include "../schema.h"
#include "rtbot/bindings.h"

using namespace api;

// A program assembled through the Python classes next to a model of it, run next to the native engine.
namespace {
const std::vector<std::string> order(const std::string& t) {
  static const std::set<std::string> PORTS = {"Input", "Output", "Join", "Demultiplexer"};
  static const std::set<std::string> N = {"MovingAverage", "StandardDeviation", "PeakDetector"};
  static const std::set<std::string> COEFF = {"FiniteImpulseResponse", "AutoRegressive", "Linear"};
  static const std::set<std::string> VALUE = {"Add", "Scale", "Power", "Constant", "GreaterThan", "LessThan", "EqualTo", "Variable"};
  if (PORTS.count(t)) return {"id", "numPorts"};
  if (N.count(t)) return {"id", "n"};
  if (COEFF.count(t)) return {"id", "coeff"};
  if (VALUE.count(t)) return {"id", "value"};
  if (t == "CosineResampler" || t == "HermiteResampler") return {"id", "dt"};
  if (t == "ConstantResampler") return {"id", "interval"};
  if (t == "TimeShift") return {"id", "dt", "times"};
  if (t == "Function") return {"id", "points", "interpolation"};
  return {"id"};
}
json defaults(const std::string& t) {
  if (t == "Input" || t == "Output" || t == "Demultiplexer") return json::object({{"numPorts", 1}});
  if (t == "Join") return json::object({{"numPorts", 2}});
  if (t == "Variable") return json::object({{"value", 0}});
  if (t == "TimeShift") return json::object({{"dt", 1}, {"times", 1}});
  if (t == "Function") return json::object({{"interpolation", "linear"}});
  return json::object();
}
json full(json op) {
  json d = defaults(op.value("type", ""));
  for (auto& [k, v] : d.items())
    if (!op.contains(k)) op[k] = v;
  return op;
}
json full_program(json p) {
  if (p.contains("operators") && p["operators"].is_array())
    for (auto& o : p["operators"]) o = full(o);
  if (p.contains("connections") && p["connections"].is_array())
    for (auto& c : p["connections"]) {
      if (!c.contains("fromPort")) c["fromPort"] = "o1";
      if (!c.contains("toPort")) c["toPort"] = "i1";
    }
  return p;
}

struct Model {
  bool exists = true;
  json meta = json::object();  // what is neither operators nor connections
  std::vector<json> ops, conns;
  json definition() const {
    json j = meta;
    j["operators"] = ops;
    j["connections"] = conns;
    return j;
  }
  bool has(const std::string& id) const {
    for (auto& o : ops)
      if (o["id"] == id) return true;
    return false;
  }
};

struct Expect {
  std::string what;
  std::function<void(const json&, const std::string&)> check;  // the answer, where
};

Child& child() {
  static Child c({"python3", std::string(BUILD_DIR) + "/package/child.py", std::string(BUILD_DIR) + "/package"});
  return c;
}

void prop(pbt::Source& s, pbt::Ctx& c) {
  json steps = json::array();
  std::vector<Expect> expects;
  std::vector<Model> models;
  std::vector<json> made;  // operators constructed so far
  size_t runs = 0, emitted = 0, refusals = 0;
  auto add = [&](json step, const std::string& what, std::function<void(const json&, const std::string&)> check) {
    steps.push_back(std::move(step));
    expects.push_back({what, std::move(check)});
  };
  auto fine = [&](const json& a, const std::string& w) { c.require(a.contains("ok"), w + "raised " + a.dump()); };
  auto raises = [&](const json& a, const std::string& w) {
    c.require(a.contains("error"), w + "was not refused: " + a.dump());
    c.require(!a["error"].get<std::string>().empty() || a["kind"] == "KeyError", w + "gave no reason");
  };

  gen::Options opt;
  opt.maxOps = 6;
  opt.documented = true;
  int count = (int)s.range(1, 2);
  std::vector<gen::Prog> defs;
  std::vector<json> plans;
  for (int i = 0; i < count; i++) {
    defs.push_back(gen::program(s, opt));
    json j = gen::prog_json(defs[i], &s);
    j.erase("output");
    plans.push_back(j);
  }

  auto describe = [&](json& j) {
    if (s.chance(1, 4)) j["title"] = s.oneof<const char*>({"Peak detector", "a \"quoted\" title \\ \xc3\xa9"});
    if (s.chance(1, 6)) j["description"] = "some text\nover two lines";
    if (s.chance(1, 6)) j["author"] = "Someone <someone@gmail.com>";
    if (s.chance(1, 6)) j["license"] = s.oneof<const char*>({"MIT", "private"});
    if (s.chance(1, 6)) j["date"] = s.oneof<const char*>({"2000-01-01", "2024-02-29", "someday"});
    if (s.chance(1, 6)) j["apiVersion"] = s.oneof<const char*>({"v1", "v1", "v3"});
  };

  // looking at a program
  auto look = [&](int p) {
    if (!models[p].exists) return;
    Model m = models[p];
    std::string who = "program " + std::to_string(p);
    switch (s.below(3)) {
      case 0:
        add({{"do", "json"}, {"p", p}}, "toJson of " + who, [=, &c](const json& a, const std::string& w) {
          fine(a, w);
          json got = full_program(json::parse(a["ok"].get<std::string>())), want = full_program(m.definition());
          if (got != want) c.fail(w + "yields " + got.dump() + ", declared was " + want.dump());
        });
        break;
      case 1: {
        json want = json::parse(validate(full_program(m.definition()).dump()));
        add({{"do", "validate"}, {"p", p}}, "validate " + who, [=, &c](const json& a, const std::string& w) {
          fine(a, w);
          c.require(a["ok"].contains("valid") && a["ok"]["valid"] == want["valid"], w + "says " + a.dump() + ", expected " + want.dump());
          if (!want["valid"]) c.require(a["ok"].contains("error") && !a["ok"]["error"].get<std::string>().empty(), w + "gives no reason");
        });
        break;
      }
      default: {
        bool dangling = false;
        for (auto& k : m.conns) dangling = dangling || !m.has(k["from"]) || !m.has(k["to"]);
        if (dangling) break;
        add({{"do", "mermaid"}, {"p", p}}, "flowchart of " + who, [=, &c](const json& a, const std::string& w) {
          fine(a, w);
          std::string t = a["ok"];
          size_t arrows = 0, at = 0;
          for (size_t i = t.find("-->"); i != std::string::npos; i = t.find("-->", i + 1)) arrows++;
          c.require(arrows == m.conns.size(), w + "has " + std::to_string(arrows) + " edges: " + t);
          for (auto& k : m.conns) {
            std::string label = "|" + k.value("fromPort", "o1") + ":" + k.value("toPort", "i1") + "| " + k["to"].get<std::string>() + "(";
            size_t from = t.find(k["from"].get<std::string>() + "(", at);
            size_t to = t.find(label, at);
            c.require(from != std::string::npos && to != std::string::npos && from < to, w + "misses a connection: " + t);
            // both ends are shown with their type
            auto type = [&](const json& id) {
              for (auto& o : m.ops)
                if (o["id"] == id) return o.value("type", "");
              return std::string();
            };
            c.require(t.compare(from + k["from"].get<std::string>().size() + 1, type(k["from"]).size() + 1, "\"" + type(k["from"])) == 0 &&
                          t.compare(to + label.size(), type(k["to"]).size() + 1, "\"" + type(k["to"])) == 0,
                      w + "shows " + k.dump() + " with other types: " + t);
            at = to + label.size();
          }
        });
      }
    }
  };

  auto run = [&](int p) {
    Model m = models[p];
    json def = full_program(m.definition());
    std::string entry = def.value("entryOperator", "");
    size_t ports = 1;
    for (auto& d : defs)
      for (auto& n : d.nodes)
        if (n.id == entry) ports = n.ins.size();
    json data = json::array();
    int64_t t = s.chance(1, 4) ? s.oneof<int64_t>({1700000000123, 1700000000123456789, (1ll << 53) - 3}) : s.range(0, 20);
    int rows = (int)s.range(0, 12);
    bool wild = s.chance(1, 5);
    bool surplus = false;
    for (int i = 0; i < rows; i++) {
      json row = json::array({t});
      size_t n = s.chance(1, 10) ? s.range(0, ports) : ports;
      if (s.chance(1, 60)) n = ports + 1;
      for (size_t k = 0; k < n; k++)
        row.push_back(wild && s.chance(1, 3) ? s.oneof({0.1, 1e300, -1e-310, 123456789.123456789, 1.0 / 3}) : s.range(-16, 16) / 4.0);
      surplus = surplus || n > ports;
      data.push_back(row);
      t += s.range(1, 6);
    }
    // what the engine answers
    deleteProgram("x");
    std::string reason;
    bool refused = false;
    try {
      std::string r = createProgram("x", def.dump());
      if (!r.empty()) {
        refused = true;
        try {
          reason = json::parse(r)["error"];
        } catch (const std::exception&) {
        }
      }
    } catch (const std::exception& e) {
      refused = true;
      reason = e.what();
    }
    deleteProgram("x");
    std::map<std::string, std::pair<json, json>> want;
    bool fails = surplus;
    if (!refused) {
      FactoryOp twin;
      twin.createProgram("x", def.dump());
      auto names = twin.getProgramEntryPorts("x");
      try {
        for (auto& row : data) {
          for (size_t i = 1; i < row.size(); i++) {
            if (i > names.size()) throw std::runtime_error("surplus value");
            twin.addToMessageBuffer("x", names[i - 1], nat::NMsg(row[0].get<uint64_t>(), row[i].get<double>()));
          }
          for (auto& [id, om] : twin.processMessageBufferDebug("x"))
            for (auto& [port, ms] : om)
              for (auto& x : ms) {
                auto& w = want[id + ":" + port];
                w.first.push_back(x.time);
                w.second.push_back(schema::number(x.value));
                emitted++;
              }
        }
        fails = false;
      } catch (const std::exception&) {
        fails = true;
      }
    }
    if (refused || fails) refusals++;
    runs++;
    int times = s.chance(1, 3) ? 2 : 1;  // a second run starts afresh
    for (int k = 0; k < times; k++)
      add({{"do", "run"}, {"p", p}, {"data", data}}, "run program " + std::to_string(p), [=, &c](const json& a, const std::string& w) {
        c.require(a["live"] == 0, w + "left a program in the engine");
        if (refused) {
          raises(a, w);
          // the reason starts with the definition, which may spell the defaults out
          std::string why = reason.substr(std::min(reason.size(), reason.rfind(" - ") + 1));
          c.require(why.empty() || a["error"].get<std::string>().find(why) != std::string::npos,
                    w + "raised " + a.dump() + ", the engine's reason is " + reason);
          return;
        }
        if (fails) {
          raises(a, w);
          return;
        }
        fine(a, w);
        std::map<std::string, std::pair<json, json>> got;
        for (auto& [k, v] : a["ok"].items())
          if (v["time"].size() || v["value"].size()) got[k] = {v["time"], v["value"]};
        if (got != want) {
          json g, x;
          for (auto& [k, v] : got) g[k] = {v.first, v.second};
          for (auto& [k, v] : want) x[k] = {v.first, v.second};
          c.fail(w + "returned " + g.dump() + ", the native engine emits " + x.dump());
        }
      });
  };

  for (int i = 0; i < count; i++) {
    json plan = plans[i];
    int p = (int)models.size();
    Model m;
    if (s.chance(1, 4)) {  // from a text
      describe(plan);
      std::string how = s.chance(1, 5) ? schema::spoil(s, plan) : "";
      bool ok = plan.is_object();
      if (ok) {
        // the text becomes the arguments of Program: lists that are missing are empty, empty descriptions dropped
        static const std::set<std::string> KNOWN = {"title", "description", "apiVersion", "date", "author", "license", "entryOperator", "operators", "connections"};
        json def = plan;
        for (auto& [k, v] : plan.items()) {
          if (!KNOWN.count(k)) ok = false;
          if (k != "apiVersion" && k != "operators" && k != "connections" && (v.is_null() || v == "" || ((v.is_array() || v.is_object()) && v.empty()) || v == 0 || v == false)) def.erase(k);
        }
        if (!def.contains("apiVersion")) def["apiVersion"] = "v1";
        for (const char* k : {"operators", "connections"})
          if (!def.contains(k) || def[k].is_null()) def[k] = json::array();
        ok = ok && json::parse(validate(def.dump()))["valid"];
        if (ok) {
          m.ops = def["operators"].get<std::vector<json>>();
          m.conns = def["connections"].get<std::vector<json>>();
          m.meta = def;
          m.meta.erase("operators");
          m.meta.erase("connections");
        }
      }
      m.exists = ok;
      models.push_back(m);
      if (!ok) refusals++;
      add({{"do", "parse"}, {"text", plan.dump()}}, how.empty() ? "parse a definition" : "parse a definition with a fault (" + how + ")", [=, &c](const json& a, const std::string& w) { ok ? fine(a, w) : raises(a, w); });
      if (!ok) continue;
      c.label("parsed");
      for (int k = (int)s.below(3); k > 0; k--) look(p);
      run(p);
      if (s.chance(1, 3)) look(p);
      continue;
    }
    // built step by step
    describe(m.meta);
    bool late = s.chance(1, 8);
    std::string entry = plan["entryOperator"];
    if (!late) m.meta["entryOperator"] = s.chance(1, 20) ? "nobody" : entry;
    json args = m.meta;
    if (s.chance(1, 6)) {
      args["operators"] = json::array();
      args["connections"] = json::array();
    }
    if (!m.meta.contains("apiVersion")) m.meta["apiVersion"] = "v1";
    models.push_back(m);
    add({{"do", "program"}, {"args", args}}, "new Program", [=](const json& a, const std::string& w) { fine(a, w); });
    std::vector<json> todoOps = plan["operators"].get<std::vector<json>>(), todoConns = plan["connections"].get<std::vector<json>>();
    size_t at = 0;
    while (at < todoOps.size() || !todoConns.empty()) {
      Model& mm = models[p];
      switch (s.weighted({6, 4, 1, 1, 1, 1})) {
        case 0: {
          if (at >= todoOps.size()) break;
          json o = todoOps[at++];
          std::string type = o["type"];
          json positional = json::array(), named = json::object(), d = defaults(type);
          size_t pos = s.below(3) ? 1 : s.below(4);
          auto names = order(type);
          for (size_t k = 0; k < names.size(); k++) {
            json v = o.contains(names[k]) ? o[names[k]] : d[names[k]];
            if (k < pos)
              positional.push_back(v);
            else if (d.contains(names[k]) && v == d[names[k]] && s.flip())
              continue;
            else
              named[names[k]] = v;
          }
          json want = full(o);
          add({{"do", "operator"}, {"type", type}, {"args", positional}, {"named", named}}, "construct " + o.dump(), [=, &c](const json& a, const std::string& w) {
            fine(a, w);
            if (full(a["ok"]) != want) c.fail(w + "yields " + a["ok"].dump() + ", declared was " + want.dump());
          });
          made.push_back(o);
          add({{"do", "add"}, {"p", p}, {"op", made.size() - 1}}, "add operator " + o.dump() + " to program " + std::to_string(p), [=](const json& a, const std::string& w) { fine(a, w); });
          mm.ops.push_back(o);
          break;
        }
        case 1: {
          if (todoConns.empty()) break;
          size_t k = s.below(todoConns.size());
          json conn = todoConns[k];
          bool known = mm.has(conn["from"]) && mm.has(conn["to"]);
          if (!known && !s.chance(1, 3)) break;
          json args = json::array({conn["from"], conn["to"]}), named = json::object();
          if (conn.contains("fromPort") && conn.contains("toPort") && s.flip()) {
            args.push_back(conn["fromPort"]);
            args.push_back(conn["toPort"]);
          } else
            for (const char* f : {"fromPort", "toPort"})
              if (conn.contains(f)) named[f] = conn[f];
          add({{"do", "connect"}, {"p", p}, {"args", args}, {"named", named}}, "connect " + conn.dump() + " in program " + std::to_string(p),
              [=](const json& a, const std::string& w) { known ? fine(a, w) : raises(a, w); });
          if (known) {
            mm.conns.push_back(conn);
            todoConns.erase(todoConns.begin() + k);
          } else
            refusals++;
          break;
        }
        case 2:  // the same operator, or another one of the same id, again
          if (mm.ops.empty() || made.empty()) break;
          for (size_t k = 0; k < made.size(); k++)
            if (mm.has(made[k]["id"])) {
              add({{"do", "add"}, {"p", p}, {"op", k}}, "add an operator of the used id " + made[k]["id"].dump() + " to program " + std::to_string(p),
                  [=](const json& a, const std::string& w) { raises(a, w); });
              refusals++;
              break;
            }
          break;
        case 3: {  // an operator that breaks its schema
          json o = todoOps[s.below(todoOps.size())];
          std::string how = schema::spoil_operator(s, o);
          if (how.empty()) break;
          std::string type = o["type"];
          json named = o;
          named.erase("type");
          add({{"do", "operator"}, {"type", type}, {"args", json::array()}, {"named", named}}, "construct an operator with a fault (" + how + ")",
              [=](const json& a, const std::string& w) { raises(a, w); });
          made.push_back({{"id", "?"}, {"type", "?"}});
          refusals++;
          break;
        }
        case 4: look(p); break;
        case 5:
          if (s.chance(1, 3)) run(p);
          break;
      }
    }
    if (late) {
      look(p);
      run(p);
      models[p].meta["entryOperator"] = entry;
      add({{"do", "set"}, {"p", p}, {"entry", entry}}, "set the entry operator of program " + std::to_string(p), [=](const json& a, const std::string& w) { fine(a, w); });
    }
    look(p);
    run(p);
    if (s.chance(1, 3)) look((int)s.below(models.size()));
  }
  c.log([&](std::ostream& o) {
    for (size_t i = 0; i < steps.size(); i++) o << i + 1 << ": " << expects[i].what << "\n    " << steps[i].dump() << "\n";
  });
  json answers = child().ask({{"seed", s.below(1 << 16)}, {"steps", steps}}, c);
  c.require(answers.is_array() && answers.size() == steps.size(), "the harness answered " + answers.dump());
  for (size_t i = 0; i < answers.size(); i++) expects[i].check(answers[i], "step " + std::to_string(i + 1) + ", " + expects[i].what + ": ");
  if (refusals) c.label("something refused");
  if (runs > 1) c.label("several runs");
  if (emitted >= 3 && runs) c.mark();
}
}  // namespace
PBT_MAIN("C28", prop, 6000, 300000, "a program was run and at least three messages were emitted")
