#include "../child.h"
#include "../schema.h"
#include "rtbot/bindings.h"

using namespace api;

// The debug command of the command line interface: its output next to the native engine, its screen next to a model of it.
namespace {
Child& child() {
  static Child c({"node", std::string(BUILD_DIR) + "/cli/cli.js", std::string(BUILD_DIR) + "/cli/engine.node"});
  return c;
}

// the program, part of its operators with names that look like something else
gen::Prog renamed(pbt::Source& s, const gen::Prog& p) {
  std::map<std::string, std::string> to;
  std::set<std::string> used;
  for (auto& n : p.nodes) used.insert(n.id);
  for (auto& n : p.nodes) {
    std::string id = n.id;
    if (s.chance(1, 4)) {
      std::string other = p.nodes[s.below(p.nodes.size())].id;
      id = s.oneof<std::string>({"iter", other + ":o1", other + ":o2", "a:b", "\xc3\xa9 (1, 2)", "-", "o1", "toString", ":", "x:"});
      if (used.count(id)) id = n.id;
    }
    used.insert(id);
    to[n.id] = id;
  }
  gen::Prog r = p;
  for (auto& n : r.nodes) n.id = to[n.id];
  for (auto& k : r.conns) k[0] = to[k[0]], k[2] = to[k[2]];
  r.entry = to[r.entry];
  r.output.clear();
  for (auto& [id, ports] : p.output) r.output[to[id]] = ports;
  return r;
}

std::string cell_text(pbt::Source& s, double v) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", v);
  std::string t = buf;
  switch (s.below(8)) {
    case 0: return " " + t;
    case 1: return t + "  ";
    case 2: return "\"" + t + "\"";
    case 3: snprintf(buf, sizeof buf, "%.17e", v); return buf;
    default: return t;
  }
}
std::string garbage(pbt::Source& s) {
  return s.oneof<std::string>({"", "time", "NaN", "-", "abc", "n/a", "\"a, 1\"", "\"say \"\"1\"\"\"", "null", "#1"});
}

struct Row {
  double t, v;
};

// (12, 0.25), (13, -1)
bool same_cell(const std::string& cell, const json& messages) {
  if (messages.empty()) return cell == "-";
  const char* at = cell.c_str();
  for (size_t i = 0; i < messages.size(); i++) {
    if (i) {
      if (strncmp(at, ", ", 2)) return false;
      at += 2;
    }
    char* end;
    if (*at++ != '(') return false;
    double t = strtod(at, &end);
    if (end == at || t != messages[i]["time"].get<double>()) return false;
    at = end;
    if (strncmp(at, ", ", 2)) return false;
    at += 2;
    double v = strtod(at, &end);
    if (end == at) return false;
    if (!messages[i]["value"].is_number() || std::fabs(messages[i]["value"].get<double>()) > 1e290) {  // beyond what can be rounded
      at = end;
      if (*at++ != ')') return false;
      continue;
    }
    double want = messages[i]["value"].get<double>();
    if (std::fabs(v - want) > 0.005000001 + 1e-12 * std::fabs(want)) return false;
    std::string shown(at, (size_t)(end - at));
    size_t dot = shown.find('.');
    if (dot != std::string::npos && shown.find('e') == std::string::npos && shown.size() - dot > 3 && std::fabs(want) < 1e9) return false;  // two decimals
    at = end;
    if (*at++ != ')') return false;
  }
  return *at == 0;
}

void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 6;
  opt.documented = true;
  gen::Prog def;
  for (int i = 0; i < 8; i++) {
    def = gen::program(s, opt);
    if (def.node(def.entry).ins.size() == 1) break;
  }
  def = renamed(s, def);
  bool input = false;
  for (auto& n : def.nodes)
    if (n.id == def.entry) {
      if (n.ins.size() != 1) c.discard();  // the command feeds one value
      input = n.type == "Input";
    }
  json plan = s.flip() ? gen::prog_json(def, &s) : gen::prog_json(def);
  schema::describe(s, plan);
  for (auto& o : plan["operators"])
    if (o.contains("numPorts") && o["numPorts"] == (o["type"] == "Join" ? 2 : 1) && s.flip()) o.erase("numPorts");
  std::string fault;
  if (s.chance(1, 12)) {
    fault = schema::spoil(s, plan);
    for (const char* k : {"no operators", "no connections", "entryOperator", "entry operator", "date", "output map", "definition is no object"})
      if (fault.find(k) != std::string::npos) c.discard();
  }

  // the data
  double st = 1, sv = 1;
  json args = json::array({"debug", "program.json", "data.csv"});
  auto option = [&](const char* a, const char* b, double v) {
    char buf[32];
    snprintf(buf, sizeof buf, "%.17g", v);
    args.push_back(s.flip() ? a : b);
    args.push_back(buf);
  };
  if (s.chance(1, 3)) option("-st", "--scale-time-factor", st = s.oneof({1000.0, 60.0, 0.5, 0.001, 1.0, 2.5}));
  if (s.chance(1, 3)) option("-sv", "--scale-value-factor", sv = s.oneof({0.1, 100.0, -1.0, 0.0, 1e-3, 0.5}));
  bool strict = !input || s.chance(2, 3);
  std::string csv, nl = s.oneof<std::string>({"\n", "\n", "\r\n", "\r"});
  if (s.chance(1, 3)) csv += s.flip() ? "time,value" + nl : "\"the time\",\"value, scaled\"" + nl;
  std::vector<Row> rows;
  int n = s.chance(1, 6) ? (int)s.range(15, 50) : (int)s.range(0, 14);
  double t = s.oneof({0.0, 5.0, 1000.0, 1700000000.0});
  double unit = st > 2.5 ? st : 1;  // a resampler fills every gap: gaps are kept as long as they are without the factor
  double last = -1;
  size_t dropped = 0;
  for (int i = 0; i < n; i++) {
    t += ((double)(s.range(1, 6) * def.scale) + (s.chance(1, 5) ? 0.25 * (double)s.below(4) : 0)) / unit;
    double at = t;
    if (!strict && s.chance(1, 5)) at = std::max(0.0, t - (double)s.range(0, 12) / unit);
    double v = s.chance(1, 6) ? s.oneof({0.1, 1.0 / 3, 12345.678, -0.005, 2.675, 1e9, 1e-9}) : (double)s.range(-16, 16) / 4.0;
    std::string a = cell_text(s, at), b = cell_text(s, v);
    double time = std::floor(st * at + 0.5);
    if (time > 4e15) break;
    if (strict && time <= last) continue;
    size_t how = s.weighted({12, 1, 1, 1, 1, 1});
    if (how == 1) a = garbage(s);
    if (how == 2) b = garbage(s);
    if (how == 3) csv += nl;  // an empty line
    if (how == 4) csv += a + nl;  // and a line that is cut off
    if (how == 5) b += "," + garbage(s);
    if (how >= 1 && how <= 4) dropped++;
    csv += a + "," + b + nl;
    if (how == 1 || how == 2) continue;
    last = time;
    rows.push_back({time, sv * v});
  }
  if (!csv.empty() && s.flip()) csv.erase(csv.size() - nl.size());

  bool noProgram = s.chance(1, 40), noData = s.chance(1, 40), noText = s.chance(1, 40);
  bool verbose = s.chance(1, 6), interactive = s.chance(1, 2);
  std::string out = interactive || s.flip() ? "" : "out.json";
  if (verbose) args.push_back(s.flip() ? "-v" : "--verbose");
  if (interactive) args.push_back(s.flip() ? "-i" : "--interactive");
  if (!out.empty()) {
    args.push_back(s.flip() ? "-o" : "--output");
    args.push_back(out);
  }
  json files = json::object();
  if (!noProgram) files["program.json"] = noText ? "{ not a program" : s.flip() ? plan.dump() : plan.dump(2);
  if (!noData) files["data.csv"] = csv;

  // what the engine emits
  bool fails = noProgram || noData || noText || !fault.empty();
  json list = json::array();
  size_t emitted = 0;
  if (!fails) {
    FactoryOp twin;
    try {
      fails = !twin.createProgram("x", plan.dump()).empty();
      auto names = fails ? std::vector<std::string>() : twin.getProgramEntryPorts("x");
      for (auto& r : rows) {
        if (fails) break;
        twin.addToMessageBuffer("x", names.at(0), nat::NMsg((uint64_t)r.t, r.v));
        auto pm = twin.processMessageBufferDebug("x");
        emitted += count(pm);
        list.push_back({{"in", {{names[0], json::array({json{{"time", (uint64_t)r.t}, {"value", r.v}}})}}}, {"out", schema::rendered(pm)}});
      }
    } catch (const std::exception&) {
      fails = true;
    }
  }

  // the keys
  json keys = json::array();
  struct Do {
    std::string what;
    int kind;  // 0 look, 1 right, 2 left, 3 play, 4 back, 5 stop, 6 mark, 7 wait
    int op = -1;
    bool mark = false;
    int ms = 0;
  };
  std::vector<Do> does;
  if (interactive && !fails) {
    auto key = [&](const char* k, int kind) {
      keys.push_back({{"press", k}});
      does.push_back({std::string("press ") + k, kind});
    };
    keys.push_back(json::object());
    does.push_back({"look", 0});
    int steps = (int)s.range(0, 25);
    for (int i = 0; i < steps; i++) switch (s.weighted({8, 4, 1, 1, 2, 5, 3})) {
        case 0: key("right", 1); break;
        case 1: key("left", 2); break;
        case 2: key("p", 3); break;
        case 3: key("b", 4); break;
        case 4: key("s", 5); break;
        case 5: {
          size_t k = s.below(plan["operators"].size());
          auto& o = plan["operators"][k];
          bool m = s.chance(1, 3), first = s.chance(1, 4);
          keys.push_back({{"mark", m}, {"text", o["id"].get<std::string>() + " [" + o["type"].get<std::string>() + "]"}, {"first", first}});
          does.push_back({std::string(m ? "check " : "uncheck ") + o["id"].get<std::string>(), 6, (int)k, m});
          break;
        }
        default: {
          int ms = s.oneof({1, 90, 250, 1000, 30000});
          keys.push_back({{"wait", ms}});
          does.push_back({"wait " + std::to_string(ms) + " ms", 7, -1, false, ms});
        }
      }
  }

  c.log([&](std::ostream& o) {
    o << "arguments " << args.dump() << "\nprogram.json " << (files.contains("program.json") ? files["program.json"].get<std::string>() : "missing") << "\ndata.csv "
      << json(files.value("data.csv", "missing")).dump() << "\nthe native engine: " << (fails ? "refused" : list.dump()) << "\n";
    for (auto& d : does) o << d.what << "\n";
  });
  json a = child().ask({{"files", files}, {"args", args}, {"keys", keys}}, c);
  c.require(a.is_object() && !a.contains("harness"), "the harness answered " + a.dump());
  c.require(a["live"] == 0, "a program was left in the engine");
  if (fails) {
    c.require(a["exit"] != 0, "the command succeeded");
    c.require(!a["files"].contains("out.json"), "an output was written for a run that failed");
    c.label("failed");
    return;
  }
  c.require(a["exit"] == 0, "the command failed: " + a.value("error", "") + " " + a["lines"].dump());
  for (auto& [k, v] : files.items()) c.require(a["files"][k] == v, "the file " + k + " was changed");

  if (!interactive) {
    std::string text;
    if (out.empty()) {
      c.require(!a["lines"].empty(), "nothing was printed");
      text = a["lines"].back();
      if (!verbose) c.require(a["lines"].size() == 1, "more was printed than the output: " + a["lines"].dump());
    } else {
      c.require(a["files"].contains(out), "no output was written");
      text = a["files"][out];
    }
    json got = json::parse(text, nullptr, false);
    c.require(!got.is_discarded(), "the output is no JSON: " + text);
    if (got != list) c.fail("the output is " + got.dump() + ", the native engine emits " + list.dump());
  } else {
    const json& ops = plan["operators"];
    std::vector<bool> selected(ops.size(), true);
    size_t max = list.size(), at = 0;
    int player = 0;
    auto ports = [&](const json& o) -> size_t {
      if (o.contains("numPorts")) return o["numPorts"];
      return o["type"] == "Join" ? 2 : 1;
    };
    // empty if the table is the one of an iteration
    auto differs = [&](const json& table, size_t it) -> std::string {
      std::vector<std::pair<std::string, std::string>> cols;
      json head = json::array({"iter"});
      for (size_t k = 0; k < ops.size(); k++)
        if (selected[k])
          for (size_t p = 0; p < ports(ops[k]); p++) {
            std::string id = ops[k]["id"], port = "o" + std::to_string(p + 1);
            cols.push_back({id, port});
            head.push_back(ports(ops[k]) > 1 ? id + ":" + port : id);
          }
      if (!table.is_array() || table.empty() || table[0] != head) return "the header should be " + head.dump();
      size_t from = it == 0 ? 0 : it - 1, to = it == 0 ? 0 : std::min(it + 10, max);
      if (table.size() != 1 + to - from) return "there should be " + std::to_string(to - from) + " rows";
      for (size_t i = from; i < to; i++) {
        const json& row = table[1 + i - from];
        if (row.size() != 1 + cols.size()) return "row " + row.dump() + " has other columns than the header";
        if (row[0] != std::to_string(i)) return "row " + row.dump() + " should be the one of iteration " + std::to_string(i);
        for (size_t k = 0; k < cols.size(); k++) {
          const json& o = list[i]["out"];
          json ms = json::array();
          if (o.contains(cols[k].first) && o[cols[k].first].contains(cols[k].second)) ms = o[cols[k].first][cols[k].second];
          if (!row[1 + k].is_string() || !same_cell(row[1 + k], ms))
            return "iteration " + std::to_string(i) + ", " + head[1 + k].dump() + " shows " + row[1 + k].dump() + " for " + ms.dump();
        }
      }
      return "";
    };
    for (size_t i = 0; i < does.size(); i++) {
      const json& v = a["views"][i];
      std::string w = "after step " + std::to_string(i + 1) + " (" + does[i].what + "): ";
      c.require(!v.contains("error"), w + "raised " + v.dump());
      c.require(v["box"] == "", w + "there is no box for the operator");
      c.require(v["table"].size() == 1, w + "there are " + std::to_string(v["table"].size()) + " tables");
      json table = v["table"][0];
      bool wasPlaying = player != 0;
      size_t lo = at, hi = at;
      switch (does[i].kind) {
        case 1: lo = hi = std::min(at + 1, max); break;
        case 2: lo = hi = at ? at - 1 : 0; break;
        case 3: player = 1; break;
        case 4: player = -1; break;
        case 5: player = 0; break;
        case 6: selected[does[i].op] = does[i].mark; break;
        case 7:
          if (player > 0) hi = max, lo = does[i].ms >= 30000 ? max : at;
          if (player < 0) lo = 0, hi = does[i].ms >= 30000 ? 0 : at;
          break;
      }
      std::string why;
      bool ok = false;
      for (size_t x = lo; x <= hi && !ok; x++) {
        why = differs(table, x);
        if (why.empty()) ok = true, at = x;
      }
      c.require(ok, w + why + ", the table is " + table.dump());
      for (size_t k = 0; k < ops.size(); k++) {
        std::string text = ops[k]["id"].get<std::string>() + " [" + ops[k]["type"].get<std::string>() + "]";
        c.require(v["boxes"].contains(text), w + "no box says " + text + ": " + v["boxes"].dump());
        c.require(v["boxes"][text] == (bool)selected[k], w + "the box of " + text + " is wrong: " + v["boxes"].dump());
      }
      if (does[i].kind == 7 && does[i].ms >= 1000 && !wasPlaying)
        c.require(v["shown"].size() == 1 && v["shown"][0] == v["table"], w + "the screen shows " + v["shown"].dump() + ", the table is " + table.dump());
    }
    c.label("interactive");
    if (max > 11) c.label("interactive, more iterations than fit");
  }
  if (dropped) c.label("rows left out");
  if (emitted >= 3 && (!interactive || does.size() >= 4)) c.mark();
}
}  // namespace
PBT_MAIN("C31", prop, 12000, 300000, "the run emitted at least three messages and, where interactive, at least four steps were made on the screen")
