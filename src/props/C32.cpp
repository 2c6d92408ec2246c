#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "../child.h"

using nlohmann::ordered_json;
using json = nlohmann::json;

// Operator documents of any shape through the code generator: what it writes for every language describes them.
namespace {
struct Param {
  std::string name;
  ordered_json schema;
  bool required = true;
};
struct Doc {
  std::string type, text;
  bool valid = true;
  std::vector<Param> params;  // id first
};

Child& node() {
  static Child c({"env", "NODE_PATH=/opt/veriftools/node/node_modules", "node", std::string(BUILD_DIR) + "/generator.js"});
  return c;
}
Child& python() {
  static Child c({"/opt/veriftools/pyvenv/bin/python3", std::string(BUILD_DIR) + "/generated.py"});
  return c;
}

std::string words(pbt::Source& s) {
  static const std::vector<std::string> W = {
      "The window",  "size.",        "a \"quoted\" word", "back\\slash", "n: the number", "value: of it", "the type of", "unknown",
      "less < more", "a & b",        "it's",              "\xc3\xa9t\xc3\xa9", "{{ x }}",  "50%",          "a; b",        "id",
      "(x,y)",       "'single'",     "# not a comment",   "[1, 2]",      "min:",          "default",      "$1",          "-- dashes"};
  std::string r;
  int k = (int)s.range(1, 4);
  for (int i = 0; i < k; i++) r += (i ? " " : "") + W[s.below(W.size())];
  if (s.chance(1, 12)) r += " --- and more";
  return r;
}

double quarter(pbt::Source& s, int64_t lo, int64_t hi) { return s.range(lo * 4, hi * 4) / 4.0; }

enum class Kind { Integer, Number, Text, Choice, Flag, List, Pairs };

Kind kind(const ordered_json& p) {
  if (p.contains("enum")) return Kind::Choice;
  auto t = p["type"].get<std::string>();
  if (t == "integer") return Kind::Integer;
  if (t == "number") return Kind::Number;
  if (t == "string") return Kind::Text;
  if (t == "boolean") return Kind::Flag;
  return p["items"]["type"] == "array" ? Kind::Pairs : Kind::List;
}

ordered_json value(pbt::Source& s, const ordered_json& p) {
  int64_t lo = p.contains("minimum") ? p["minimum"].get<int64_t>() : -5;
  switch (kind(p)) {
    case Kind::Integer: return s.range(lo, lo + 9);
    case Kind::Number: return quarter(s, lo, lo + 9);
    case Kind::Text: return s.oneof<const char*>({"a", "", "o1", "x \"y\"", "\\"});
    case Kind::Choice: return p["enum"][s.below(p["enum"].size())];
    case Kind::Flag: return s.flip();
    case Kind::List:
    case Kind::Pairs: {
      auto a = ordered_json::array();
      int64_t least = p.contains("minItems") ? p["minItems"].get<int64_t>() : 0;
      int64_t k = s.range(least, least + 3);
      for (int64_t i = 0; i < k; i++) {
        if (kind(p) == Kind::List)
          a.push_back(quarter(s, -5, 5));
        else
          a.push_back(ordered_json::array({quarter(s, -5, 5), quarter(s, -5, 5)}));
      }
      return a;
    }
  }
  return nullptr;
}

// a value the document does not admit
ordered_json wrong(pbt::Source& s, const ordered_json& p) {
  bool other = s.flip();
  switch (kind(p)) {
    case Kind::Integer:
      if (other && p.contains("minimum")) return p["minimum"].get<int64_t>() - s.range(1, 3);
      return other ? ordered_json(1.5) : ordered_json("3");
    case Kind::Number:
      if (other && p.contains("minimum")) return p["minimum"].get<int64_t>() - 0.25;
      return other ? ordered_json::array({1}) : ordered_json("3.5");
    case Kind::Text: return 3;
    case Kind::Choice: return "neither";
    case Kind::Flag: return other ? ordered_json("true") : ordered_json(1);
    case Kind::List:
      if (other && p.contains("minItems") && p["minItems"].get<int>() > 0)
        return ordered_json(std::vector<double>(p["minItems"].get<size_t>() - 1, 1.0));
      return other ? ordered_json(2) : ordered_json::array({"1", "2", "3", "4", "5"});
    case Kind::Pairs: return other ? ordered_json::parse("[[1],[2],[3],[4]]") : ordered_json::parse("[[1,2],[1,2,3],[2,3],[1,1]]");
  }
  return nullptr;
}

Param param(pbt::Source& s, const std::string& name, bool required) {
  Param p;
  p.name = name;
  p.required = required;
  auto& j = p.schema;
  switch (s.below(7)) {
    case 0:
    case 1:
      j["type"] = s.flip() ? "integer" : "number";
      if (s.flip()) j["minimum"] = s.range(-2, 3);
      break;
    case 2: j["type"] = "string"; break;
    case 3:
      j["type"] = "string";
      j["enum"] = s.flip() ? ordered_json::parse(R"(["linear","hermite"])") : ordered_json::parse(R"(["type a","b","unknown"])");
      break;
    case 4: j["type"] = "boolean"; break;
    case 5:
      j["type"] = "array";
      j["items"] = {{"type", "number"}};
      if (s.flip()) j["minItems"] = s.range(0, 3);
      break;
    default:
      j["type"] = "array";
      if (s.flip()) j["minItems"] = s.range(0, 2);
      j["items"] = ordered_json::parse(R"({"type":"array","minItems":2,"maxItems":2,"items":{"type":"number"}})");
  }
  if (s.chance(3, 4)) j["description"] = words(s);
  if (!required) j["default"] = value(s, j);
  if (s.chance(1, 3)) j["examples"] = ordered_json::array({value(s, j)});
  return p;
}

void yaml(std::string& out, const ordered_json& j, const std::string& indent, pbt::Source& s) {
  for (auto i = j.begin(); i != j.end(); ++i) {
    out += indent + i.key() + ":";
    if (i->is_object() && !i->empty() && s.chance(5, 6)) {
      out += "\n";
      yaml(out, *i, indent + "  ", s);
    } else if (i->is_array() && !i->empty() && s.flip()) {
      out += "\n";
      for (auto& x : *i) out += indent + "  - " + x.dump() + "\n";
    } else
      out += " " + i->dump() + "\n";
  }
}

Doc document(pbt::Source& s, const std::string& type) {
  static const std::vector<std::string> NAMES = {"n", "min", "value", "v", "dt", "width", "coeff", "coeff_n", "types", "unknowns", "times",
                                                 "numPorts", "points", "idx", "grid", "maxN", "interpolation", "x1"};
  Doc d;
  d.type = type;
  std::string body = "\n# " + type + "\n\nInputs: `i1`\nOutputs: `o1`\n\n" + words(s) + "\n";
  if (s.chance(1, 4)) body += "\n---\n\nmore below a rule\n";
  if (s.chance(1, 8)) {
    d.valid = false;
    switch (s.below(4)) {
      case 0: d.text = body; break;
      case 1: d.text = "---\njsonschema: [\n---\n" + body; break;
      case 2: d.text = "---\nbehavior:\n  buffered: true\n---\n" + body; break;
      default: d.text = "---\njsonschema:\n  type: object\n---\n" + body;
    }
    return d;
  }
  Param id;
  id.name = "id";
  id.schema = {{"type", "string"}, {"description", "The id of the operator"}};
  d.params.push_back(id);
  std::set<std::string> used;
  int k = (int)s.range(0, 5), req = (int)s.range(0, k);
  for (int i = 0; i < k; i++) {
    std::string name = NAMES[s.below(NAMES.size())];
    if (!used.insert(name).second) continue;
    d.params.push_back(param(s, name, i < req));
  }
  ordered_json front;
  if (s.flip()) front["behavior"] = {{"buffered", s.flip()}, {"throughput", "constant"}};
  if (s.flip()) front["view"] = {{"shape", "circle"}, {"latex", {{"template", s.flip() ? "Add({{value}})" : "M_{A}"}}}};
  ordered_json schema;
  schema["type"] = "object";
  auto req_ = ordered_json::array();
  for (auto& p : d.params) {
    schema["properties"][p.name] = p.schema;
    if (p.required) req_.push_back(p.name);
  }
  schema["required"] = req_;
  front["jsonschema"] = schema;
  d.text = "---\n";
  yaml(d.text, front, "", s);
  d.text += "---\n" + body;
  return d;
}

// the documents of the repository, with the operators the generator reads from them
const std::vector<Doc>& repository(pbt::Ctx& c) {
  static std::vector<Doc> all;
  if (!all.empty()) return all;
  json ask = {{"joined", true}, {"targets", {"jsonschema"}}};
  ask["docs"] = ask["wanted"] = ask["make"] = ask["programs"] = json::array();
  std::map<std::string, std::string> texts;
  for (const char* dir : {"libs/core/include", "libs/std/include"})
    for (auto& e : std::filesystem::recursive_directory_iterator(std::string(REPO_DIR) + "/" + dir))
      if (e.path().extension() == ".md") {
        std::ifstream in(e.path());
        texts[e.path().stem()] = std::string(std::istreambuf_iterator<char>(in), {});
      }
  for (auto& [type, text] : texts) ask["docs"].push_back({{"name", type + ".md"}, {"text", text}});
  json a = node().ask(ask, c);
  c.require(a.contains("jsonschema") && a["jsonschema"].contains("jsonschema.json"), "generating the schema of the repository's documents failed");
  auto schema = ordered_json::parse(a["jsonschema"]["jsonschema.json"].get<std::string>());
  for (auto& [type, text] : texts) {
    Doc d;
    d.type = type;
    d.text = text;
    d.valid = false;
    for (auto& s : schema["properties"]["operators"]["items"]["oneOf"]) {
      if (s["properties"]["type"]["enum"][0] != type) continue;
      d.valid = true;
      for (auto i = s["properties"].begin(); i != s["properties"].end(); ++i) {
        if (i.key() == "type") continue;
        Param p;
        p.name = i.key();
        p.schema = *i;
        p.required = std::find(s["required"].begin(), s["required"].end(), p.name) != s["required"].end();
        d.params.push_back(p);
      }
    }
    c.require(d.valid, "the document of " + type + " in the repository describes no operator");
    all.push_back(d);
  }
  c.require(all.size() > 20, "the repository documents few operators");
  return all;
}

json schema_of(const Doc& d) {
  json r = {{"type", "object"}};
  r["required"] = {"type"};
  for (auto& p : d.params) {
    r["properties"][p.name] = json::parse(p.schema.dump());
    if (p.required) r["required"].push_back(p.name);
  }
  r["properties"]["type"]["enum"] = {d.type};
  return r;
}

// the text of consecutive C string literals
std::string literals(const std::string& t, size_t at, size_t end, pbt::Ctx& c) {
  std::string r;
  while (at < end) {
    if (isspace((unsigned char)t[at])) {
      at++;
      continue;
    }
    if (t[at] != '"') c.fail("the header has something else than string literals at: " + t.substr(at, 60));
    for (at++; at < end && t[at] != '"'; at++) {
      if (t[at] == '\n') c.fail("the header has an unterminated literal: " + t.substr(at > 60 ? at - 60 : 0, 60));
      if (t[at] == '\\') {
        at++;
        static const std::map<char, char> E = {{'n', '\n'}, {'t', '\t'}, {'"', '"'}, {'\\', '\\'}, {'r', '\r'}, {'b', '\b'}, {'f', '\f'}, {'\'', '\''}};
        auto e = E.find(t[at]);
        if (e == E.end()) c.fail(std::string("the header has the unknown escape \\") + t[at]);
        r += e->second;
      } else
        r += t[at];
    }
    at++;
  }
  return r;
}

std::string unescape(std::string t) {
  static const std::vector<std::pair<std::string, std::string>> E = {{"&quot;", "\""}, {"&#x27;", "'"}, {"&lt;", "<"}, {"&gt;", ">"},
                                                                     {"&#x60;", "`"}, {"&#x3D;", "="}, {"&amp;", "&"}};
  for (auto& [a, b] : E)
    for (size_t i = 0; (i = t.find(a, i)) != std::string::npos; i += b.size()) t.replace(i, a.size(), b);
  return t;
}

struct Make {
  const Doc* doc;
  std::vector<ordered_json> args;           // positional
  std::map<std::string, ordered_json> named;  // Python only: the rest
  bool bad = false;
};
}  // namespace

static void prop(pbt::Source& s, pbt::Ctx& c) {
  static const std::vector<std::string> TYPES = {"MovingAverage", "Add", "Adder", "N", "Value", "Join2", "TypeShift", "Count_er", "Id", "Unknown"};
  std::vector<Doc> docs;
  std::set<std::string> used;
  int k = (int)s.range(1, 6);
  bool own = s.chance(1, 6);
  for (int i = 0; i < k; i++) {
    std::string t = TYPES[s.below(TYPES.size())];
    if (own) {
      auto& d = repository(c)[s.below(repository(c).size())];
      if (used.insert(d.type).second) docs.push_back(d);
    } else if (used.insert(t).second)
      docs.push_back(document(s, t));
  }
  std::vector<const Doc*> good;
  for (auto& d : docs)
    if (d.valid) good.push_back(&d);
  if (good.empty()) c.discard();
  c.log([&](std::ostream& o) {
    for (auto& d : docs) o << d.type << ".md" << (d.valid ? "" : " (no operator)") << ":\n" << d.text << "\n";
  });

  std::vector<Make> makes;
  int m = (int)s.range(1, 6);
  bool anyBad = false;
  for (int i = 0; i < m; i++) {
    Make q;
    q.doc = good[s.below(good.size())];
    auto& ps = q.doc->params;
    size_t req = 0;
    for (auto& p : ps) req += p.required;
    size_t positional = (size_t)s.range(req, ps.size());
    for (size_t j = 0; j < positional; j++) q.args.push_back(j ? value(s, ps[j].schema) : ordered_json("op " + std::to_string(i)));
    if (positional > 1 && s.chance(1, 4)) {
      size_t j = (size_t)s.range(1, positional - 1);
      q.args[j] = wrong(s, ps[j].schema);
      q.bad = anyBad = true;
    }
    for (size_t j = positional; j < ps.size(); j++)
      if (s.chance(1, 3)) q.named[ps[j].name] = value(s, ps[j].schema);
    makes.push_back(q);
  }
  json ask = {{"joined", s.flip()}, {"targets", {"jsonschema", "cpp", "python", "typescript", "markdown"}}};
  ask["docs"] = ask["wanted"] = ask["make"] = ask["programs"] = json::array();
  for (auto& d : docs) ask["docs"].push_back({{"name", d.type + ".md"}, {"text", d.text}});
  for (auto* d : good) ask["wanted"].push_back(d->type + ".mdx");
  json pymake = json::array(), all = json::array();
  std::vector<json> ts, py;
  for (auto& q : makes) {
    json args = json::array(), named = json::object(), t = {{"type", q.doc->type}}, p = t;
    auto& ps = q.doc->params;
    for (size_t j = 0; j < ps.size(); j++) {
      if (j < q.args.size()) {
        json v = json::parse(q.args[j].dump());
        args.push_back(v);
        t[ps[j].name] = p[ps[j].name] = v;
      } else if (q.named.count(ps[j].name)) {
        json v = json::parse(q.named.at(ps[j].name).dump());
        named[ps[j].name] = v;
        p[ps[j].name] = v;
      } else
        p[ps[j].name] = json::parse(ps[j].schema["default"].dump());
    }
    ask["make"].push_back({{"type", q.doc->type}, {"args", args}});
    pymake.push_back({{"type", q.doc->type}, {"args", args}, {"named", named}});
    ts.push_back(t);
    py.push_back(p);
    ask["programs"].push_back({{"apiVersion", "v1"}, {"operators", {t}}, {"connections", json::array()}});
    all.push_back(t);
  }
  ask["programs"].push_back({{"apiVersion", "v1"}, {"operators", all}, {"connections", json::array()}});
  c.log([&](std::ostream& o) {
    for (auto& t : py) o << "create " << t.dump() << "\n";
  });

  json a = node().ask(ask, c);
  c.require(!a.contains("failed"), "the generator failed: " + (a.contains("failed") ? a["failed"].dump() : ""));
  auto file = [&](const char* target, const std::string& name) -> std::string {
    auto& t = a[target];
    if (t.contains("error")) c.fail(std::string("generating ") + target + " failed: " + t["error"].dump());
    if (!t.contains(name)) c.fail(std::string("generating ") + target + " wrote no " + name);
    return t[name];
  };
  // the schema
  json schema, want = json::array();
  for (auto* d : good) want.push_back(schema_of(*d));
  try {
    schema = json::parse(file("jsonschema", "jsonschema.json"));
  } catch (const json::exception& e) {
    c.fail(std::string("the schema is not JSON: ") + e.what());
  }
  json got = schema["properties"]["operators"]["items"]["oneOf"];
  if (got != want) c.fail("the schema describes the operators " + got.dump() + ", documented are " + want.dump());
  for (const char* r : {"operators", "connections", "entryOperator"}) {
    auto& q = schema["required"];
    c.require(std::find(q.begin(), q.end(), r) != q.end(), std::string("the schema does not require ") + r);
  }
  // the header
  std::string h = file("cpp", "jsonschema.hpp");
  size_t from = h.find("rtbot_schema"), to = h.find("_json");
  if (from != std::string::npos) from = h.find('"', from);
  c.require(from != std::string::npos && to != std::string::npos && h.rfind("_json") != std::string::npos, "the header defines no schema");
  to = h.rfind("_json");
  json inHeader;
  try {
    inHeader = json::parse(literals(h, from, to, c));
  } catch (const json::exception& e) {
    c.fail(std::string("the literal of the header is not JSON: ") + e.what());
  }
  c.require(inHeader == schema, "the header holds another schema than the one written");
  // TypeScript
  file("typescript", "index.ts");
  c.require(!a.contains("broken"), "the TypeScript classes cannot be loaded: " + (a.contains("broken") ? a["broken"].dump() : ""));
  std::vector<std::string> names{"programSchema"};
  for (auto* d : good) names.push_back(d->type);
  std::sort(names.begin(), names.end());
  c.require(a["exports"] == json(names), "the TypeScript module exports " + a["exports"].dump() + " instead of " + json(names).dump());
  auto compare = [&](const json& made, const std::vector<json>& expected, const char* what) {
    for (size_t i = 0; i < makes.size(); i++) {
      std::string w = std::string(what) + " operator " + std::to_string(i + 1) + " " + expected[i].dump();
      if (makes[i].bad)
        c.require(made[i].contains("error"), w + " was not refused: " + made[i].dump());
      else
        c.require(made[i].contains("ok") && made[i]["ok"] == expected[i], w + " became " + made[i].dump());
    }
  };
  compare(a["made"], ts, "TypeScript");
  for (size_t i = 0; i <= makes.size(); i++) {
    bool bad = i < makes.size() ? makes[i].bad : anyBad;
    if (a["programs"][i].get<bool>() == bad)
      c.fail("the TypeScript program schema " + std::string(bad ? "accepts " : "refuses ") + ask["programs"][i].dump());
  }
  // Python
  json b = python().ask({{"schema", schema}, {"text", file("python", "jsonschema.py")}, {"make", pymake}, {"pages", a["markdown"]}}, c);
  c.require(!b.contains("broken"), "the Python classes cannot be loaded: " + (b.contains("broken") ? b["broken"].dump() : ""));
  names.erase(std::find(names.begin(), names.end(), "programSchema"));
  c.require(b["classes"] == json(names), "the Python module has the classes " + b["classes"].dump() + " instead of " + json(names).dump());
  compare(b["made"], py, "Python");
  // the pages
  if (a["markdown"].contains("error")) c.fail("generating markdown failed: " + a["markdown"]["error"].dump());
  for (auto& d : docs) {
    std::string name = d.type + ".mdx";
    if (!d.valid) continue;
    std::string page = file("markdown", name);
    c.require(page.compare(0, d.text.size(), d.text) == 0, "the page " + name + " does not start with the document");
    size_t at = page.find("## Parameters", d.text.size()), stop = page.find("## Usage", d.text.size());
    c.require(at != std::string::npos && stop != std::string::npos && at < stop, "the page " + name + " has no parameters or no usage");
    std::string sec = unescape(page.substr(at, stop - at));
    size_t pos = 0;
    for (size_t j = 0; j < d.params.size(); j++) {
      auto& p = d.params[j];
      std::string head = "\n_" + p.name + "_:";
      pos = sec.find(head, pos);
      c.require(pos != std::string::npos, "the page " + name + " does not list the parameter " + p.name + " in its place");
      size_t next = j + 1 < d.params.size() ? sec.find("\n_" + d.params[j + 1].name + "_:", pos + 1) : sec.size();
      std::string entry = sec.substr(pos, next == std::string::npos ? next : next - pos);
      if (p.schema.contains("description"))
        c.require(entry.find(p.schema["description"].get<std::string>()) != std::string::npos, "the page " + name + " lists " + p.name + " without its description");
      auto tells = [&](const char* key, const std::string& what) {
        bool has = p.schema.contains(key);
        c.require((entry.find(what + " value:") != std::string::npos) == has,
                  "the page " + name + (has ? " does not tell the " : " tells a ") + key + " of " + p.name + ": " + entry);
        if (has && p.schema[key].is_number_integer())
          c.require(entry.find(what + " value: " + p.schema[key].dump() + ".") != std::string::npos, "the page " + name + " tells another " + key + " of " + p.name);
      };
      tells("default", "Default");
      tells("minimum", "Minimum");
      pos++;
    }
    // the usage is an operator the schema accepts, the same in all languages
    size_t from = page.find("```json\n", stop), end = page.find("```", from + 8);
    c.require(from != std::string::npos && end != std::string::npos, "the page " + name + " shows no JSON");
    json op;
    try {
      op = json::parse(page.substr(from + 8, end - from - 8)).at("operators").at(0);
    } catch (const json::exception& e) {
      c.fail("the usage of " + d.type + " is not JSON: " + page.substr(from + 8, end - from - 8));
    }
    json args = json::array();
    for (auto& p : d.params) {
      c.require(op.contains(p.name), "the usage of " + d.type + " lacks " + p.name);
      args.push_back(op[p.name]);
    }
    c.require(op["type"] == d.type && op.size() == d.params.size() + 1, "the usage of " + d.type + " is the operator " + op.dump());
    auto& js = a["usage"][name];
    auto& py = b["usage"][name];
    json all = {{"operators", json::array({op})}};
    c.require(js.contains("yaml") && js["yaml"] == all, "the YAML usage of " + d.type + " gives " + js.dump() + ", the JSON one " + all.dump());
    c.require(js["args"] == args, "the JavaScript usage of " + d.type + " gives " + js.dump() + ", the JSON one " + args.dump());
    c.require(py["args"] == args, "the Python usage of " + d.type + " gives " + py.dump() + ", the JSON one " + args.dump());
    c.require(py["valid"] == true, "the usage of " + d.type + " is refused: " + op.dump());
  }
  if (own) c.label("documents of the repository");
  if (good.size() < docs.size()) c.label("documents without an operator");
  if (anyBad) c.label("refused operators");
  size_t most = 0;
  for (auto* d : good) most = std::max(most, d->params.size());
  if (good.size() >= 2 && most >= 3) c.mark();
}
PBT_MAIN("C32", prop, 3000, 120000, "at least two documented operators, one of them with two parameters besides its id")
