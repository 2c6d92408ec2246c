#include "../api.h"

using namespace api;

// One fault put into a valid definition. `broken` says which; empty when none applies there.
struct Site {
  json* prog;
  json* ops;
  json* conns;
  const std::vector<gen::Node>* nodes;
};

static void sites(json& j, const std::vector<gen::Node>& nodes, std::vector<Site>& r) {
  r.push_back({&j, &j["operators"], &j["connections"], &nodes});
  for (size_t i = 0; i < nodes.size(); i++)
    if (nodes[i].type == "Pipeline") sites(j["operators"][i]["prog"], nodes[i].inner, r);
}

static const std::vector<std::string> KINDS = {"Input", "Output", "Join", "Demultiplexer", "Linear", "Plus", "Minus", "Add", "Scale", "Power",
                                               "Constant", "GreaterThan", "LessThan", "EqualTo", "MovingAverage", "StandardDeviation",
                                               "PeakDetector", "FiniteImpulseResponse", "AutoRegressive", "CosineResampler",
                                               "HermiteResampler", "ConstantResampler", "RelativeStrengthIndex", "Function", "Pipeline"};

// fields without which an operator cannot be built
static std::vector<std::string> required(const json& op) {
  std::vector<std::string> r;
  std::string t = op.value("type", "");
  for (auto k : {"id", "type", "n", "coeff", "value", "interval", "points", "prog"})
    if (op.contains(k) && !(t == "Variable")) r.push_back(k);
  if (t == "Variable") r = {"id", "type"};
  if ((t == "CosineResampler" || t == "HermiteResampler") && op.contains("dt")) r.push_back("dt");
  return r;
}

static const gen::Node* find(const std::vector<gen::Node>& nodes, const std::string& id) {
  for (auto& n : nodes)
    if (n.id == id) return &n;
  return nullptr;
}

// a value of the wrong kind that no conversion accepts
static json wrong_kind(pbt::Source& s, const json& was) {
  std::vector<json> all = {json("text"), json::array({"x"}), json{{"k", 1}}, json(nullptr)};
  if (!was.is_number()) all.push_back(json(7));
  std::vector<json> ok;
  for (auto& x : all) {
    if (x.is_string() && was.is_string()) continue;
    if (x.is_array() && was.is_array() && was.empty()) continue;
    ok.push_back(x);
  }
  return ok[s.below(ok.size())];
}

// returns what was broken; text is what to create from
static std::string break_it(pbt::Source& s, const gen::Prog& p, json& j, std::string& text) {
  std::vector<Site> all;
  sites(j, p.nodes, all);
  Site& at = all[s.chance(1, 2) ? 0 : s.below(all.size())];
  json& ops = *at.ops;
  json& conns = *at.conns;
  std::string inside = &at == &all[0] ? "" : " in a pipeline";
  std::string what;
  text.clear();
  switch (s.below(16)) {
    case 0: {
      std::string full = j.dump(s.flip() ? -1 : 2);
      text = full.substr(0, s.below(full.size()));
      return "the text ends early";
    }
    case 1: {
      std::string full = j.dump();
      size_t k = s.below(full.size());
      std::string structural = "{}[]:,";
      while (k < full.size() && structural.find(full[k]) == std::string::npos) k++;
      if (k >= full.size()) k = 0;
      std::string was(1, full[k]);
      // structural characters inside strings do not occur in generated ids, except the colon of "op:x"
      if (full[k] == ':' && k > 0 && full[k - 1] != '"') return "";
      full.erase(k, 1);
      if (s.flip()) full.insert(k, std::string(1, s.oneof({'#', '(', ';', '\\'})));
      text = full;
      return "a '" + was + "' is missing or replaced";
    }
    case 2: {
      auto key = s.oneof<const char*>({"operators", "connections", "entryOperator"});
      j.erase(key);
      return std::string("no ") + key;
    }
    case 3: {
      if (inside.empty()) return "";
      auto key = s.oneof<const char*>({"operators", "connections"});
      at.prog->erase(key);
      return std::string(key) + " gone" + inside;
    }
    case 4: {
      json& o = ops[s.below(ops.size())];
      auto req = required(o);
      auto key = req[s.below(req.size())];
      o.erase(key);
      return "an operator without " + key + inside;
    }
    case 5: {
      json& o = ops[s.below(ops.size())];
      o["type"] = s.oneof<const char*>({"Nothing", "", "input", "MovingAverage ", "Composite", "Operator", "join"});
      return "an unknown operator type" + inside;
    }
    case 6: {
      if (conns.empty()) return "";
      json& k = conns[s.below(conns.size())];
      auto key = s.flip() ? "from" : "to";
      k.erase(key);
      return std::string("a connection without ") + key + inside;
    }
    case 7: {
      json k = {{"from", ops[s.below(ops.size())]["id"]}, {"to", ops[s.below(ops.size())]["id"]}};
      k[s.flip() ? "from" : "to"] = s.oneof<const char*>({"nobody", "", "id"});
      if (s.flip() || conns.empty())
        conns.push_back(k);
      else {
        size_t i = s.below(conns.size());
        conns[i][k["from"] == "nobody" || k["from"] == "" ? "from" : "to"] = "nobody";
      }
      return "a connection of an unknown operator" + inside;
    }
    case 8: {  // a port nobody has
      if (conns.empty()) return "";
      json& k = conns[s.below(conns.size())];
      auto key = s.flip() ? "fromPort" : "toPort";
      k[key] = s.oneof<const char*>({"o99", "i99", "c99", "x", "o0", "i0", "1"});
      return std::string("a connection with an unknown ") + key + inside;
    }
    case 9: {  // a port of the wrong direction
      if (conns.empty()) return "";
      json& k = conns[s.below(conns.size())];
      if (s.flip())
        k["fromPort"] = "i1";
      else
        k["toPort"] = "o1";
      return "a connection against the direction of the port" + inside;
    }
    case 10: {  // a port that has to be named and is not
      std::vector<std::pair<size_t, std::string>> c;
      for (size_t i = 0; i < conns.size(); i++) {
        auto* f = find(*at.nodes, conns[i]["from"]);
        auto* t = find(*at.nodes, conns[i]["to"]);
        if (f && f->outs.size() != 1) c.push_back({i, "fromPort"});
        if (t && (t->ins.size() + t->ctls.size() != 1)) c.push_back({i, "toPort"});
      }
      if (c.empty()) return "";
      auto& k = c[s.below(c.size())];
      conns[k.first].erase(k.second);
      return "a connection that does not say which " + k.second + inside;
    }
    case 11: {
      switch (s.below(4)) {
        case 0: j["entryOperator"] = ""; return "an empty entry operator";
        case 1: j["entryOperator"] = "nobody"; return "an unknown entry operator";
        case 2: j["entryOperator"] = wrong_kind(s, j["entryOperator"]); return "an entry operator that is not a name";
        default: {
          std::vector<std::string> ctl;
          for (auto& n : p.nodes)
            if (!n.ctls.empty()) ctl.push_back(n.id);
          if (ctl.empty()) {
            j["operators"].push_back({{"id", "ctl"}, {"type", s.flip() ? "Variable" : "Demultiplexer"}});
            ctl.push_back("ctl");
          }
          j["entryOperator"] = ctl[s.below(ctl.size())];
          return "an entry operator with control ports";
        }
      }
    }
    case 12: {  // a required field of the wrong kind
      json& o = ops[s.below(ops.size())];
      auto req = required(o);
      auto key = req[s.below(req.size())];
      json was = o[key];
      json w = wrong_kind(s, was);
      o[key] = w;
      return "an operator whose " + key + " is " + w.dump() + inside;
    }
    case 13: {  // an optional or required field of the connection of the wrong kind
      if (conns.empty()) return "";
      json& k = conns[s.below(conns.size())];
      auto key = s.oneof<const char*>({"from", "to", "fromPort", "toPort"});
      k[key] = wrong_kind(s, json("text"));
      return std::string("a connection whose ") + key + " is not a name" + inside;
    }
    case 14: {  // too few ports, coefficients or points, an interval of zero
      bool wide = s.flip();
      for (int tries = 0; tries < 8; tries++) {
        json& o = ops[s.below(ops.size())];
        std::string t = o["type"];
        std::vector<std::string> counts;
        for (auto k : {"n", "numPorts", "dt", "interval"})
          if (o.contains(k)) counts.push_back(k);
        if (wide) {  // a count that no unsigned number can hold
          if (counts.empty()) continue;
          o[counts[0]] = s.oneof<json>({-1, -2, -1000000, INT64_MIN, -1.0, -10.5, 1e300, -1e300, 2e19});
          return "an operator whose " + counts[0] + " is " + o[counts[0]].dump() + inside;
        }
        if (t == "Join") o["numPorts"] = s.range(-1, 1);
        else if (t == "Input" || t == "Output" || t == "Demultiplexer") o["numPorts"] = s.range(-2, 0);
        else if (t == "Linear") o["coeff"] = s.flip() ? json::array() : json::array({1});
        else if (t == "AutoRegressive") o["coeff"] = json::array();
        else if (t == "Function") o["points"] = s.flip() ? json::array() : json::array({json::array({1, 2})});
        else if (t == "CosineResampler" || t == "HermiteResampler") o["dt"] = 0;
        else if (t == "ConstantResampler") o["interval"] = 0;
        else if (t == "TimeShift") o["times"] = s.oneof<json>({1e300, -1e300, 2147483648ll, -2147483649ll, 3e9});
        else continue;
        return "a " + t + " out of its documented range" + inside;
      }
      return "";
    }
    default: {
      switch (s.below(3)) {
        case 0: j[s.flip() ? "operators" : "connections"] = s.oneof<json>({"text", 7, json{{"k", 1}}, json::array({"x"}), json::array({json::array()})}); return "a list that is something else";
        case 1: text = s.oneof<const char*>({"", " ", "null", "[]", "{}", "1", "\"x\"", "true", "{\"operators\":[]}", "[{}]", "\xff\xfe", "nan"}); return "not a definition";
        default: text = std::string((size_t)s.range(1, 2000), s.oneof({'[', '{', '"', 'x', '-'})); return "garbage";
      }
    }
  }
}

// arbitrary JSON over the words of definitions
static json any_json(pbt::Source& s, int depth) {
  static const std::vector<std::string> KEYS = {"operators", "connections", "entryOperator", "id", "type", "from", "to", "fromPort", "toPort",
                                                "n", "numPorts", "value", "coeff", "dt", "interval", "points", "prog", "output", "times",
                                                "interpolation", "apiVersion"};
  switch (s.below(depth > 0 ? 9 : 6)) {
    case 0: return s.oneof<const char*>({"a", "b", "i1", "o1", "c1", ""});
    case 1: return s.range(-3, 12);
    case 2: return s.chance(1, 6) ? s.oneof<json>({1e300, -1e300, 2e19, -2e19, INT64_MIN}) : json((double)s.range(-40, 40) / 4);
    case 3: return KINDS[s.below(KINDS.size())];
    case 4: return s.flip();
    case 5: return nullptr;
    case 6: {
      json a = json::array();
      int k = (int)s.range(0, 4);
      for (int i = 0; i < k; i++) a.push_back(any_json(s, depth - 1));
      return a;
    }
    default: {
      json o = json::object();
      int k = (int)s.range(0, 6);
      for (int i = 0; i < k; i++) o[KEYS[s.below(KEYS.size())]] = any_json(s, depth - 1);
      return o;
    }
  }
}

// a definition with some of its fields replaced by arbitrary JSON
static void scramble(pbt::Source& s, json& j, int depth) {
  if (depth <= 0 || !j.is_structured() || j.empty()) {
    j = any_json(s, 2);
    return;
  }
  auto it = j.begin();
  std::advance(it, s.below(j.size()));
  if (s.chance(1, 6))
    j.erase(it);
  else if (s.chance(1, 4))
    *it = any_json(s, 2);
  else
    scramble(s, *it, depth - 1);
}

// feeding a cyclic definition never ends; nothing is claimed about it
static bool cyclic(const json& j) {
  std::map<std::string, std::set<std::string>> next;
  for (auto& k : j["connections"]) next[k["from"]].insert(k["to"].get<std::string>());
  for (size_t round = 0; round <= next.size(); round++)
    for (auto& [a, to] : next)
      for (auto b : std::set<std::string>(to))
        if (next.count(b)) to.insert(next[b].begin(), next[b].end());
  for (auto& [a, to] : next)
    if (to.count(a)) return true;
  for (auto& o : j["operators"])
    if (o.value("type", "") == "Pipeline" && cyclic(o["prog"])) return true;
  return false;
}

static bool exists(FactoryOp& f, const std::string& id) {
  try {
    f.getProgramEntryOperatorId(id);
    return true;
  } catch (const std::exception&) {
    return false;
  }
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Options opt;
  opt.maxOps = 6;
  opt.pipelines = s.flip();
  opt.pipelineWeight = 8;
  gen::Prog p = gen::program(s, opt), other = gen::program(s, opt);
  json j = gen::prog_json(p, &s);
  std::string valid = j.dump(), otherText = gen::prog_json(other).dump();
  std::string text, what;
  bool must = true;
  if (s.chance(1, 4)) {
    must = false;
    if (s.chance(1, 4))
      j = any_json(s, 5);
    else
      for (int k = (int)s.range(1, 3); k > 0; k--) scramble(s, j, (int)s.range(1, 6));
    text = j.dump();
    if (s.chance(1, 4)) {
      // and arbitrary bytes on top
      for (int k = (int)s.range(1, 4); k > 0; k--) text[s.below(text.size())] = (char)s.below(256);
    }
    what = "arbitrary text";
  } else {
    what = break_it(s, p, j, text);
    if (what.empty()) c.discard();
    if (text.empty() && what != "not a definition" && what != "the text ends early") text = j.dump();
  }
  c.log([&](std::ostream& o) { o << what << ": " << text << "\nvalid " << valid << "\nother " << otherText; });
  c.label(what.size() > 40 ? what.substr(0, 40) : what);

  FactoryOp f;
  c.require(f.createProgram("other", otherText).empty(), "a valid definition was refused");
  Program alone(otherText);
  auto ev = gen::history(s, other, 20);
  size_t at = 0;
  auto others = [&](size_t n, const char* when) {
    for (; n > 0 && at < ev.size(); n--, at++) {
      OM om = message({ev[at]});
      Outcome a = attempt([&] { return f.processMessageMapDebug("other", om); }), b = attempt([&] { return alone.receiveDebug(om); });
      if (!same(a, b)) c.fail(std::string("the other program ") + when + ": " + show(a) + " instead of " + show(b));
    }
  };
  others(s.range(0, 10), "before");
  // what is there under the id beforehand: nothing, a program, or a deleted program
  int before = (int)s.below(4);
  if (before == 1) {
    c.require(f.createProgram("x", valid).empty(), "a valid definition was refused");
    c.require(f.deleteProgram("x"), "a program could not be deleted");
  }
  if (before == 2) {
    // an existing program is not disturbed by a broken definition under its id
    c.require(f.createProgram("y", otherText).empty(), "a valid definition was refused");
    Program twin(otherText);
    attempt([&] { f.createProgram("y", text); return PM{}; });
    for (auto& e : ev) {
      OM om = message({e});
      Outcome a = attempt([&] { return f.processMessageMapDebug("y", om); }), b = attempt([&] { return twin.receiveDebug(om); });
      if (!same(a, b)) c.fail("the existing program: " + show(a) + " instead of " + show(b));
    }
  }
  std::string answer, thrown;
  bool refused = false;
  try {
    answer = f.createProgram("x", text);
    refused = !answer.empty();
  } catch (const std::exception& e) {
    refused = true;
    thrown = e.what();
    c.require(!thrown.empty(), "refused without a reason");
  }
  if (must && !refused) c.fail("not refused: " + what);
  if (s.flip()) {
    // the same through the static factory
    bool again = false;
    try {
      auto q = FactoryOp::createProgram(text);
      (void)q;
    } catch (const std::exception&) {
      again = true;
    }
    c.require(again == refused, std::string("createProgram under an id ") + (refused ? "refuses" : "accepts") + " it, the static createProgram does not agree");
  }
  others(s.range(0, 5), "after the refusal");
  if (refused) {
    c.require(!exists(f, "x"), "a program exists under the id of the refused definition (" + what + ")");
    OM om;
    om["i1"].push_back(nat::conv(ref::Msg{1, 1}));
    Outcome o = attempt([&] { return f.processMessageMap("x", om); });
    c.require(o.threw || o.out.empty(), "the refused program answers");
    bool threw = false;
    try {
      f.addToMessageBuffer("x", "i1", nat::conv(ref::Msg{1, 1}));
    } catch (const std::exception&) {
      threw = true;
    }
    c.require(threw, "a message can be buffered for the refused program");
    if (s.flip()) c.require(!f.deleteProgram("x"), "the refused program could be deleted");
  } else {
    c.label("arbitrary definition accepted");
    c.require(exists(f, "x"), "accepted, but no program exists");
    // whatever it is, it can be fed and saved without harm
    auto ports = f.getProgramEntryPorts("x");
    if (!ports.empty() && !cyclic(json::parse(text)))
      for (int k = 1; k <= 3; k++)
        for (auto& port : ports) {
          OM om;
          om[port].push_back(nat::conv(ref::Msg{1000 + k, 1.0 * k}));
          attempt([&] { return f.processMessageMapDebug("x", om); });
        }
    c.require(f.deleteProgram("x"), "the program could not be deleted");
  }
  // the id is as good as new
  c.require(f.createProgram("x", valid).empty(), "the id cannot be used for a valid definition afterwards");
  Program fresh(valid);
  for (auto& e : gen::history(s, p, 8)) {
    OM om = message({e});
    Outcome a = attempt([&] { return f.processMessageMapDebug("x", om); }), b = attempt([&] { return fresh.receiveDebug(om); });
    if (!same(a, b)) c.fail("the valid program under the id afterwards: " + show(a) + " instead of " + show(b));
  }
  others(ev.size(), "at the end");
  if (refused && must && ev.size() >= 2) c.mark();
}
PBT_MAIN("C23", prop, 40000, 3000000, "a definition with a definite fault was refused next to a live program that got at least two messages")
