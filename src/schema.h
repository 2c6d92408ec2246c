// Definitions that satisfy the published schema, and definitions that certainly do not (from the operators' documentation).
#pragma once
#include "api.h"

namespace schema {
using api::json;

// optional descriptive fields
inline void describe(pbt::Source& s, json& j) {
  if (s.chance(1, 4)) j["title"] = s.oneof<const char*>({"Peak detector", "", "a \"quoted\" title \\ \xc3\xa9"});
  if (s.chance(1, 6)) j["description"] = "some text\nover two lines";
  if (s.chance(1, 6)) j["author"] = "Someone <someone@gmail.com>";
  if (s.chance(1, 6)) j["license"] = s.oneof<const char*>({"MIT", "private"});
  if (s.chance(1, 6)) j["date"] = s.oneof<const char*>({"2000-01-01", "2024-02-29", "1999-12-31"});
  if (s.chance(1, 12)) j["optim"] = {{"algorithm", "Nelder-Mead"}};
  if (s.chance(1, 8)) j.erase("apiVersion");
}

inline json wrong_number(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return "3";
    case 1: return nullptr;
    case 2: return json::array({3});
    default: return true;
  }
}
inline json wrong_string(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return 1;
    case 1: return nullptr;
    case 2: return json::array({"a"});
    default: return json::object();
  }
}

// make one operator break its schema; empty if the dice found nothing to break
inline std::string spoil_operator(pbt::Source& s, json& o) {
  static const std::set<std::string> PORTS = {"Input", "Output", "Join", "Demultiplexer"};
  static const std::set<std::string> N = {"MovingAverage", "StandardDeviation", "PeakDetector"};
  static const std::set<std::string> COEFF = {"FiniteImpulseResponse", "AutoRegressive", "Linear"};
  static const std::set<std::string> VALUE = {"Add", "Scale", "Power", "Constant", "GreaterThan", "LessThan", "EqualTo", "Variable"};
  std::string t = o["type"], id = o["id"];
  switch (s.below(6)) {
    case 0: o.erase("id"); return "operator " + id + " without id";
    case 1: o["id"] = wrong_string(s); return "the id of operator " + id + " is no string";
    default: break;
  }
  auto wrong = [&](const char* k) {
    o[k] = wrong_number(s);
    return std::string(k) + " of operator " + id + " is no number";
  };
  auto fraction = [&](const char* k) {
    o[k] = s.range(1, 5) + 0.5;
    return std::string(k) + " of operator " + id + " is no integer";
  };
  auto missing = [&](const char* k) {
    o.erase(k);
    return "operator " + id + " without " + k;
  };
  if (PORTS.count(t)) {
    switch (s.below(3)) {
      case 0: return wrong("numPorts");
      case 1: return fraction("numPorts");
      default:
        o["numPorts"] = t == "Join" ? s.range(0, 1) : s.range(-2, 0);
        return "too few ports of operator " + id;
    }
  }
  if (N.count(t)) {
    switch (s.below(3)) {
      case 0: return wrong("n");
      case 1: return missing("n");
      default: return t == "StandardDeviation" ? wrong("n") : fraction("n");
    }
  }
  if (COEFF.count(t)) {
    switch (s.below(4)) {
      case 0: return missing("coeff");
      case 1: o["coeff"] = 1.5; return "coeff of operator " + id + " is no list";
      case 2: o["coeff"][s.below(o["coeff"].size())] = wrong_number(s); return "a coefficient of operator " + id + " is no number";
      default:
        if (t == "FiniteImpulseResponse") return missing("coeff");
        o["coeff"] = json::array();
        if (t == "Linear" && s.flip()) o["coeff"].push_back(1);
        return "too few coefficients of operator " + id;
    }
  }
  if (VALUE.count(t)) return t == "Variable" || s.flip() ? wrong("value") : missing("value");
  if (t == "CosineResampler" || t == "HermiteResampler") {
    switch (s.below(3)) {
      case 0: return wrong("dt");
      case 1: return missing("dt");
      default: return fraction("dt");
    }
  }
  if (t == "ConstantResampler") {
    switch (s.below(4)) {
      case 0: return wrong("interval");
      case 1: return missing("interval");
      case 2: return fraction("interval");
      default: o["interval"] = s.range(-3, 0); return "interval of operator " + id + " below one";
    }
  }
  if (t == "TimeShift") {
    switch (s.below(4)) {
      case 0: return wrong("dt");
      case 1: return wrong("times");
      case 2: return fraction("times");
      default: o["dt"] = s.range(-3, 0); return "dt of operator " + id + " below one";
    }
  }
  if (t == "Function") {
    auto& p = o["points"];
    switch (s.below(7)) {
      case 0: return missing("points");
      case 1: p = "none"; return "points of operator " + id + " is no list";
      case 2: p = json::array({p[0]}); return "one point for operator " + id;
      case 3: p[s.below(p.size())].push_back(1); return "a point of operator " + id + " with three numbers";
      case 4: p[s.below(p.size())] = json::array({1}); return "a point of operator " + id + " with one number";
      case 5: p[s.below(p.size())][s.below(2)] = wrong_number(s); return "a point of operator " + id + " without numbers";
      default: o["interpolation"] = s.oneof<const char*>({"cubic", "Linear", ""}); return "unknown interpolation of operator " + id;
    }
  }
  return "";
}

// make the program break the schema
inline std::string spoil(pbt::Source& s, json& j) {
  switch (s.weighted({3, 2, 1, 2, 3, 1, 1, 1, 8, 2, 1})) {
    case 0: {
      const char* k = s.oneof<const char*>({"operators", "connections", "entryOperator"});
      j.erase(k);
      return std::string("no ") + k;
    }
    case 1: {
      const char* k = s.oneof<const char*>({"operators", "connections"});
      if (s.flip())
        j[k] = wrong_string(s);
      else
        j[k][0] = s.flip() ? json(1) : json("a");
      if (j[k].is_array() && j[k].size() && (j[k][0].is_number() || j[k][0].is_string())) return std::string("an element of ") + k + " is no object";
      j[k] = json::object();
      return std::string(k) + " is no list";
    }
    case 2: j["entryOperator"] = wrong_string(s); return "the entry operator is no string";
    case 3: {
      auto& o = j["operators"][s.below(j["operators"].size())];
      o["type"] = s.oneof<const char*>({"Nothing", "input", "", "Pipeline", "RelativeStrengthIndex"});
      return "undocumented operator type " + o["type"].get<std::string>();
    }
    case 4: {
      auto& cs = j["connections"];
      if (cs.empty()) break;
      auto& c = cs[s.below(cs.size())];
      switch (s.below(5)) {
        case 0: c.erase("from"); return "a connection without from";
        case 1: c.erase("to"); return "a connection without to";
        case 2: c["port"] = "o1"; return "a connection with an unknown field";
        case 3: c["toPort"] = 1; return "a numeric toPort";
        default: c["fromPort"] = nullptr; return "a fromPort that is null";
      }
    }
    case 5: j["apiVersion"] = s.oneof<const char*>({"v2", "", "V1"}); return "an unknown version";
    case 6: j["date"] = s.oneof<const char*>({"yesterday", "2000-13-01", "2023-02-29", "01-01-2000"}); return "an invalid date";
    case 7: {
      const char* k = s.oneof<const char*>({"title", "description", "author", "license"});
      j[k] = wrong_string(s);
      return std::string(k) + " is no string";
    }
    case 9: j["output"] = s.flip() ? json::array() : json("all"); return "the output map is no object";
    case 10: {
      json k = json::array();
      k.push_back(j);
      j = s.flip() ? k : json(1);
      return "the definition is no object";
    }
    default: break;
  }
  for (int i = 0; i < 6; i++) {
    std::string w = spoil_operator(s, j["operators"][s.below(j["operators"].size())]);
    if (!w.empty()) return w;
  }
  j["operators"][0].erase("type");
  return "an operator without type";
}

// the JSON a result has to be rendered as
inline json number(double v) { return std::isfinite(v) ? json(v) : json(nullptr); }
inline json rendered(const nat::PM& pm) {
  json r = json::object();
  for (auto& [id, om] : pm) {
    json o = json::object();
    for (auto& [port, ms] : om) {
      json a = json::array();
      for (auto& m : ms) a.push_back({{"time", m.time}, {"value", number(m.value)}});
      o[port] = a;
    }
    r[id] = o;
  }
  return r;
}
}  // namespace schema
