// JSON definitions of generated programs.
#pragma once
#include <nlohmann/json.hpp>

#include "gen.h"

namespace gen {
using json = nlohmann::json;
inline json conns_json(const std::vector<Conn>& cs, const std::function<const Node*(const std::string&)>& find,
                       Source* omit) {
  json a = json::array();
  for (auto& c : cs) {
    json j = {{"from", c[0]}, {"to", c[2]}};
    auto* f = find(c[0]);
    auto* t = find(c[2]);
    bool omitFrom = omit && f && f->outs.size() == 1 && omit->chance(1, 3);
    bool omitTo = omit && t && t->ins.size() == 1 && t->ctls.empty() && omit->chance(1, 3);
    if (!omitFrom) j["fromPort"] = c[1];
    if (!omitTo) j["toPort"] = c[3];
    a.push_back(j);
  }
  return a;
}

inline json node_json(const Node& n, Source* omit = nullptr) {
  json j = {{"id", n.id}, {"type", n.type}};
  auto& t = n.type;
  if (t == "Input" || t == "Output" || t == "Join" || t == "Demultiplexer") j["numPorts"] = n.p.n;
  if (t == "MovingAverage" || t == "StandardDeviation" || t == "PeakDetector" || t == "RelativeStrengthIndex") j["n"] = n.p.n;
  if (t == "FiniteImpulseResponse" || t == "AutoRegressive" || t == "Linear") j["coeff"] = n.p.coeff;
  if (t == "Add" || t == "Scale" || t == "Power" || t == "Constant" || t == "GreaterThan" || t == "LessThan" ||
      t == "EqualTo" || t == "Variable")
    j["value"] = n.p.value;
  if (t == "CosineResampler" || t == "HermiteResampler") j["dt"] = n.p.n;
  if (t == "ConstantResampler") j["interval"] = n.p.n;
  if (t == "TimeShift") {
    j["dt"] = n.p.n;
    j["times"] = n.p.times;
  }
  if (t == "Function") {
    json pts = json::array();
    for (auto& q : n.p.points) pts.push_back({q.first, q.second});
    j["points"] = pts;
    if (n.p.hermite) j["interpolation"] = "hermite";
  }
  if (t == "Pipeline") {
    json ops = json::array();
    for (auto& m : n.inner) ops.push_back(node_json(m, omit));
    json prog;
    prog["operators"] = ops;
    prog["connections"] = conns_json(n.innerConns, [&](const std::string& id) -> const Node* {
      for (auto& m : n.inner)
        if (m.id == id) return &m;
      return nullptr;
    }, omit);
    j["prog"] = prog;
  }
  return j;
}

inline json prog_json(const Prog& p, Source* omit = nullptr) {
  json j;
  j["apiVersion"] = "v1";
  j["entryOperator"] = p.entry;
  json ops = json::array();
  for (auto& n : p.nodes) ops.push_back(node_json(n, omit));
  j["operators"] = ops;
  j["connections"] = conns_json(p.conns, [&](const std::string& id) { return &p.node(id); }, omit);
  if (p.hasOutput) j["output"] = p.output;
  return j;
}


}  // namespace gen
