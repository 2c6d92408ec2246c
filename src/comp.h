// Operators wired by hand and through the Composite builder (compiled apart: it needs every operator header).
#pragma once
#include "gen.h"
#include "native.h"

namespace comp {
// the kinds the builder offers, besides Input and Output
extern const std::vector<std::string> KINDS;

struct Graph {
  virtual ~Graph() = default;
  // deliver, execute and return what the operators returned; throws what they throw
  virtual nat::PM feed(const std::string& port, const ref::Msg& m) = 0;
  // what arrived since the last call at the collectors behind the output ports
  virtual ref::Ports arrived() = 0;
  virtual rtbot::Bytes collect() = 0;
  virtual void restore(rtbot::Bytes::const_iterator& it) = 0;
  // refused calls of the builder: description of the first one that was accepted, or empty
  virtual std::string provoke(pbt::Source&) { return ""; }
};

// p: one Input (the entry), one Output named by `out`, operators of KINDS
std::unique_ptr<Graph> manual(const gen::Prog& p, const std::string& out);
// viaSource: the composite is fed through operators connected to it instead of directly
std::unique_ptr<Graph> composite(const gen::Prog& p, const std::string& out, bool viaSource, pbt::Source* provoke);

// random program of that shape; bits: the history should hold 0 and 1 only
gen::Prog program(pbt::Source& s, int maxOps, std::string& out, bool& bits);
std::vector<gen::Event> history(pbt::Source& s, const gen::Prog& p, int maxSteps, bool bits);
}  // namespace comp
