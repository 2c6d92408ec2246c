// Random programs (acyclic operator graphs), random input histories and the reference interpreter.
#pragma once
#include <array>
#include <functional>

#include "pbt.h"
#include "ref.h"

namespace gen {
using pbt::Ctx;
using pbt::Source;
using ref::Msg;
using ref::Params;
using ref::Ports;
using ref::Stream;

// k/4: every sum, difference and product of a few of them is exact in a double
double value(Source& s);
int64_t gap(Source& s);
inline int64_t origin(Source& s) {
  if (s.chance(1, 8)) return s.range(0, 20);  // close enough to zero for a shift back to be cut off
  return s.oneof<int64_t>({1000, 1003, 1000000, 1600000000000ll});
}
// factor for every duration of a case: mostly 1, sometimes beyond what 32 bits or a float can count
inline int64_t time_scale(Source& s) {
  if (!s.chance(1, 8)) return 1;
  return s.oneof<int64_t>({1000, 1000000, 2147483655ll, 4294967297ll, 1099511627777ll});
}

Stream stream(Source& s, int n, int64_t t0);

struct Node {
  std::string id, type;
  Params p;
  std::vector<std::string> ins, ctls, outs;
  // optional inner program of a Pipeline
  std::vector<Node> inner;
  std::vector<std::array<std::string, 4>> innerConns;
  bool exactIns = false;          // the inputs of a pipeline must carry exact values
  std::vector<bool> outsExact;    // per output of a pipeline
};
using Conn = std::array<std::string, 4>;  // from, fromPort, to, toPort

struct Prog {
  std::vector<Node> nodes;
  std::vector<Conn> conns;
  std::string entry;
  std::map<std::string, std::vector<std::string>> output;
  bool hasOutput = false;
  int64_t scale = 1;  // of the durations in the parameters; history() uses the same
  bool large = false; // wide windows, many ports, long ids: history() is longer
  // set by flatten() when the entry operator was a pipeline: its ports -> node and port
  std::map<std::string, std::pair<std::string, std::string>> entryMap;
  const Node& node(const std::string& id) const {
    for (auto& n : nodes)
      if (n.id == id) return n;
    throw std::runtime_error("gen: no node " + id);
  }
};

void set_ports(Node& n);

std::string node_text(const Node& n);

// parameters of an operator, small enough to reach every phase within a short stream
void params(Source& s, Node& n);

// operators whose result is discontinuous in, or very sensitive to, their input values
bool needs_exact(const std::string& t);
// operators that may produce values that are not exact
bool inexact(const std::string& t);

struct Options {
  bool openDemux = false;  // a demultiplexer in a pipeline may get its data from outside, where nothing keeps it in step with the control ports
  int minOps = 1, maxOps = 9;
  bool pipelines = false;       // allow nested pipelines
  int pipelineWeight = 4, pipelineOps = 4, pipelineDepth = 1;
  bool pipelineEntry = false;   // the entry operator is often a pipeline
  bool otherEntry = true;       // allow a non Input entry operator
  bool aligned = false;         // no operator that withholds messages of one branch for ever
  bool shifts = true;           // allow TimeShift
  bool documented = false;      // only what the published schema admits
  bool large = true;            // now and then windows, ports, ids and histories of several hundred
};

// while it exists, make() and new_id() draw from the large sizes
struct Large {
  bool before;
  explicit Large(bool on);
  ~Large();
};
bool large();

struct Avail {
  std::string node, port;
  bool exact;
};

std::string new_id(Source& s, size_t k);


Node make(Source& s, const std::string& id, const std::string& type);

// pick a stream; the most recent ones are preferred so that chains get deep
Avail pick_stream(Source& s, const std::vector<Avail>& pool, bool exact);

void wire(Prog& p, std::vector<Avail>& pool, const Node& n, const std::vector<Avail>& ins,
                 const std::vector<Avail>& ctls = {});

void add_op(Source& s, Prog& p, std::vector<Avail>& pool, size_t& k, const Options& opt);

void shuffle_nodes(Source& s, Prog& p);

// multiplies the durations among the parameters
void stretch(Node& n, int64_t f);

void random_output(Source& s, Prog& p);

Prog program(Source& s, const Options& opt = {});

// a pipeline operator with 1..maxOps operators inside, possibly pipelines again; at least one input and output
Node pipeline(Source& s, const std::string& id, int maxOps, int depth, bool shifts = true, bool openDemux = false);
// sets the ports of a pipeline: the unconnected data inputs and outputs, sorted as "id:port"
void pipeline_ports(Node& n);
// "i1" -> (inner id, inner port), also for the outputs
std::map<std::string, std::pair<std::string, std::string>> exported(const Node& n);

struct Flat {
  Prog p;
  // (pipeline, output port) -> (node, port) in the flat program
  std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> outs;
};
// the same program with every pipeline replaced by the operators inside
Flat flatten(const Prog& p);

struct Event {
  std::string port;
  Msg m;
};

// history for the entry operator: per port strictly increasing streams over a common time grid, merged
// with a random lag; for an Input entry also late and repeated timestamps, which it has to drop
std::vector<Event> history(Source& s, const Prog& p, int maxSteps, bool disorder = true, bool aligned = false);

// ---------------------------------------------------------------- reference interpreter

struct Trace {
  std::map<std::string, Ports> out;   // node -> port -> stream
  std::map<std::string, double> mag;  // node -> magnitude relevant for the tolerance
  std::map<std::string, bool> exact;  // node -> every value exactly representable and exactly computed
};

bool dyadic(double v);

std::vector<const Node*> topo(const Prog& p);

// `entry`: what was delivered to each port of the entry operator, in order
Trace interpret(const Prog& p, const std::vector<const Node*>& order, const Ports& entry, bool altHermite);

// the same for programs with pipelines
struct Interpreter {
  Flat flat;
  std::vector<const Node*> order;
  std::vector<std::string> ids;  // of the original operators
  explicit Interpreter(const Prog& p);
  // traces of the operators of the original program, the pipelines included
  Trace run(const Ports& entry, bool altHermite = false) const;
  bool hermite = false;
 private:
  std::vector<std::pair<std::string, std::vector<std::string>>> pipes;
};

std::string show(const Stream& st, size_t from = 0);

bool same_value(double a, double b, bool exact, double mag);

bool same_stream(const Stream& a, const Stream& b, bool exact, double mag);

void show_events(std::ostream& o, const std::vector<Event>& ev);

}  // namespace gen
