// Reference semantics of every operator, written from the documentation as pure functions on whole
// streams: eval(type, params, input streams) -> output streams. Nothing here shares code or structure
// with /repo: no incremental state, no running sums, no buffers.
#pragma once
#include <cmath>
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace ref {

struct Msg {
  int64_t t;
  double v;
};
inline bool operator==(const Msg& a, const Msg& b) { return a.t == b.t && a.v == b.v; }
using Stream = std::vector<Msg>;
using Ports = std::map<std::string, Stream>;

struct Params {
  double value = 0;
  int64_t n = 0;        // window, dt, interval, numPorts
  int64_t times = 1;    // TimeShift
  bool oldest = true;   // Difference
  std::vector<double> coeff;
  std::vector<std::pair<double, double>> points;
  bool hermite = false;
};

struct Undefined {};  // outside of the domain the property speaks about

inline std::string in(int i) { return "i" + std::to_string(i); }
inline std::string out(int i) { return "o" + std::to_string(i); }
inline std::string ctl(int i) { return "c" + std::to_string(i); }
const Stream& port(const Ports& p, const std::string& k);

// the last message of `s` with time <= t (streams are strictly increasing)
const Msg* at_or_before(const Stream& s, int64_t t);
const Msg* exactly(const Stream& s, int64_t t);

// tuples for the timestamps present on all the ports
std::vector<std::pair<int64_t, std::vector<double>>> tuples(const std::vector<const Stream*>& ss);

double hermite_mix(double y0, double y1, double m0, double m1, double u);

double function_value(const Params& p, double x);

struct Result {
  Ports out;
  // for the Hermite resampler, whose artificial left neighbour may be computed with a rounded mean gap:
  Ports alt;
};

Ports eval(const std::string& type, const Params& p, const Ports& ins);

}  // namespace ref
