#include "pre.h"

#include "gen.h"

namespace gen {

static bool LARGE = false;
Large::Large(bool on) : before(LARGE) { LARGE = on; }
Large::~Large() { LARGE = before; }
bool large() { return LARGE; }

// sizes next to the ones a byte counts, or in between
static int64_t size(Source& s, int64_t lo, int64_t most) {
  int64_t k = 0;
  switch (s.weighted({3, 2, 1, 1})) {
    case 0: k = s.range(lo, 12); break;
    case 1: k = s.range(lo, 40); break;
    case 2: k = s.oneof<int64_t>({16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}); break;
    default: k = s.oneof<int64_t>({255, 256, 257, 300}); break;
  }
  return std::min(std::max(k, lo), most);
}

double value(Source& s) {
  switch (s.weighted({6, 3, 2, 1})) {
    case 0: return s.range(0, 8) / 4.0;
    case 1: return s.range(-20, 20) / 4.0;
    case 2: return (double)s.range(-6, 6);
    default: return (double)s.range(-400, 400);
  }
}

int64_t gap(Source& s) {
  switch (s.weighted({5, 4, 1})) {
    case 0: return 1;
    case 1: return s.range(1, 6);
    default: return s.range(1, 40);
  }
}

Stream stream(Source& s, int n, int64_t t0) {
  Stream r;
  int64_t t = t0;
  for (int i = 0; i < n; i++) {
    r.push_back({t, value(s)});
    t += gap(s);
  }
  return r;
}

void set_ports(Node& n) {
  n.ins.clear();
  n.ctls.clear();
  n.outs.clear();
  auto& t = n.type;
  int k = (int)n.p.n;
  int nin = 1, nout = 1;
  if (t == "Input" || t == "Output" || t == "Join") nin = nout = k;
  if (t == "Linear") nin = (int)n.p.coeff.size();
  if (t == "Plus" || t == "Minus" || t == "Multiplication" || t == "Division" || t == "And" || t == "Or" ||
      t == "GreaterThanStream" || t == "LessThanStream")
    nin = 2;
  if (t == "Demultiplexer") {
    nout = k;
    for (int i = 1; i <= k; i++) n.ctls.push_back(ref::ctl(i));
  }
  if (t == "Variable") n.ctls.push_back("c1");
  for (int i = 1; i <= nin; i++) n.ins.push_back(ref::in(i));
  for (int i = 1; i <= nout; i++) n.outs.push_back(ref::out(i));
}

std::string node_text(const Node& n) {
  std::ostringstream o;
  o.precision(17);
  o << n.type << "(" << n.id << "; n=" << n.p.n << " value=" << n.p.value;
  if (n.type == "TimeShift") o << " times=" << n.p.times;
  if (!n.p.coeff.empty()) {
    o << " coeff=[";
    for (auto x : n.p.coeff) o << " " << x;
    o << " ]";
  }
  if (!n.p.points.empty()) {
    o << (n.p.hermite ? " hermite" : " linear") << " points=";
    for (auto& q : n.p.points) o << "(" << q.first << "," << q.second << ")";
  }
  if (n.type == "Pipeline") {
    o << " ops=[";
    for (auto& m : n.inner) o << node_text(m) << " ";
    o << "] conns=[";
    for (auto& c : n.innerConns) o << c[0] << ":" << c[1] << "->" << c[2] << ":" << c[3] << " ";
    o << "]";
  }
  o << ")";
  return o.str();
}

void params(Source& s, Node& n) {
  auto& t = n.type;
  auto& p = n.p;
  auto coeffs = [&](int lo, int hi, bool small) {
    int k = (int)s.range(lo, hi);
    p.coeff.clear();
    for (int i = 0; i < k; i++)
      p.coeff.push_back(small ? s.oneof({1.0, 0.5, -0.5, 0.25, -1.0, 0.0}) : s.range(-8, 8) / 4.0 + (s.chance(1, 4) ? 1 : 0));
  };
  if (t == "Input" || t == "Output") p.n = s.range(1, 3);
  if (t == "Join") p.n = s.range(2, 4);
  if (t == "Demultiplexer") p.n = s.range(1, 3);
  if (t == "Linear") coeffs(2, s.chance(1, 8) ? 12 : 4, false);
  if (t == "FiniteImpulseResponse") coeffs(1, 5, false);
  if (t == "AutoRegressive") coeffs(1, 3, true);
  if (t == "MovingAverage" || t == "PeakDetector" || t == "RelativeStrengthIndex") p.n = s.range(1, 6);
  if (t == "StandardDeviation") p.n = s.range(2, 6);
  if (t == "Power") p.value = (double)s.range(0, 3);
  if (t == "Add" || t == "Constant" || t == "Variable" || t == "GreaterThan" || t == "LessThan") p.value = s.range(-12, 12) / 4.0;
  if (t == "EqualTo") p.value = s.range(0, 8) / 4.0;
  if (t == "Scale") p.value = s.range(-12, 12) / 4.0;
  if (t == "CosineResampler" || t == "HermiteResampler" || t == "ConstantResampler") p.n = s.range(1, 9);
  if (t == "TimeShift") {
    p.n = s.range(0, 6);
    p.times = s.range(-3, 4);
  }
  if (t == "Function") {
    int k = (int)s.range(2, 5);
    int64_t x = s.range(-8, 2);
    p.points.clear();
    for (int i = 0; i < k; i++) {
      p.points.push_back({x / 2.0, s.range(-12, 12) / 4.0});
      x += s.range(1, 6);
    }
    if (s.chance(1, 3))
      std::reverse(p.points.begin(), p.points.end());
    else if (s.flip())
      for (size_t i = p.points.size(); i > 1; i--) std::swap(p.points[i - 1], p.points[s.below(i)]);
    p.hermite = s.flip();
  }
  if (LARGE && s.flip()) {
    if (t == "Input" || t == "Output") p.n = s.range(1, 14);
    if (t == "Join") p.n = s.range(2, 14);
    if (t == "Demultiplexer") p.n = s.range(1, 11);
    if (t == "Linear") coeffs(2, s.flip() ? 14 : 70, false);
    if (t == "FiniteImpulseResponse") {
      int k = (int)size(s, 1, 300);
      coeffs(k, k, false);
    }
    if (t == "AutoRegressive") {
      int k = (int)size(s, 1, 300);
      p.coeff.assign(k, 0.0);
      for (int i = 0; i < 3; i++) p.coeff[s.flip() ? k - 1 : s.below(k)] = s.oneof({0.5, -0.5, 0.25, 1.0});
    }
    if (t == "MovingAverage" || t == "PeakDetector" || t == "RelativeStrengthIndex" || t == "StandardDeviation") p.n = size(s, 2, 300);
    if (t == "Function") {
      int k = (int)s.range(2, 40);
      int64_t x = s.range(-40, 2);
      p.points.clear();
      for (int i = 0; i < k; i++) {
        p.points.push_back({x / 2.0, s.range(-12, 12) / 4.0});
        x += s.range(1, 6);
      }
      if (s.flip()) std::reverse(p.points.begin(), p.points.end());
    }
  }
  set_ports(n);
}

bool needs_exact(const std::string& t) {
  static const std::set<std::string> k = {"EqualTo", "GreaterThan", "LessThan", "GreaterThanStream", "LessThanStream",
                                          "PeakDetector", "And", "Or", "Division", "StandardDeviation",
                                          "RelativeStrengthIndex", "Function", "Power"};
  return k.count(t) > 0;
}

bool inexact(const std::string& t) {
  static const std::set<std::string> k = {"MovingAverage", "StandardDeviation", "RelativeStrengthIndex", "Function", "Division",
                                          "CosineResampler", "HermiteResampler", "AutoRegressive", "Power"};
  return k.count(t) > 0;
}

std::string new_id(Source& s, size_t k) {
  std::string id(1, (char)('a' + s.below(26)));
  id += std::to_string(k);
  if (s.chance(1, 8)) id = "op " + id;
  if (LARGE && s.chance(1, 4)) {
    int64_t k = size(s, 8, 300);
    id = std::string((size_t)std::max<int64_t>(0, k - (int64_t)id.size()), (char)('a' + s.below(26))) + id;
  }
  return id;
}

static const std::vector<std::string> UNARY = {"Add", "Scale", "Identity", "Constant", "Count", "CumulativeSum", "MovingAverage",
                                               "FiniteImpulseResponse", "Difference", "GreaterThan", "LessThan", "EqualTo",
                                               "PeakDetector", "StandardDeviation", "AutoRegressive", "TimeShift", "Function",
                                               "ConstantResampler", "CosineResampler", "HermiteResampler",
                                               "RelativeStrengthIndex", "Power"};

static const std::vector<std::string> BINARY = {"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream",
                                                "LessThanStream"};

Node make(Source& s, const std::string& id, const std::string& type) {
  Node n;
  n.id = id;
  n.type = type;
  params(s, n);
  return n;
}

Avail pick_stream(Source& s, const std::vector<Avail>& pool, bool exact) {
  std::vector<Avail> c;
  for (auto& a : pool)
    if (!exact || a.exact) c.push_back(a);
  if (c.empty()) throw pbt::Discard{};
  if (s.chance(1, 2)) {
    size_t k = s.below(std::min<size_t>(c.size(), 3));
    return c[c.size() - 1 - k];
  }
  return c[s.below(c.size())];
}

void wire(Prog& p, std::vector<Avail>& pool, const Node& n, const std::vector<Avail>& ins,
                 const std::vector<Avail>& ctls) {
  bool ex = true;
  for (size_t i = 0; i < ins.size(); i++) {
    p.conns.push_back({ins[i].node, ins[i].port, n.id, n.ins[i]});
    ex = ex && ins[i].exact;
  }
  for (size_t i = 0; i < ctls.size(); i++) p.conns.push_back({ctls[i].node, ctls[i].port, n.id, n.ctls[i]});
  if (n.type == "Count" || n.type == "Constant") ex = true;
  if (n.type == "MovingAverage" && (n.p.n == 1 || n.p.n == 2 || n.p.n == 4))
    ;
  else if (n.type == "Power" || n.type == "AutoRegressive")
    ;  // decided dynamically
  else if (inexact(n.type))
    ex = false;
  for (size_t i = 0; i < n.outs.size(); i++)
    pool.push_back({n.id, n.outs[i], n.type == "Pipeline" ? ex && n.outsExact[i] : ex});
  p.nodes.push_back(n);
}

std::map<std::string, std::pair<std::string, std::string>> exported(const Node& n) {
  std::set<std::string> usedIn, usedOut;
  for (auto& c : n.innerConns) {
    usedOut.insert(c[0] + ":" + c[1]);
    usedIn.insert(c[2] + ":" + c[3]);
  }
  std::map<std::string, std::pair<std::string, std::string>> ins, outs, r;
  for (auto& m : n.inner) {
    for (auto& p : m.ins)
      if (!usedIn.count(m.id + ":" + p)) ins[m.id + ":" + p] = {m.id, p};
    for (auto& p : m.outs)
      if (!usedOut.count(m.id + ":" + p)) outs[m.id + ":" + p] = {m.id, p};
  }
  int k = 1;
  for (auto& [key, v] : ins) r[ref::in(k++)] = v;
  k = 1;
  for (auto& [key, v] : outs) r[ref::out(k++)] = v;
  return r;
}

void pipeline_ports(Node& n) {
  n.ins.clear();
  n.ctls.clear();
  n.outs.clear();
  int i = 0, o = 0;
  for (auto& [k, v] : exported(n)) (k[0] == 'i' ? i : o)++;
  for (int k = 1; k <= i; k++) n.ins.push_back(ref::in(k));
  for (int k = 1; k <= o; k++) n.outs.push_back(ref::out(k));
}

Node pipeline(Source& s, const std::string& id, int maxOps, int depth, bool shifts, bool openDemux) {
  Node pipe;
  pipe.id = id;
  pipe.type = "Pipeline";
  std::vector<Avail> pool;
  std::map<std::string, bool> outExact;
  int k = 10;
  bool plain = s.chance(1, 3);  // pipelines next to and inside each other use the same ids
  auto name = [&]() {
    std::string r(1, plain ? 'a' : (char)('a' + s.below(26)));
    r += std::to_string(k++);  // two digits: no id is a prefix of another one
    if (s.chance(1, 8)) r = "op:" + r;
    return r;
  };
  auto add = [&](const Node& n, bool open, const std::vector<Avail>* fixed = nullptr) {
    bool need = n.type == "Pipeline" ? n.exactIns : needs_exact(n.type);
    bool ex = true;
    for (size_t i = 0; i < n.ins.size(); i++) {
      std::vector<Avail> c;
      if (fixed)
        c = {(*fixed)[i]};
      else
        for (auto& a : pool)
          if (!need || a.exact) c.push_back(a);
      if (c.empty() || (open && s.chance(1, 3))) {
        continue;  // becomes an input of the pipeline
      }
      Avail a = c[c.size() - 1 - s.below(c.size())];
      pipe.innerConns.push_back({a.node, a.port, n.id, n.ins[i]});
      ex = ex && a.exact;
    }
    if (need) pipe.exactIns = true;
    if (n.type == "Count" || n.type == "Constant") ex = true;
    if (n.type == "MovingAverage" && (n.p.n == 1 || n.p.n == 2 || n.p.n == 4))
      ;
    else if (n.type == "Power" || n.type == "AutoRegressive")
      ;
    else if (inexact(n.type))
      ex = false;
    for (size_t i = 0; i < n.outs.size(); i++) {
      bool e = n.type == "Pipeline" ? ex && n.outsExact[i] : ex;
      pool.push_back({n.id, n.outs[i], e});
      outExact[n.id + " " + n.outs[i]] = e;
    }
    pipe.inner.push_back(n);
  };
  int ops = (int)s.range(1, maxOps);
  for (int i = 0; i < ops; i++) {
    switch (s.weighted({10, 4, 2, 1, 2, 1, depth > 0 ? 2 : 0})) {
      case 0: {
        std::string t;
        do {
          t = UNARY[s.below(UNARY.size())];
        } while (!shifts && t == "TimeShift");
        add(make(s, name(), t), true);
        break;
      }
      case 1: add(make(s, name(), BINARY[s.below(BINARY.size())]), true); break;
      case 2: add(make(s, name(), "Join"), true); break;
      case 3: {
        Node n = make(s, name(), "Linear");
        if (n.p.coeff.size() > 4) n.p.coeff.resize(3);
        set_ports(n);
        add(n, true);
        break;
      }
      case 4: {
        if (pool.empty()) {
          add(make(s, name(), "Identity"), true);
          break;
        }
        Avail c = pool[s.below(pool.size())];
        Node n = make(s, name(), "Variable");
        add(n, true);
        pipe.innerConns.push_back({c.node, c.port, n.id, "c1"});
        break;
      }
      case 5: {
        std::vector<Avail> c;
        for (auto& a : pool)
          if (a.exact) c.push_back(a);
        if (c.empty()) {
          add(make(s, name(), "Scale"), true);
          break;
        }
        std::vector<Avail> d{c[s.below(c.size())]};
        Node n = make(s, name(), "Demultiplexer");
        std::vector<Avail> ctls;
        for (int q = 0; q < n.p.n; q++) {
          add(make(s, name(), s.flip() ? "Add" : "Scale"), false, &d);
          std::vector<Avail> two{d[0], pool.back()};
          add(make(s, name(), s.flip() ? "And" : "Or"), false, &two);
          ctls.push_back(pool.back());
        }
        if (openDemux && s.chance(1, 3))
          add(n, true);  // what it distributes may come from outside
        else
          add(n, false, &d);
        for (size_t q = 0; q < ctls.size(); q++) pipe.innerConns.push_back({ctls[q].node, ctls[q].port, n.id, n.ctls[q]});
        break;
      }
      case 6: add(pipeline(s, name(), 3, depth - 1, shifts, openDemux), true); break;
    }
  }
  for (size_t i = pipe.inner.size(); i > 1; i--) std::swap(pipe.inner[i - 1], pipe.inner[i - 1 - s.below(i)]);
  for (size_t i = pipe.innerConns.size(); i > 1; i--) std::swap(pipe.innerConns[i - 1], pipe.innerConns[i - 1 - s.below(i)]);
  pipeline_ports(pipe);
  auto ex = exported(pipe);
  for (auto& o : pipe.outs) pipe.outsExact.push_back(outExact[ex[o].first + " " + ex[o].second]);
  return pipe;
}

void stretch(Node& n, int64_t f) {
  if (n.type == "TimeShift" || n.type == "ConstantResampler" || n.type == "CosineResampler" || n.type == "HermiteResampler") n.p.n *= f;
  for (auto& m : n.inner) stretch(m, f);
}

static void flatten_into(const std::vector<Node>& nodes, const std::vector<Conn>& conns, const std::string& prefix, Flat& f,
                         std::map<std::string, std::pair<std::string, std::string>>& ends) {
  // ends: "id\tport" -> flat node and port
  auto end = [&](const std::string& id, const std::string& port) -> std::pair<std::string, std::string> {
    auto it = ends.find(prefix + id + "\t" + port);
    if (it != ends.end()) return it->second;
    return {prefix + id, port};
  };
  for (auto& n : nodes) {
    if (n.type == "Pipeline") {
      std::string p2 = prefix + n.id + "/";
      flatten_into(n.inner, n.innerConns, p2, f, ends);
      for (auto& [port, at] : exported(n)) {
        std::pair<std::string, std::string> e{p2 + at.first, at.second};
        auto it = ends.find(p2 + at.first + "\t" + at.second);
        if (it != ends.end()) e = it->second;
        ends[prefix + n.id + "\t" + port] = e;
        if (port[0] == 'o') f.outs[{prefix + n.id, port}] = e;
      }
    } else {
      Node m = n;
      m.id = prefix + n.id;
      f.p.nodes.push_back(m);
    }
  }
  for (auto& c : conns) {
    auto a = end(c[0], c[1]), b = end(c[2], c[3]);
    f.p.conns.push_back({a.first, a.second, b.first, b.second});
  }
}

Flat flatten(const Prog& p) {
  Flat f;
  std::map<std::string, std::pair<std::string, std::string>> ends;
  flatten_into(p.nodes, p.conns, "", f, ends);
  f.p.entry = p.entry;
  f.p.large = p.large;
  const Node& e = p.node(p.entry);
  if (e.type == "Pipeline")
    for (auto& port : e.ins) f.p.entryMap[port] = ends.at(e.id + "\t" + port);
  return f;
}

Interpreter::Interpreter(const Prog& p) : flat(flatten(p)) {
  order = topo(flat.p);
  for (auto& n : flat.p.nodes)
    if (n.type == "HermiteResampler") hermite = true;
  for (auto& n : p.nodes) {
    ids.push_back(n.id);
    if (n.type == "Pipeline") pipes.push_back({n.id, n.outs});
  }
}

Trace Interpreter::run(const Ports& entry, bool alt) const {
  Trace t = interpret(flat.p, order, entry, alt);
  for (auto& [id, outs] : pipes) {
    t.out[id];
    t.exact[id] = true;
    for (auto& o : outs) {
      auto& e = flat.outs.at({id, o});
      t.out[id][o] = ref::port(t.out[e.first], e.second);
      t.mag[id] = std::max(t.mag[id], t.mag[e.first]);
      t.exact[id] = t.exact[id] && t.exact[e.first];
    }
  }
  return t;
}

void add_op(Source& s, Prog& p, std::vector<Avail>& pool, size_t& k, const Options& opt) {
  switch (opt.aligned ? s.weighted({6, 3, 1, 1}) : s.weighted({10, 4, 2, 2, 2, 2, opt.pipelines ? opt.pipelineWeight : 0})) {
    case 0: {
      std::string t;
      do {
        t = UNARY[s.below(UNARY.size())];
      } while ((!opt.shifts && t == "TimeShift") || (opt.documented && t == "RelativeStrengthIndex") ||
               (opt.aligned && (t == "GreaterThan" || t == "LessThan" || t == "EqualTo" || t == "PeakDetector" || t == "TimeShift" ||
                                t == "ConstantResampler" || t == "CosineResampler" || t == "HermiteResampler")));
      Node n = make(s, new_id(s, k++), t);
      wire(p, pool, n, {pick_stream(s, pool, needs_exact(t))});
      break;
    }
    case 1: {
      std::string t;
      do {
        t = BINARY[s.below(BINARY.size())];
      } while (opt.aligned && (t == "Division" || t == "GreaterThanStream" || t == "LessThanStream"));
      Node n = make(s, new_id(s, k++), t);
      auto a = pick_stream(s, pool, needs_exact(t));
      auto b = pick_stream(s, pool, needs_exact(t));
      wire(p, pool, n, {a, b});
      break;
    }
    case 2: {
      Node n = make(s, new_id(s, k++), "Join");
      std::vector<Avail> ins;
      for (int i = 0; i < n.p.n; i++) ins.push_back(pick_stream(s, pool, false));
      size_t at = pool.size();
      wire(p, pool, n, ins);
      for (size_t i = 0; i < ins.size(); i++) pool[at + i].exact = ins[i].exact;
      break;
    }
    case 3: {
      Node n = make(s, new_id(s, k++), "Linear");
      std::vector<Avail> ins;
      for (size_t i = 0; i < n.p.coeff.size(); i++) ins.push_back(pick_stream(s, pool, false));
      wire(p, pool, n, ins);
      break;
    }
    case 4: {
      Node n = make(s, new_id(s, k++), "Variable");
      auto a = pick_stream(s, pool, false);
      auto c = pick_stream(s, pool, false);
      wire(p, pool, n, {a}, {c});
      break;
    }
    case 5: {
      // a demultiplexer needs one 0/1 control message per data message: derive them from the data itself
      auto d = pick_stream(s, pool, true);
      Node n = make(s, new_id(s, k++), "Demultiplexer");
      std::vector<Avail> ctls;
      for (int i = 0; i < n.p.n; i++) {
        Node a = make(s, new_id(s, k++), s.flip() ? "Add" : "Scale");
        wire(p, pool, a, {d});
        Avail as = pool.back();
        Node b = make(s, new_id(s, k++), s.flip() ? "And" : "Or");
        wire(p, pool, b, {d, as});
        ctls.push_back(pool.back());
      }
      Avail data = d;
      if (s.chance(1, 3)) {
        Node a = make(s, new_id(s, k++), "Scale");
        wire(p, pool, a, {d});
        data = pool.back();
      }
      wire(p, pool, n, {data}, ctls);
      break;
    }
    case 6: {
      Node n = pipeline(s, new_id(s, k++), opt.pipelineOps, opt.pipelineDepth, opt.shifts, opt.openDemux);
      std::vector<Avail> ins;
      for (size_t i = 0; i < n.ins.size(); i++) ins.push_back(pick_stream(s, pool, n.exactIns));
      wire(p, pool, n, ins);
      break;
    }
  }
}

void shuffle_nodes(Source& s, Prog& p) {
  for (size_t i = p.nodes.size(); i > 1; i--) std::swap(p.nodes[i - 1], p.nodes[i - 1 - s.below(i)]);
  for (size_t i = p.conns.size(); i > 1; i--) std::swap(p.conns[i - 1], p.conns[i - 1 - s.below(i)]);
}

void random_output(Source& s, Prog& p) {
  p.hasOutput = s.chance(3, 4);
  p.output.clear();
  if (!p.hasOutput) return;
  for (auto& n : p.nodes) {
    if (s.chance(1, 2)) continue;
    std::vector<std::string> ports;
    for (auto& o : n.outs)
      if (s.chance(2, 3)) ports.push_back(o);
    if (s.chance(1, 10)) ports.push_back("o77");  // a port nobody has selects nothing
    if (!ports.empty()) p.output[n.id] = ports;
  }
  if (p.output.empty()) p.hasOutput = false;
}

Prog program(Source& s, const Options& o) {
  Options opt = o;
  if (opt.documented) opt.pipelines = opt.pipelineEntry = false;
  Prog p;
  p.large = opt.large && s.chance(1, 16);
  Large scope(p.large);
  std::vector<Avail> pool;
  size_t k = 0;
  Node e;
  if (opt.otherEntry && (opt.pipelineEntry ? s.chance(1, 3) : s.chance(1, 8))) {
    std::string t = s.flip() ? UNARY[s.below(UNARY.size())] : s.flip() ? std::string("Join") : BINARY[s.below(BINARY.size())];
    if (!opt.shifts && t == "TimeShift") t = "Add";
    if (opt.documented && t == "RelativeStrengthIndex") t = "MovingAverage";
    if (opt.pipelines && (opt.pipelineEntry ? s.chance(3, 4) : s.chance(1, 3)))
      e = pipeline(s, new_id(s, k++), opt.pipelineOps, opt.pipelineDepth, opt.shifts, opt.openDemux);
    else
      e = make(s, new_id(s, k++), t);
  } else
    e = make(s, new_id(s, k++), "Input");
  bool ex = !inexact(e.type);
  for (size_t i = 0; i < e.outs.size(); i++) pool.push_back({e.id, e.outs[i], e.type == "Pipeline" ? (bool)e.outsExact[i] : ex});
  p.entry = e.id;
  p.nodes.push_back(e);
  int ops = (int)s.range(opt.minOps, p.large && s.flip() ? 3 * opt.maxOps : opt.maxOps);
  for (int i = 0; i < ops; i++) add_op(s, p, pool, k, opt);
  if (s.chance(2, 3)) {
    Node o = make(s, new_id(s, k++), "Output");
    std::vector<Avail> ins;
    for (int i = 0; i < o.p.n; i++) ins.push_back(pick_stream(s, pool, false));
    wire(p, pool, o, ins);
  }
  if (opt.documented)
    for (auto& n : p.nodes)
      if (n.type == "TimeShift") n.p.n = std::max<int64_t>(n.p.n, 1);
  p.scale = time_scale(s);
  for (auto& n : p.nodes) stretch(n, p.scale);
  shuffle_nodes(s, p);
  random_output(s, p);
  return p;
}

std::vector<Event> history(Source& s, const Prog& p, int maxSteps, bool disorder, bool aligned) {
  const Node& e = p.node(p.entry);
  int np = (int)e.ins.size();
  if (p.large && s.flip()) maxSteps = std::max(maxSteps, 400 / std::max(1, np));
  int steps = (int)s.range(1, maxSteps);
  int64_t t = origin(s);
  std::vector<Stream> per(np);
  bool tight = aligned || s.flip();
  for (int i = 0; i < steps; i++) {
    for (int k = 0; k < np; k++)
      if (np == 1 || tight || s.chance(3, 4)) per[k].push_back({t, value(s)});
    t += gap(s) * p.scale;
  }
  std::vector<Event> ev;
  std::vector<size_t> at(np, 0);
  bool inOrder = aligned || s.chance(2, 3);
  while (true) {
    std::vector<int> c;
    for (int k = 0; k < np; k++)
      if (at[k] < per[k].size()) c.push_back(k);
    if (c.empty()) break;
    int k = c[0];
    if (c.size() > 1) {
      if (inOrder) {
        for (int q : c)
          if (per[q][at[q]].t < per[k][at[k]].t) k = q;
      } else
        k = c[s.below(c.size())];
    }
    ev.push_back({e.ins[k], per[k][at[k]]});
    at[k]++;
    if (disorder && e.type == "Input" && s.chance(1, 12)) {
      int64_t back = s.range(0, 5) * p.scale;
      ev.push_back({e.ins[k], {std::max<int64_t>(0, per[k][at[k] - 1].t - back), value(s)}});
    }
  }
  return ev;
}

bool dyadic(double v) {
  if (!(std::fabs(v) <= 67108864.0)) return false;
  double k = v * 8192.0;
  return k == std::floor(k);
}

std::vector<const Node*> topo(const Prog& p) {
  std::vector<const Node*> order;
  std::set<std::string> done;
  while (order.size() < p.nodes.size()) {
    bool any = false;
    for (auto& n : p.nodes) {
      if (done.count(n.id)) continue;
      bool ready = true;
      for (auto& c : p.conns)
        if (c[2] == n.id && !done.count(c[0])) ready = false;
      if (ready) {
        order.push_back(&n);
        done.insert(n.id);
        any = true;
      }
    }
    if (!any) throw std::runtime_error("gen: cyclic program");
  }
  return order;
}

Trace interpret(const Prog& p, const std::vector<const Node*>& order, const Ports& entry, bool altHermite) {
  Trace tr;
  for (auto* n : order) {
    Ports ins;
    double mag = 0;
    bool exact = true;
    if (n->id == p.entry) ins = entry;
    for (auto& [port, at] : p.entryMap)
      if (at.first == n->id) ins[at.second] = ref::port(entry, port);
    for (auto& c : p.conns)
      if (c[2] == n->id) {
        ins[c[3]] = ref::port(tr.out[c[0]], c[1]);
        mag = std::max(mag, tr.mag[c[0]]);
        exact = exact && tr.exact[c[0]];
      }
    static const std::set<std::string> ANY_TIME = {"Input", "Output", "Add", "Scale", "Power", "Identity", "Constant", "TimeShift",
                                                   "GreaterThan", "LessThan", "EqualTo", "Function"};
    if (!ANY_TIME.count(n->type))
      for (auto& [k, st] : ins)
        for (size_t i = 1; i < st.size(); i++)
          if (st[i].t <= st[i - 1].t) throw pbt::Discard{};  // a shift cut off at zero: no increasing stream any more
    for (auto& [k, st] : ins)
      for (auto& m : st) {
        mag = std::max(mag, std::fabs(m.v));
        if (exact && !dyadic(m.v)) exact = false;
      }
    if (needs_exact(n->type) && !exact) throw pbt::Discard{};
    Params prm = n->p;
    if (n->type == "HermiteResampler") prm.oldest = altHermite;
    Ports o;
    try {
      o = ref::eval(n->type, prm, ins);
    } catch (const ref::Undefined&) {
      throw pbt::Discard{};
    }
    double gain = 1;
    if (n->type == "Linear" || n->type == "FiniteImpulseResponse")
      for (auto x : n->p.coeff) gain += std::fabs(x);
    if (n->type == "Scale") gain = std::max(1.0, std::fabs(n->p.value));
    if (n->type == "Multiplication") gain = std::max(1.0, mag);
    if (n->type == "Function" && !n->p.points.empty()) {
      double w = 1e300, h = 1;
      auto pts = n->p.points;
      std::sort(pts.begin(), pts.end());
      for (size_t i = 0; i + 1 < pts.size(); i++) w = std::min(w, pts[i + 1].first - pts[i].first);
      for (auto& q : pts) h = std::max({h, std::fabs(q.second), std::fabs(q.second) / w});
      double u = 1 + (mag + std::fabs(pts[0].first) + std::fabs(pts.back().first)) / w;
      gain = 8 * h * (n->p.hermite ? u * u * u : u) / std::max(1.0, mag);
      gain = std::max(gain, 1.0);
    }
    mag *= gain;
    size_t total = 0;
    for (auto& [k, st] : o) {
      total += st.size();
      for (auto& m : st) {
        mag = std::max(mag, std::fabs(m.v));
        if (!dyadic(m.v)) exact = false;
      }
    }
    if (total > (p.large ? 20000 : 4000) || mag > 1e60) throw pbt::Discard{};
    if (n->type == "CosineResampler" || n->type == "HermiteResampler" || n->type == "Function" ||
        n->type == "RelativeStrengthIndex" || n->type == "StandardDeviation")
      exact = false;
    if (n->type == "Count" || n->type == "Constant") {
      exact = true;
      mag = 1;
      for (auto& [k, st] : o)
        for (auto& m : st) mag = std::max(mag, std::fabs(m.v));
    }
    tr.out[n->id] = o;
    tr.mag[n->id] = mag;
    tr.exact[n->id] = exact;
  }
  return tr;
}

std::string show(const Stream& st, size_t from) {
  std::ostringstream o;
  o.precision(12);
  o << "[";
  for (size_t i = from; i < st.size(); i++) o << (i > from ? " " : "") << "(" << st[i].t << "," << st[i].v << ")";
  o << "]";
  return o.str();
}

bool same_value(double a, double b, bool exact, double mag) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  if (exact) return false;
  return std::fabs(a - b) <= 1e-9 * std::max(1.0, mag);
}

bool same_stream(const Stream& a, const Stream& b, bool exact, double mag) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].t != b[i].t || !same_value(a[i].v, b[i].v, exact, mag)) return false;
  return true;
}

void show_events(std::ostream& o, const std::vector<Event>& ev) {
  for (auto& e : ev) o << " " << e.port << "(" << e.m.t << "," << e.m.v << ")";
}

}  // namespace gen
