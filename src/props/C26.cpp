#define WITH_Identity
#define WITH_Input
#define WITH_Variable
#define WITH_Join
#include "../op.h"

using Ms = std::vector<std::pair<int64_t, double>>;

template <class T>
struct Emitter : public rtbot::Operator<T, double> {
  Emitter(const std::string& id, const std::vector<std::string>& outs, const std::vector<std::string>& ins) : rtbot::Operator<T, double>(id) {
    for (auto& o : outs) this->addOutput(o);
    for (auto& i : ins) this->addDataInput(i);
  }
  std::string typeName() const override { return "Emitter"; }
  rtbot::OperatorMessage<T, double> processData() override { return {}; }
};

// records what reaches its ports and what it is asked to process
template <class T>
struct Collector : public rtbot::Operator<T, double> {
  std::map<std::string, Ms> got, pending;
  std::string wrong;
  Collector(const std::string& id, const std::vector<std::string>& data, const std::vector<std::string>& control) : rtbot::Operator<T, double>(id) {
    for (auto& i : data) this->addDataInput(i);
    for (auto& i : control) this->addControlInput(i);
    this->addOutput("o1");
  }
  std::string typeName() const override { return "Collector"; }
  rtbot::OperatorMessage<T, double> processData() override { return {}; }
  void take(const rtbot::Message<T, double>& m, const std::string& port) { pending[port].push_back({(int64_t)m.time, m.value}); }
  rtbot::ProgramMessage<T, double> process(bool control) {
    rtbot::PortMessage<T, double> out;
    for (auto& [port, ms] : pending) {
      if (this->isControlInput(port) != control) continue;
      for (auto& m : ms) {
        got[port].push_back(m);
        out.push_back(rtbot::Message<T, double>((T)m.first, m.second));
      }
      ms.clear();
    }
    if (out.empty()) return {};
    rtbot::OperatorMessage<T, double> om;
    om.emplace("o1", out);
    return this->emit(om);
  }
  void receiveData(rtbot::Message<T, double> m, std::string port) override {
    if (!this->isDataInput(port)) wrong = "a data message for the port " + port;
    take(m, port);
  }
  void receiveControl(rtbot::Message<T, double> m, std::string port) override {
    if (!this->isControlInput(port)) wrong = "a control message for the port " + port;
    take(m, port);
  }
  rtbot::ProgramMessage<T, double> executeData() override { return process(false); }
  rtbot::ProgramMessage<T, double> executeControl() override { return process(true); }
};

static std::string show(const Ms& ms) {
  std::ostringstream o;
  for (auto& m : ms) o << "(" << m.first << "," << m.second << ")";
  return o.str();
}

template <class T>
static void run(pbt::Source& s, pbt::Ctx& c) {
  std::vector<std::string> outs, srcIns;
  bool large = s.chance(1, 40);
  int k = (int)s.range(0, large ? 13 : 3);
  for (int i = 1; i <= k + (s.chance(4, 5) && !k ? 1 : 0); i++) outs.push_back(s.chance(1, 8) ? "out " + std::to_string(i) : ref::out(i));
  if (s.flip()) srcIns = {"i1"};
  Emitter<T> src("src", outs, srcIns);
  struct Target {
    std::unique_ptr<Collector<T>> op;
    std::vector<std::string> data, control;
    std::unique_ptr<rtbot::Identity<T, double>> behind;  // a real operator behind the collector
    std::unique_ptr<op::Sink<T>> end;
    std::map<std::string, std::map<std::string, Ms>> want;  // port -> source port -> messages
    std::map<std::string, size_t> total;
  };
  std::vector<Target> targets((size_t)s.range(1, large ? 40 : 4));
  for (size_t i = 0; i < targets.size(); i++) {
    auto& t = targets[i];
    int d = (int)s.range(0, large ? 12 : 3), q = (int)s.range(0, large ? 12 : 2);
    if (d == 0 && q == 1) d = 1;  // a single control port: whether it can be left out is not specified
    for (int j = 1; j <= d; j++) t.data.push_back(ref::in(j));
    for (int j = 1; j <= q; j++) t.control.push_back("c" + std::to_string(j));
    t.op = std::make_unique<Collector<T>>("t" + std::to_string(i), t.data, t.control);
    t.behind = std::make_unique<rtbot::Identity<T, double>>("b" + std::to_string(i));
    t.end = std::make_unique<op::Sink<T>>("e" + std::to_string(i));
    t.op->connect(t.behind.get());
    t.behind->connect(*t.end);
    c.log([&](std::ostream& o) {
      o << "target " << i << " has";
      for (auto& p : t.data) o << " " << p;
      for (auto& p : t.control) o << " " << p;
      o << "\n";
    });
  }
  c.log([&](std::ostream& o) {
    o << "source has";
    for (auto& p : outs) o << " \"" << p << "\"";
    o << "\n";
  });
  struct Conn {
    std::string from;
    size_t target;
    std::string to;
  };
  std::vector<Conn> conns;
  double tag = 1;
  int64_t time = s.oneof<int64_t>({0, 1000});
  size_t refused = 0, defaults = 0, delivered = 0, fan = 0, controls = 0;
  int steps = (int)s.range(2, (large ? 80 : 25) * s.sizeFactor);
  for (int step = 0; step < steps; step++) {
    std::string at = "step " + std::to_string(step + 1) + ": ";
    if (s.chance(1, 2)) {  // connect
      size_t ti = s.below(targets.size());
      Target& t = targets[ti];
      std::vector<std::string> ins = t.data;
      ins.insert(ins.end(), t.control.begin(), t.control.end());
      std::string from, to;
      int f = (int)s.below(6), g = (int)s.below(6);
      if (f == 0 || (f == 1 && outs.size() == 1)) from = "";
      else if (f == 1) from = s.oneof<const char*>({"o9", "i1", "o", "O1", "o1 "});
      else if (!outs.empty()) from = outs[s.below(outs.size())];
      if (g == 0 || (g == 1 && ins.size() == 1)) to = "";
      else if (g == 1) to = s.oneof<const char*>({"i9", "o1", "c9", "i", "I1", "1"});
      else if (!ins.empty()) to = ins[s.below(ins.size())];
      std::string rf = from, rt = to;
      if (rf.empty() && outs.size() == 1) rf = outs[0], defaults++;
      if (rt.empty() && ins.size() == 1) rt = ins[0], defaults++;
      bool ok = std::find(outs.begin(), outs.end(), rf) != outs.end() && std::find(ins.begin(), ins.end(), rt) != ins.end();
      c.log([&](std::ostream& o) { o << step + 1 << ": connect \"" << from << "\" to target " << ti << " \"" << to << "\"" << (ok ? "" : " (refused)") << "\n"; });
      rtbot::Operator<T, double>* r = nullptr;
      bool threw = false;
      try {
        bool byRef = s.flip();
        if (from.empty() && to.empty() && s.flip())
          r = byRef ? src.connect(*t.op) : src.connect(t.op.get());
        else if (to.empty() && s.flip())
          r = byRef ? src.connect(*t.op, from) : src.connect(t.op.get(), from);
        else
          r = byRef ? src.connect(*t.op, from, to) : src.connect(t.op.get(), from, to);
      } catch (const std::exception&) {
        threw = true;
      }
      if (ok) {
        c.require(!threw && r == t.op.get(), at + "a valid connection was " + (threw ? "refused" : "not answered with the child"));
        conns.push_back({rf, ti, rt});
      } else {
        c.require(threw || !r, at + "a connection with a port that does not exist or cannot be deduced was accepted");
        refused++;
      }
      continue;
    }
    // emit
    if (outs.empty()) continue;
    std::map<std::string, Ms> sent;
    rtbot::ProgramMessage<T, double> out;
    auto fresh = [&]() {
      time += s.range(1, 3);
      tag += 1;
      return rtbot::Message<T, double>((T)time, s.chance(1, 8) ? -tag : tag);
    };
    auto note = [&](const std::string& port, const rtbot::Message<T, double>& m) { sent[port].push_back({(int64_t)m.time, m.value}); };
    switch (s.below(5)) {
      case 0: {  // one message on all ports
        auto m = fresh();
        for (auto& o : outs) note(o, m);
        out = src.emit(m);
        break;
      }
      case 1: {  // one message on some ports
        auto m = fresh();
        std::vector<std::string> to;
        for (auto& o : outs)
          if (s.flip()) to.push_back(o);
        if (to.empty()) to.push_back(outs[0]);
        for (auto& o : to) note(o, m);
        out = src.emit(m, to);
        break;
      }
      case 2: {  // several messages on one port
        rtbot::PortMessage<T, double> ms;
        int n = (int)s.range(0, large ? 400 : 4);
        std::string port = outs[s.below(outs.size())];
        for (int i = 0; i < n; i++) {
          ms.push_back(fresh());
          note(port, ms.back());
        }
        out = src.emit(ms, {port});
        break;
      }
      default: {  // different messages on different ports
        rtbot::OperatorMessage<T, double> om;
        for (auto& o : outs) {
          int n = (int)s.range(0, large ? 40 : 3);
          rtbot::PortMessage<T, double> ms;
          for (int i = 0; i < n; i++) {
            ms.push_back(fresh());
            note(o, ms.back());
          }
          if (n || s.flip()) om.emplace(o, ms);
        }
        out = src.emit(om);
      }
    }
    c.log([&](std::ostream& o) {
      o << step + 1 << ": emit";
      for (auto& [p, ms] : sent) o << " " << p << show(ms);
      o << "\n";
    });
    for (auto& q : conns)
      if (sent.count(q.from)) {
        auto& w = targets[q.target].want[q.to][q.from];
        (void)w;
      }
    // what the emission reports about the source itself
    std::map<std::string, Ms> said;
    if (out.count("src"))
      for (auto& [p, ms] : out["src"])
        for (auto& m : ms) said[p].push_back({(int64_t)m.time, m.value});
    for (auto& p : outs)
      if (said[p] != sent[p]) c.fail(at + "the emission reports " + show(said[p]) + " for port " + p + ", emitted was " + show(sent[p]));
    // arrivals: every connection once, in order
    for (size_t ti = 0; ti < targets.size(); ti++) {
      auto& t = targets[ti];
      c.require(t.op->wrong.empty(), at + "target " + std::to_string(ti) + " got " + t.op->wrong);
      std::vector<std::string> ins = t.data;
      ins.insert(ins.end(), t.control.begin(), t.control.end());
      size_t arrived = 0;
      for (auto& p : ins) {
        c.require(t.op->pending[p].empty(), at + "target " + std::to_string(ti) + " was not asked to process what it received on " + p);
        Ms got = t.op->got[p];
        t.op->got[p].clear();
        arrived += got.size();
        // one queue per connection; the arrivals have to be an interleaving of them
        std::vector<Ms> q;
        size_t total = 0;
        for (auto& k : conns)
          if (k.target == ti && k.to == p && sent.count(k.from)) {
            q.push_back(sent[k.from]);
            total += q.back().size();
          }
        delivered += total;
        if (total && std::find(t.control.begin(), t.control.end(), p) != t.control.end()) controls++;
        bool ok = got.size() == total;
        // the same message emitted on several ports, or connected twice: any of the queues will do, they hold distinct
        // messages in increasing time otherwise
        std::vector<size_t> head(q.size(), 0);
        for (auto& m : got) {
          bool found = false;
          // prefer the queue that is furthest behind
          size_t best = q.size();
          for (size_t x = 0; x < q.size(); x++)
            if (head[x] < q[x].size() && q[x][head[x]] == m && (best == q.size() || head[x] < head[best])) best = x;
          if (best < q.size()) {
            head[best]++;
            found = true;
          }
          ok = ok && found;
        }
        if (!ok) {
          std::string w;
          for (auto& x : q) w += " " + show(x);
          c.fail(at + "target " + std::to_string(ti) + " port " + p + " received " + show(got) + ", its connections should deliver" + w);
        }
      }
      // and what the target emits in turn passes through the operators behind it
      if (t.end->got.size() != arrived)
        c.fail(at + "behind target " + std::to_string(ti) + " arrived " + std::to_string(t.end->got.size()) + " of " + std::to_string(arrived) + " messages");
      size_t reported = 0;
      if (out.count(t.behind->id))
        for (auto& m : out[t.behind->id]["o1"]) (void)m, reported++;
      c.require(reported == arrived, at + "the emission reports " + std::to_string(reported) + " of " + std::to_string(arrived) + " messages of operator " + t.behind->id);
      t.end->got.clear();
    }
    std::map<std::string, int> per;
    for (auto& k : conns)
      if (++per[k.from] > 1) fan++;
  }
  if (large) c.label("large");
  if (refused) c.label("refused connection");
  if (defaults) c.label("ports left out");
  if (fan) c.label("several connections of one port");
  if (controls) c.label("control port");
  if (delivered >= 3 && conns.size() >= 2) c.mark();
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  if (s.chance(1, 4))
    run<int64_t>(s, c);
  else
    run<uint64_t>(s, c);
}
PBT_MAIN("C26", prop, 80000, 4000000, "at least three deliveries over at least two connections")
