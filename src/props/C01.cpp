#define WITH_Input
#include "../op.h"
// Input gate: arbitrary (also unordered) times on every port against "strictly newer than the last forwarded".
template <class T>
static void run(pbt::Source& s, pbt::Ctx& c, bool negative) {
  gen::Node n = {"in", "Input"};
  n.p.n = s.weighted({3, 2, 2, 1}) == 3 ? s.range(4, 12) : s.range(1, 3);
  gen::set_ports(n);
  bool many = s.chance(1, 100);  // also long runs of messages that have to be dropped
  int len = many ? (int)s.range(500, 3000) : (int)s.range(1, 40 * s.sizeFactor);
  int late = many ? (int)s.oneof({2, 40}) : 1;
  int64_t base = s.oneof<int64_t>({0, 5, 1000, 1600000000000ll});
  if (negative) base -= s.range(0, 20);
  int64_t scale = gen::time_scale(s);
  std::vector<gen::Event> ev;
  std::map<std::string, int64_t> newest;
  int dropped = 0;
  std::map<std::string, int> runDropped;
  for (int i = 0; i < len; i++) {
    std::string port = n.ins[s.below(n.ins.size())];
    int64_t t;
    if (!newest.count(port))
      t = base + s.range(0, 5);
    else
      switch (s.weighted({4, 2 * late, 3 * late, 1})) {
        case 0: t = newest[port] + s.range(1, 4) * scale; break;
        case 1: t = newest[port]; break;
        case 2: t = newest[port] - s.range(0, 6) * scale; break;
        default: t = s.flip() ? newest[port] + s.range(1, 1000000) * std::min<int64_t>(scale, 1000000) : base; break;
      }
    if (!negative && t < 0) t = 0;
    bool fresh = !newest.count(port) || t > newest[port];
    if (fresh) {
      newest[port] = t;
      if (runDropped[port]) c.mark();
      runDropped[port] = 0;
    } else {
      dropped++;
      runDropped[port]++;
    }
    ev.push_back({port, {t, op::any_value(s)}});
  }
  if (dropped) c.label("dropped something");
  if (n.p.n > 1) c.label("several ports");
  if (many) {
    c.label("long history");
    op::check_long<T>(c, n, ev, op::exact);
  } else
    op::check<T>(c, n, ev, op::exact);
}

// the whole range of an unsigned time
static void unsigned_times(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"in", "Input"};
  n.p.n = s.range(1, 2);
  gen::set_ports(n);
  op::Probe<uint64_t> probe(n);
  std::map<std::string, uint64_t> newest;
  std::vector<gen::Event> ev;
  std::vector<bool> pass;
  int len = (int)s.range(2, 30 * s.sizeFactor), forwarded = 0;
  for (int i = 0; i < len; i++) {
    std::string port = n.ins[s.below(n.ins.size())];
    uint64_t t = s.oneof<uint64_t>({0, 1, (1ull << 31), (1ull << 32), (1ull << 53), (1ull << 63) - 1, (1ull << 63), ~0ull - 1, ~0ull}) +
                 (s.flip() ? s.below(4) : 0);
    if (newest.count(port) && s.flip()) t = newest[port] + s.range(-2, 2);
    pass.push_back(!newest.count(port) || t > newest[port]);
    if (pass.back()) newest[port] = t, forwarded++;
    ev.push_back({port, {(int64_t)t, gen::value(s)}});
  }
  c.log([&](std::ostream& o) {
    o << "unsigned times";
    for (auto& e : ev) o << " " << e.port << "(" << (uint64_t)e.m.t << "," << e.m.v << ")";
  });
  for (int i = 0; i < len; i++) {
    auto r = probe.feed(c, ev[i].port, ev[i].m);
    std::string out = "o" + ev[i].port.substr(1);
    size_t got = 0;
    for (auto& [k, ms] : r) got += ms.size();
    bool same = got == (pass[i] ? 1 : 0) && (!pass[i] || (ref::port(r, out).size() == 1 && ref::port(r, out)[0].t == ev[i].m.t && ref::port(r, out)[0].v == ev[i].m.v));
    if (!same) c.fail("message " + std::to_string(i + 1) + (pass[i] ? " was not forwarded" : " was forwarded although it is not newer than the last one"));
  }
  c.label("unsigned times");
  if (forwarded >= 2 && forwarded < len) c.mark();
}
static void prop(pbt::Source& s, pbt::Ctx& c) {
  if (s.chance(1, 10)) return unsigned_times(s, c);
  if (s.chance(1, 4)) {
    c.label("signed time");
    run<int64_t>(s, c, true);
  } else
    run<uint64_t>(s, c, false);
}
PBT_MAIN("C01", prop, 60000, 2000000, "a message was forwarded on a port after at least one had been dropped there")
