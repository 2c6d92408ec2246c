#include "../api.h"
#include "../comp.h"

using namespace api;

using Call = std::function<PM(const Event&)>;

static void only_times_move(pbt::Ctx& c, const std::string& at, const Outcome& base, const Outcome& moved, int64_t d) {
  Outcome want = base;
  for (auto& [id, om] : want.out)
    for (auto& [p, ms] : om)
      for (auto& m : ms) m.time = (uint64_t)((int64_t)m.time + d);
  if (!same(want, moved))
    c.fail(at + "with all times moved by " + std::to_string(d) + ": " + show(moved) + " instead of " + show(want));
}

// order and causality of what one run emits
struct Watch {
  std::map<std::pair<std::string, std::string>, uint64_t> last;
  uint64_t newest = 0;
  bool causal = true;
  size_t emitted = 0;
  std::set<std::pair<std::string, std::string>> ports;
  void input(const ref::Msg& m) { newest = std::max(newest, (uint64_t)m.t); }
  void output(pbt::Ctx& c, const std::string& at, const PM& r, bool& clamped) {
    for (auto& [id, om] : r)
      for (auto& [p, ms] : om)
        for (auto& m : ms) {
          emitted++;
          ports.insert({id, p});
          if (m.time == 0) {
            clamped = true;
            return;
          }
          auto k = std::make_pair(id, p);
          auto it = last.find(k);
          if (it != last.end() && m.time <= it->second)
            c.fail(at + "operator " + id + " port " + p + " emitted time " + std::to_string(m.time) + " after " + std::to_string(it->second));
          last[k] = m.time;
          if (causal && m.time > newest)
            c.fail(at + "operator " + id + " port " + p + " emitted time " + std::to_string(m.time) + ", the newest message so far is of " +
                   std::to_string(newest));
        }
  }
};

static int64_t offset(pbt::Source& s) {
  return s.oneof<int64_t>({1, 7, 1000, 999983, 86400000, 1600000000000ll, 1ll << 40, (1ll << 53) - 5000000000001ll, 1ll << 53, (1ll << 53) + 1,
                           1600000000000000000ll, (1ll << 62) - 123456});
}

static bool shifts(const std::vector<gen::Node>& ns) {
  for (auto& n : ns)
    if (n.type == "TimeShift" || shifts(n.inner)) return true;
  return false;
}
// far enough from zero for no shift to be cut off (a pipeline does not show whether that happened inside)
static void away_from_zero(const gen::Prog& p, std::vector<Event>& ev) {
  if (shifts(p.nodes))
    for (auto& e : ev) e.m.t += 1000 * p.scale;
}

static void native(pbt::Source& s, pbt::Ctx& c) {
  std::string out;
  bool bits;
  gen::Prog p = comp::program(s, 5 * s.sizeFactor, out, bits);
  auto ev = comp::history(s, p, 30 * s.sizeFactor, bits);
  away_from_zero(p, ev);
  int64_t d = offset(s);
  bool composite = s.flip();
  c.log([&](std::ostream& o) {
    o.precision(17);
    for (auto& n : p.nodes) o << gen::node_text(n) << (n.type == "Difference" ? (n.p.oldest ? " newest time" : " previous time") : "") << "\n";
    for (auto& k : p.conns) o << k[0] << ":" << k[1] << " -> " << k[2] << ":" << k[3] << "\n";
    gen::show_events(o, ev);
    o << " moved by " << d;
  });
  auto build = [&]() { return composite ? comp::composite(p, out, false, nullptr) : comp::manual(p, out); };
  auto a = build(), b = build();
  Watch w;
  w.causal = !shifts(p.nodes);
  bool clamped = false, several = false;
  std::map<std::string, int64_t> last;
  for (auto& e : ev) {
    if (last.count(e.port) && e.m.t <= last[e.port]) c.discard();
    last[e.port] = e.m.t;
  }
  for (size_t k = 0; k < ev.size(); k++) {
    std::string at = "message " + std::to_string(k + 1) + ": ";
    w.input(ev[k].m);
    Outcome x = attempt([&] { return a->feed(ev[k].port, ev[k].m); });
    Outcome y = attempt([&] { return b->feed(ev[k].port, {ev[k].m.t + d, ev[k].m.v}); });
    w.output(c, at, x.out, clamped);
    if (clamped) break;
    only_times_move(c, at, x, y, d);
    if (x.threw) break;
    several = several || count(x.out) > 2;
  }
  c.label(composite ? "composite" : "operators outside of a program");
  if (w.causal) c.label("causality checked");
  if (w.emitted >= 5 && ev.size() >= 4) c.mark();
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  if (s.chance(1, 5)) return native(s, c);
  gen::Options opt;
  opt.maxOps = 8 + 3 * (s.sizeFactor - 1);
  opt.pipelines = s.chance(1, 3);
  opt.shifts = s.chance(1, 3);
  gen::Prog p = gen::program(s, opt);
  std::string def = gen::prog_json(p, &s).dump();
  auto ev = gen::history(s, p, 40 * s.sizeFactor, false);
  away_from_zero(p, ev);
  int64_t d = offset(s);
  size_t cut = s.below(ev.size() + 1);
  log_case(c, def, {ev});
  c.log([&](std::ostream& o) { o << "moved by " << d << ", prefix of " << cut; });
  Program a(def), b(def), whole(def), prefix(def);
  Watch w;
  w.causal = !shifts(p.nodes);
  bool clamped = false, threw = false;
  for (size_t k = 0; k < ev.size(); k++) {
    std::string at = "message " + std::to_string(k + 1) + ": ";
    w.input(ev[k].m);
    OM om = message({ev[k]});
    OM later = message({{ev[k].port, {ev[k].m.t + d, ev[k].m.v}}});
    Outcome x = attempt([&] { return a.receiveDebug(om); });
    Outcome y = attempt([&] { return b.receiveDebug(later); });
    w.output(c, at, x.out, clamped);
    if (clamped) break;
    only_times_move(c, at, x, y, d);
    if (x.threw) {
      threw = true;
      break;
    }
  }
  // a longer history only adds to what a prefix of it yields
  if (!threw && p.node(p.entry).ins.size() == 1 && !clamped) {
    PM all = ev.empty() ? PM{} : whole.receiveDebug(message(ev));
    PM first = cut ? prefix.receiveDebug(message(Batch(ev.begin(), ev.begin() + cut))) : PM{};
    for (auto& [id, om] : first)
      for (auto& [port, ms] : om) {
        auto& longer = all[id][port];
        bool ok = longer.size() >= ms.size();
        if (ok) {
          OM u{{port, ms}}, v{{port, rtbot::PortMessage<uint64_t, double>(longer.begin(), longer.begin() + ms.size())}};
          ok = same(u, v);
        }
        c.require(ok, "operator " + id + " port " + port + ": the history up to message " + std::to_string(cut) + " yields " +
                          nat::show(PM{{id, om}}) + ", the whole history does not begin with it: " + nat::show(PM{{id, all[id]}}));
      }
    c.label("prefix compared");
  }
  if (w.causal) c.label("causality checked");
  for (auto& k : w.ports)
    if (k.first != p.entry) c.label("emitting " + p.node(k.first).type);
  if (w.emitted >= 10 && w.ports.size() >= 3) c.mark();
}
PBT_MAIN("C24", prop, 50000, 1500000, "at least ten messages on three output ports (five for operators outside of a program)")
