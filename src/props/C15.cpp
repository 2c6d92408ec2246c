#define WITH_Demultiplexer
#include "../op.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "Demultiplexer"};
  n.p.n = s.chance(1, 8) ? s.range(4, 12) : s.range(1, 3);
  gen::set_ports(n);
  bool lag = s.chance(1, 60);
  int len = lag ? (int)s.range(100, op::lag_length(s, n.ctls.size() + 1)) : (int)s.range(1, 14 * s.sizeFactor);
  int64_t scale = gen::time_scale(s);
  int64_t t = s.oneof<int64_t>({0, 1, 1000, 1600000000000ll});
  std::map<std::string, ref::Stream> per;
  per["i1"];
  bool extra = false, multi = false, zero = false;
  for (int i = 0; i < len; i++) {
    bool data = s.chance(3, 4);
    int ones = 0;
    for (auto& k : n.ctls)
      if (data || s.chance(1, 2)) {
        double v = s.flip() ? 1 : 0;
        per[k].push_back({t, v});
        ones += v == 1 && data;
        if (!data) extra = true;
      }
    if (data) {
      per["i1"].push_back({t, op::any_value(s)});
      if (ones > 1) multi = true;
      if (ones == 0) zero = true;
    }
    t += gen::gap(s) * scale;
  }
  // the last control messages may still be missing
  auto ev = op::interleave(s, per);
  if (s.chance(1, 3)) ev.resize(ev.size() - s.below(std::min<size_t>(ev.size(), 4) + 1));
  if (extra) c.label("control messages without data");
  if (multi) c.label("routed to several ports");
  if (zero) c.label("routed nowhere");
  if (n.p.n >= 10) c.label("ten or more ports");
  if (lag) {
    c.label("long lag");
    op::check_long<uint64_t>(c, n, ev, op::exact);
    return;
  }
  size_t out = s.chance(1, 4) ? op::check<int64_t>(c, n, ev, op::exact) : op::check<uint64_t>(c, n, ev, op::exact);
  if (out > 0 && per["i1"].size() > 1) c.mark();
}
PBT_MAIN("C15", prop, 60000, 2000000, "at least one message routed and at least two data messages")
