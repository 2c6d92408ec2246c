#define WITH_Join
#include "../op.h"
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"j", "Join"};
  n.p.n = s.chance(1, 8) ? s.range(5, 12) : s.range(2, 4);
  gen::set_ports(n);
  bool lag = s.chance(1, 60);
  auto per = lag ? op::partial_streams(s, n.ins, op::lag_length(s, n.ins.size()), op::any_value, 100) : op::partial_streams(s, n.ins, 14 * s.sizeFactor, op::any_value);
  auto ev = op::interleave(s, per);
  size_t common = ref::tuples([&] {
                    std::vector<const ref::Stream*> v;
                    for (auto& k : n.ins) v.push_back(&per[k]);
                    return v;
                  }()).size();
  size_t total = 0;
  for (auto& [k, v] : per) total += v.size();
  if (common > 0 && total > common * n.ins.size()) c.mark();
  if (common > 2) c.label("more than two tuples");
  if (n.p.n >= 10) c.label("ten or more ports");
  if (lag) {
    c.label("long lag");
    op::check_long<uint64_t>(c, n, ev, op::exact);
  } else if (s.chance(1, 4)) {
    c.label("signed time");
    op::check<int64_t>(c, n, ev, op::exact);
  } else
    op::check<uint64_t>(c, n, ev, op::exact);
}
PBT_MAIN("C02", prop, 60000, 2000000, "at least one complete tuple and at least one message without partner")
