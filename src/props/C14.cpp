#define WITH_Variable
#include "../op.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "Variable"};
  n.p.value = op::any_value(s);
  gen::set_ports(n);
  bool lag = s.chance(1, 60);
  auto per = lag ? op::partial_streams(s, {"i1", "c1"}, op::lag_length(s, 2), op::any_value, 100) : op::partial_streams(s, {"i1", "c1"}, 16 * s.sizeFactor, op::any_value);
  if (s.chance(1, 3)) {
    // queries far before or after the data
    int64_t d = s.range(-30, 30);
    for (auto& m : per["c1"]) m.t += d;
    while (!per["c1"].empty() && per["c1"].front().t < 0) per["c1"].erase(per["c1"].begin());
  }
  auto ev = op::interleave(s, per);
  size_t before = 0;
  for (auto& q : per["c1"])
    if (!per["i1"].empty() && q.t < per["i1"].front().t) before++;
  if (before) c.label("queries before all data");
  if (before > 1) c.label("several queries before all data");
  if (lag) {
    c.label("long lag");
    op::check_long<uint64_t>(c, n, ev, op::exact);
    return;
  }
  size_t out = s.chance(1, 4) ? op::check<int64_t>(c, n, ev, op::exact) : op::check<uint64_t>(c, n, ev, op::exact);
  if (out >= 2 && per["i1"].size() >= 2) c.mark();
}
PBT_MAIN("C14", prop, 120000, 2000000, "at least two queries answered from at least two data messages")
