#define WITH_Add
#define WITH_Scale
#define WITH_Power
#define WITH_Constant
#define WITH_Identity
#define WITH_GreaterThan
#define WITH_LessThan
#define WITH_EqualTo
#define WITH_Count
#define WITH_CumulativeSum
#define WITH_Output
#include "../op.h"

static double thr;
static double around(pbt::Source& s) {
  switch (s.below(5)) {
    case 0: return thr;
    case 1: return std::nextafter(thr, 1e308);
    case 2: return std::nextafter(thr, -1e308);
    case 3: return thr + gen::value(s);
    default: return op::any_value(s);
  }
}
static double positive(pbt::Source& s) { return s.range(0, 4000) / 8.0; }
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", ""};
  n.type = s.oneof<const char*>({"Add", "Scale", "Power", "Constant", "Identity", "GreaterThan", "LessThan", "EqualTo", "Count", "CumulativeSum", "Output"});
  c.label(n.type);
  bool filter = n.type == "GreaterThan" || n.type == "LessThan" || n.type == "EqualTo";
  n.p.value = s.flip() ? s.range(-12, 12) / 4.0 : op::rough(s);
  double (*val)(pbt::Source&) = op::any_value;
  if (n.type == "Power") {
    n.p.value = s.flip() ? (double)s.range(-3, 4) : s.range(-12, 12) / 4.0;
    val = n.p.value == std::floor(n.p.value) ? op::rough : positive;
  }
  if (filter) {
    thr = n.p.value;
    val = around;
  }
  if (n.type == "CumulativeSum") val = s.flip() ? gen::value : op::rough;
  if (n.type == "Output") {
    n.p.n = s.range(1, 12);
    gen::set_ports(n);
    auto per = op::partial_streams(s, n.ins, 8 * s.sizeFactor, op::any_value);
    auto ev = op::interleave(s, per);
    if (ev.size() > 3) c.mark();
    op::check<uint64_t>(c, n, ev, op::exact);
    return;
  }
  gen::set_ports(n);
  if ((n.type == "Count" || n.type == "CumulativeSum") && s.chance(1, 20)) {
    c.label("long stream");
    c.mark();
    op::check_long<uint64_t>(c, n, op::stream(s, (int)s.range(200, 3000 * s.sizeFactor), val), n.type == "Count" ? op::exact : op::near);
    return;
  }
  auto in = op::stream(s, (int)s.range(0, 25 * s.sizeFactor), val);
  if (n.type == "CumulativeSum") op::offset(s, c, in);
  op::Same same = n.type == "CumulativeSum" ? op::near : n.type == "Add" || n.type == "Scale" || n.type == "Power" ? op::tight : op::exact;
  size_t out = s.chance(1, 4) ? op::check<int64_t>(c, n, op::on_port("i1", in), same) : op::check<uint64_t>(c, n, op::on_port("i1", in), same);
  if (filter ? out > 0 && out < in.size() : in.size() > 1) c.mark();
}
PBT_MAIN("C07", prop, 120000, 2000000, "more than one message; for filters: some messages pass and some do not")
