#define WITH_RelativeStrengthIndex
#include "../op.h"

static bool same(double g, double w, double) { return g >= 0 && g <= 100 && std::fabs(g - w) <= 1e-7; }
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "RelativeStrengthIndex"};
  n.p.n = s.range(1, s.chance(1, 5) ? 14 : 6);
  bool longer = s.chance(1, 100);
  if (longer && s.flip()) n.p.n = s.range(15, 300);
  gen::set_ports(n);
  auto in = op::stream(s, longer ? (int)s.range(100, 1200) : (int)s.range(0, 30 * s.sizeFactor), s.flip() ? op::level : s.flip() ? gen::value : op::rough);
  op::offset(s, c, in, true);
  if (s.chance(1, 6)) {
    for (size_t i = 0; i < in.size(); i++) in[i].v = (double)i * s.oneof({1.0, 0.0});
    c.label("no losses");
  }
  op::magnitude(s, c, in);
  if (in.size() > (size_t)n.p.n + 2) c.mark();
  if (longer) {
    c.label("long stream");
    op::check_long<uint64_t>(c, n, in, same);
  } else if (s.chance(1, 4))
    op::check<int64_t>(c, n, op::on_port("i1", in), same);
  else
    op::check<uint64_t>(c, n, op::on_port("i1", in), same);
}
PBT_MAIN("C13", prop, 100000, 2000000, "at least two messages after the first value")
