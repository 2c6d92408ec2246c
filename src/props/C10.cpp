#define WITH_ConstantResampler
#include "../op.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "ConstantResampler"};
  n.p.n = op::interval(s);
  gen::set_ports(n);
  bool longer = s.chance(1, 100);
  auto in = op::gaps(s, c, n.p.n, longer ? (int)s.range(100, 800) : (int)s.range(0, 22 * s.sizeFactor));
  bool hit = false, burst = false, none = false;
  for (size_t i = 1; i < in.size(); i++) {
    if ((in[i].t - in[0].t) % n.p.n == 0) hit = true;
    int64_t k = (in[i].t - in[0].t) / n.p.n - (in[i - 1].t - in[0].t) / n.p.n;
    if (k > 1) burst = true;
    if (k == 0) none = true;
  }
  if (hit) c.label("a message exactly on the grid");
  if (burst) c.label("several grid points at once");
  if (none) c.label("a message without grid point");
  if (longer) {
    c.label("long stream");
    c.mark();
    op::check_long<uint64_t>(c, n, in, op::exact, false);
    return;
  }
  size_t out = s.chance(1, 4) ? op::check<int64_t>(c, n, op::on_port("i1", in), op::exact, false) : op::check<uint64_t>(c, n, op::on_port("i1", in), op::exact, false);
  if (in.size() >= 3 && out >= 2) c.mark();
}
PBT_MAIN("C10", prop, 120000, 2000000, "at least 3 messages in and at least two grid points out")
