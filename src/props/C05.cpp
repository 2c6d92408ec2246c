#define WITH_PeakDetector
#include "../op.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "PeakDetector"};
  n.p.n = s.range(1, s.chance(1, 5) ? 15 : 7);
  bool wide = s.chance(1, 200);
  if (wide) n.p.n = s.range(60, 400);
  gen::set_ports(n);
  auto in = op::stream(s, (int)s.range(0, 30 * s.sizeFactor + (int)n.p.n), s.flip() ? op::level : op::rough);
  if (s.chance(1, 4)) {
    // monotone run
    double k = s.oneof({1.0, -1.0, 0.0});
    for (size_t i = 0; i < in.size(); i++) in[i].v = k * (double)i;
    c.label("monotone");
  }
  op::magnitude(s, c, in);
  if (wide) {
    c.label("wide window");
    auto more = op::stream(s, (int)s.range(200, 900), s.flip() ? op::level : op::rough);
    for (auto& m : more) m.v *= op::unit;
    op::check_long<uint64_t>(c, n, more, op::exact);
    return;
  }
  size_t out = s.chance(1, 4) ? op::check<int64_t>(c, n, op::on_port("i1", in), op::exact)
                              : op::check<uint64_t>(c, n, op::on_port("i1", in), op::exact);
  if (out > 0 && out + (size_t)n.p.n - 1 < in.size()) c.mark();
  if (n.p.n % 2 == 0) c.label("even window");
}
PBT_MAIN("C05", prop, 100000, 2000000, "some full windows have their maximum at the centre and some do not")
