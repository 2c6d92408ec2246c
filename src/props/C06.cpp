#define WITH_AutoRegressive
#include "../op.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "AutoRegressive"};
  int k = (int)s.range(1, s.chance(1, 6) ? 12 : 4);
  bool wide = s.chance(1, 150);
  if (wide) k = (int)s.range(20, 300);
  bool asym = false;
  for (int i = 0; i < k; i++) {
    n.p.coeff.push_back(wide && i && i + 1 < k && s.chance(9, 10) ? 0.0 : !wide && s.flip() ? s.oneof({0.5, -0.5, 0.25, 1.0, -1.0, 0.0}) : s.range(-100, 100) / 70.0 / k);
    if (n.p.coeff[i] != n.p.coeff[0]) asym = true;
  }
  gen::set_ports(n);
  auto in = op::stream(s, (int)s.range(0, 30 * s.sizeFactor), s.flip() ? gen::value : op::rough);
  op::magnitude(s, c, in);
  if (asym && (int)in.size() > k + 1) c.mark();
  if (k > 1) c.label("several coefficients");
  if (wide || s.chance(1, 60)) {
    c.label("long stream");
    auto more = op::stream(s, (int)s.range(200, 800), s.flip() ? gen::value : op::rough);
    for (auto& m : more) m.v *= op::unit;
    op::check_long<uint64_t>(c, n, more, op::near);
  } else if (s.chance(1, 4))
    op::check<int64_t>(c, n, op::on_port("i1", in), op::near);
  else
    op::check<uint64_t>(c, n, op::on_port("i1", in), op::near);
}
PBT_MAIN("C06", prop, 100000, 2000000, "the coefficients differ and the stream is longer than their number plus one")
