#define WITH_TimeShift
#include "../op.h"

template <class T>
static void run(pbt::Source& s, pbt::Ctx& c, bool sign) {
  gen::Node n = {"op", "TimeShift"};
  switch (s.weighted({3, 2, 1})) {
    case 0: n.p.n = s.range(0, 12); break;
    case 1: n.p.n = s.range(0, 100000); break;
    default: n.p.n = s.range(0, 1000000000000ll); break;
  }
  if (sign && s.flip()) n.p.n = -n.p.n;
  n.p.times = s.chance(1, 6) ? s.range(-100000, 100000) : s.range(-5, 5);
  gen::set_ports(n);
  int64_t shift = n.p.n * n.p.times;
  ref::Stream in;
  int len = (int)s.range(0, 20 * s.sizeFactor);
  // times on both sides of the shift's magnitude
  int64_t t = s.flip() ? std::max<int64_t>(0, -shift - s.range(0, 20)) : s.oneof<int64_t>({0, 1, 1000, 1600000000000ll});
  int64_t scale = gen::time_scale(s);
  bool below = false, above = false;
  for (int i = 0; i < len; i++) {
    in.push_back({t, op::any_value(s)});
    (t + shift < 0 ? below : above) = true;
    t += gen::gap(s) * scale;
  }
  if (below) c.label("clamped");
  if (shift < 0) c.label("backward");
  if (shift == 0) c.label("zero shift");
  if (len > 1 && shift != 0) c.mark();
  if (below && above) c.label("crosses zero");
  op::check<T>(c, n, op::on_port("i1", in), op::exact);
}
static void prop(pbt::Source& s, pbt::Ctx& c) {
  if (s.chance(1, 3)) {
    c.label("signed time");
    run<int64_t>(s, c, true);
  } else
    run<uint64_t>(s, c, false);
}
PBT_MAIN("C08", prop, 120000, 2000000, "a non-zero shift and more than one message")
