#define WITH_MovingAverage
#define WITH_StandardDeviation
#define WITH_FiniteImpulseResponse
#define WITH_Difference
#include "../op.h"

// the running sum keeps the roundings of the whole stream, relative to the largest value seen
static bool close(double g, double w, double mag) { return op::exact(g, w, 0) || std::fabs(g - w) <= 1e-11 * mag + 1e-9 * std::fabs(w); }
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", ""};
  n.type = s.oneof<const char*>({"MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference"});
  int w = 2;
  if (n.type == "MovingAverage") w = (int)(n.p.n = s.range(1, s.chance(1, 6) ? 30 : 6));
  if (n.type == "StandardDeviation") w = (int)(n.p.n = s.range(2, s.chance(1, 6) ? 30 : 6));
  if (n.type == "FiniteImpulseResponse") {
    w = (int)s.range(1, s.chance(1, 6) ? 12 : 5);
    for (int i = 0; i < w; i++) n.p.coeff.push_back(s.flip() ? s.range(-8, 8) / 4.0 : s.range(-100, 100) / 7.0);
  }
  if (n.type == "Difference") n.p.oldest = s.flip();
  gen::set_ports(n);
  c.label(n.type);
  op::Same same = n.type == "Difference" ? op::tight : close;
  bool wide = s.chance(1, 200);
  if (wide) {
    c.label("wide window");
    w = (int)s.range(64, 700);
    n.p.n = w;
    if (n.type == "FiniteImpulseResponse")
      while ((int)n.p.coeff.size() < w) n.p.coeff.push_back(s.range(-100, 100) / 7.0);
  }
  if (wide || s.chance(1, 40)) {
    c.label("long stream");
    // the reference is quadratic only in the window
    auto in = op::stream(s, (int)s.range(200, 1500 * s.sizeFactor), s.flip() ? gen::value : op::rough);
    c.mark();
    op::offset(s, c, in);
    op::magnitude(s, c, in);
    op::check_long<uint64_t>(c, n, in, same);
    return;
  }
  auto in = op::stream(s, (int)s.range(0, 24 * s.sizeFactor + w), s.flip() ? gen::value : op::rough);
  op::offset(s, c, in);
  op::magnitude(s, c, in);
  if ((int)in.size() > w + 1) c.mark();
  if (s.chance(1, 4))
    op::check<int64_t>(c, n, op::on_port("i1", in), same);
  else
    op::check<uint64_t>(c, n, op::on_port("i1", in), same);
}
PBT_MAIN("C04", prop, 100000, 2000000, "the stream is longer than the window plus one message")
