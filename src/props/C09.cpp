#define WITH_Function
#include "../op.h"

static double scale;
static bool same(double g, double w, double) { return op::exact(g, w, 0) || std::fabs(g - w) <= 1e-9 * scale; }
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", "Function"};
  int k = (int)s.range(2, s.chance(1, 5) ? (s.chance(1, 5) ? 70 : 12) : 5);
  bool grid = s.flip();
  double x = (double)s.range(-20, 20) / 4.0;
  for (int i = 0; i < k; i++) {
    n.p.points.push_back({x, grid ? s.range(-20, 20) / 4.0 : s.range(-1000, 1000) / 7.0});
    x += grid ? s.range(1, 8) / 4.0 : s.range(1, 1000) / 77.0;
  }
  // now and then everything is tiny or huge along one axis
  double ux = s.chance(1, 6) ? std::ldexp(1.0, s.oneof({-40, -24, 20})) : 1, uy = s.chance(1, 6) ? std::ldexp(1.0, s.oneof({-40, -24, 20})) : 1;
  for (auto& q : n.p.points) q.first *= ux, q.second *= uy;
  if (ux != 1 || uy != 1) c.label("tiny or huge coordinates");
  auto sorted = n.p.points;
  for (int i = k; i > 1; i--) std::swap(n.p.points[i - 1], n.p.points[s.below(i)]);
  if (n.p.points != sorted) c.label("points out of order");
  n.p.hermite = s.flip();
  c.label(n.p.hermite ? "hermite" : "linear");
  gen::set_ports(n);
  int len = (int)s.range(1, 12 * s.sizeFactor);
  ref::Stream in;
  int64_t t = 1000;
  double width = 1e300, h = uy;
  for (int i = 0; i + 1 < k; i++) width = std::min(width, sorted[i + 1].first - sorted[i].first);
  for (auto& q : sorted) h = std::max(h, std::fabs(q.second));
  std::set<int> kinds;
  double far = 1;
  for (int i = 0; i < len; i++) {
    double v;
    int kind = (int)s.below(5);
    switch (kind) {
      case 0: v = sorted[s.below(k)].first; break;                          // a knot
      case 1: v = sorted[0].first - ux * s.range(1, 40) / 8.0; break;            // below
      case 2: v = sorted[k - 1].first + ux * s.range(1, 40) / 8.0; break;        // above
      case 3: {                                                             // inside a segment
        size_t q = s.below(k - 1);
        v = sorted[q].first + (sorted[q + 1].first - sorted[q].first) * s.range(1, 15) / 16.0;
        break;
      }
      default: v = ux * op::rough(s);
    }
    kinds.insert(kind);
    far = std::max(far, std::fabs(v - sorted[0].first) / width);
    in.push_back({t, v});
    t += gen::gap(s);
  }
  scale = h * (1 + far) * (n.p.hermite ? (1 + far) * (1 + far) : 1);
  if (kinds.size() >= 3) c.mark();
  // at a knot the result is the ordinate itself: judged for the knots only, independent of the formula
  if (kinds.count(0)) c.label("hits a knot");
  op::check<uint64_t>(c, n, op::on_port("i1", in), same);
  op::Probe<uint64_t> probe(n);
  for (auto& q : sorted) {
    auto r = ref::port(probe.feed(c, "i1", {t, q.first}), "o1");
    double range = 0;
    for (auto& z : sorted) range = std::max(range, std::fabs(z.second));
    if (r.size() != 1 || r[0].t != t || std::fabs(r[0].v - q.second) > 1e-9 * std::max(uy, range) * std::max(1.0, std::fabs(q.first) / width))
      c.fail("Function: the value at the configured point (" + std::to_string(q.first) + "," + std::to_string(q.second) + ") is " + gen::show(r));
    t++;
  }
}
PBT_MAIN("C09", prop, 120000, 2000000, "inputs of at least three kinds among: a knot, below, above, inside a segment, arbitrary")
