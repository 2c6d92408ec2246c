#define WITH_Plus
#define WITH_Minus
#define WITH_Multiplication
#define WITH_Division
#define WITH_And
#define WITH_Or
#define WITH_GreaterThanStream
#define WITH_LessThanStream
#define WITH_Linear
#include "../op.h"

static double truth(pbt::Source& s) { return s.oneof({0.0, 1.0, 0.5, 0.25, 0.75, 0.49999999999999994, -1.0, 2.0, -0.5}); }
static double small(pbt::Source& s) { return (double)s.range(-2, 2); }
static void prop(pbt::Source& s, pbt::Ctx& c) {
  gen::Node n = {"op", ""};
  static const std::vector<std::string> types = {"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream",
                                                 "LessThanStream", "Linear", "Linear"};
  n.type = types[s.below(types.size())];
  if (n.type == "Linear") {
    int k = s.chance(1, 4) ? (int)s.range(9, 13) : (int)s.range(2, 5);
    for (int i = 0; i < k; i++) n.p.coeff.push_back(s.range(-20, 20) / 4.0);
  }
  gen::set_ports(n);
  auto val = n.type == "And" || n.type == "Or" ? truth : s.flip() ? small : op::rough;
  bool lag = s.chance(1, 60);
  auto per = lag ? op::partial_streams(s, n.ins, op::lag_length(s, n.ins.size()), val, 100) : op::partial_streams(s, n.ins, 14 * s.sizeFactor, val);
  op::unit = 1;
  if (n.type != "And" && n.type != "Or") {
    double u = op::magnitude(s, c);
    bool one = s.chance(1, 4);  // of one port only
    for (size_t i = 0; i < n.ins.size(); i++)
      if (!one || i + 1 == n.ins.size())
        for (auto& m : per[n.ins[i]]) m.v *= u;
    if (one && u < 1) op::unit = 1;
  }
  auto ev = op::interleave(s, per);
  std::vector<const ref::Stream*> v;
  size_t total = 0;
  for (auto& k : n.ins) {
    v.push_back(&per[k]);
    total += per[k].size();
  }
  size_t common = ref::tuples(v).size();
  if (common > 0 && total > common * n.ins.size()) c.mark();
  bool pick = n.type == "GreaterThanStream" || n.type == "LessThanStream" || n.type == "And" || n.type == "Or";
  bool many = n.type == "Linear";
  c.label(n.type);
  if (n.ins.size() >= 10) c.label("ten or more ports");
  if (lag) {
    c.label("long lag");
    op::check_long<uint64_t>(c, n, ev, pick ? op::exact : many ? op::near : op::tight);
    return;
  }
  size_t out = op::check<uint64_t>(c, n, ev, pick ? op::exact : many ? op::near : op::tight);
  if (out < common) c.label("consumed a tuple silently");
}
PBT_MAIN("C03", prop, 100000, 2000000, "at least one complete tuple and at least one message without partner")
