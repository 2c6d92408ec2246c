#include "../pre.h"

#include "../comp.h"

static void prop(pbt::Source& s, pbt::Ctx& c) {
  std::string out;
  bool bits;
  gen::Prog p = comp::program(s, 6 * s.sizeFactor, out, bits);
  auto ev = comp::history(s, p, 30 * s.sizeFactor, bits);
  bool via = s.chance(1, 3);
  c.log([&](std::ostream& o) {
    o.precision(17);
    for (auto& n : p.nodes) o << gen::node_text(n) << (n.type == "Difference" ? (n.p.oldest ? " newest time" : " previous time") : "") << "\n";
    for (auto& k : p.conns) o << k[0] << ":" << k[1] << " -> " << k[2] << ":" << k[3] << "\n";
    o << (via ? "through connected operators" : "directly") << " fed";
    gen::show_events(o, ev);
  });
  auto want = comp::manual(p, out);
  auto got = comp::composite(p, out, via, &s);
  std::string bad = got->provoke(s);
  if (!bad.empty()) c.fail(bad);
  size_t emitted = 0;
  std::set<std::string> live;
  auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
  for (size_t i = 0; i < ev.size(); i++) {
    bool threw = false;
    nat::PM w, g;
    try {
      w = want->feed(ev[i].port, ev[i].m);
    } catch (const std::exception&) {
      threw = true;
    }
    try {
      g = got->feed(ev[i].port, ev[i].m);
      if (threw) c.fail("the operators wired by hand refuse message " + std::to_string(i + 1) + ", the composite does not");
    } catch (const std::exception& e) {
      if (!threw) c.fail("the composite refuses message " + std::to_string(i + 1) + ": " + e.what());
    }
    if (threw) c.discard();
    auto a = want->arrived(), b = got->arrived();
    for (auto& [port, st] : a) {
      const auto& x = ref::port(b, port);
      bool ok = x.size() == st.size();
      for (size_t k = 0; ok && k < x.size(); k++) ok = x[k].t == st[k].t && same(x[k].v, st[k].v);
      if (!ok)
        c.fail("message " + std::to_string(i + 1) + ": the composite emitted " + gen::show(x) + " on " + port + ", its operators wired by hand " +
               gen::show(st));
      emitted += st.size();
    }
    std::string ws = nat::show(w), gs = nat::show(g);
    if (ws != gs) c.fail("message " + std::to_string(i + 1) + ": the composite returned " + gs + ", its operators wired by hand " + ws);
    for (auto& [id, om] : w) live.insert(p.node(id).type);
  }
  for (auto& t : live) c.label("emitting " + t);
  if (via) c.label("fed through connections");
  if (emitted >= 2 && live.size() >= 3) c.mark();
}
PBT_MAIN("C22", prop, 40000, 2000000, "three or more kinds of operator emitted something and at least two messages left the composite")
