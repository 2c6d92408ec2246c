#include "../api.h"
#include "../comp.h"

using namespace api;

// operators outside of a program: a composite, or the operators it is made of
static void native(pbt::Source& s, pbt::Ctx& c) {
  std::string out;
  bool bits;
  gen::Prog p = comp::program(s, 5 * s.sizeFactor, out, bits);
  auto ev = comp::history(s, p, 30 * s.sizeFactor, bits);
  bool composite = s.flip();
  size_t cut = s.below(ev.size() + 1);
  size_t used = s.chance(1, 3) ? s.below(ev.size() + 1) : 0;  // what the operators restored into have processed before
  c.log([&](std::ostream& o) {
    o.precision(17);
    for (auto& n : p.nodes) o << gen::node_text(n) << (n.type == "Difference" ? (n.p.oldest ? " newest time" : " previous time") : "") << "\n";
    for (auto& k : p.conns) o << k[0] << ":" << k[1] << " -> " << k[2] << ":" << k[3] << "\n";
    o << (composite ? "composite" : "operators") << " saved before message " << cut + 1 << ", restored into operators that had processed " << used << " messages, of";
    gen::show_events(o, ev);
  });
  auto build = [&]() { return composite ? comp::composite(p, out, false, nullptr) : comp::manual(p, out); };
  auto undisturbed = build(), orig = build();
  std::unique_ptr<comp::Graph> r;
  size_t after = 0;
  for (size_t k = 0; k <= ev.size(); k++) {
    if (k == cut) {
      Bytes b = orig->collect();
      r = build();
      try {
        for (size_t i = 0; i < used; i++) r->feed(ev[i].port, ev[i].m);
      } catch (const std::exception&) {
        c.discard();
      }
      Bytes::const_iterator it = b.begin();
      r->restore(it);
      c.require(it == b.end(), "restoring read " + std::to_string(it - b.cbegin()) + " of the " + std::to_string(b.size()) + " bytes written");
      c.require(r->collect().size() == b.size(), "the restored operators write another number of bytes than they were restored from");
    }
    if (k == ev.size()) break;
    PM want;
    try {
      want = undisturbed->feed(ev[k].port, ev[k].m);
    } catch (const std::exception&) {
      c.discard();
    }
    PM got = orig->feed(ev[k].port, ev[k].m);
    if (!same(got, want)) c.fail("message " + std::to_string(k + 1) + ": the saved operators returned " + nat::show(got) + " instead of " + nat::show(want));
    if (r) {
      got = r->feed(ev[k].port, ev[k].m);
      if (!same(got, want))
        c.fail("message " + std::to_string(k + 1) + ": the restored operators returned " + nat::show(got) + " instead of " + nat::show(want));
      if (count(want)) after++;
    }
  }
  c.label(composite ? "composite" : "operators outside of a program");
  if (cut > 0 && after >= 2) c.mark();
}

static void prop(pbt::Source& s, pbt::Ctx& c) {
  if (s.chance(1, 4)) return native(s, c);
  gen::Options opt;
  opt.maxOps = 8 + 3 * (s.sizeFactor - 1);
  opt.pipelines = s.flip();
  gen::Prog p = gen::program(s, opt);
  std::string def = gen::prog_json(p, &s).dump();
  auto ev = gen::history(s, p, 40 * s.sizeFactor);
  auto calls = batches(s, ev, s.chance(1, 4));
  size_t cut = s.below(calls.size() + 1), cut2 = cut + s.below(calls.size() - cut + 1);
  int gap = (int)s.range(1, 6);  // further snapshots every `gap` calls
  log_case(c, def, calls);
  c.log([&](std::ostream& o) { o << "snapshot before call " << cut + 1 << ", the restored program again before call " << cut2 + 1; });

  Program undisturbed(def), orig(def);
  std::unique_ptr<Program> p2, p3, p4;
  std::vector<std::unique_ptr<Program>> chain;
  std::unique_ptr<Program> relay = std::make_unique<Program>(def);  // rebuilt from its own snapshot again and again
  size_t after = 0;
  for (size_t k = 0; k <= calls.size(); k++) {
    if (k == cut) {
      Bytes b = orig.serialize();
      p2 = std::make_unique<Program>(b);
      p4 = std::make_unique<Program>(orig.serialize());  // a second snapshot of the same state
      Bytes b2 = p2->serialize();
      c.require(b.size() == b2.size(), "the restored program serialises to " + std::to_string(b2.size()) + " bytes, it was restored from " +
                                           std::to_string(b.size()));
    }
    if (k == cut2) p3 = std::make_unique<Program>(p2->serialize());
    if (k == calls.size()) break;
    if (k % gap == 0) relay = std::make_unique<Program>(relay->serialize());
    OM om = message(calls[k]);
    bool dbg = !s.chance(1, 4);
    auto step = [&](Program& q) { return dbg ? q.receiveDebug(om) : q.receive(om); };
    PM want = step(undisturbed);
    auto cmp = [&](const std::unique_ptr<Program>& q, const char* what) {
      if (!q) return;
      PM got = step(*q);
      if (!same(got, want))
        c.fail("call " + std::to_string(k + 1) + ": " + what + " returned " + nat::show(got) + " instead of " + nat::show(want));
    };
    PM got = step(orig);
    if (!same(got, want))
      c.fail("call " + std::to_string(k + 1) + ": the program whose snapshot was taken returned " + nat::show(got) + " instead of " + nat::show(want));
    cmp(p2, "the restored program");
    cmp(p3, "the program restored from a restored program");
    cmp(p4, "the program restored from a second snapshot");
    cmp(relay, "the program restored repeatedly");
    if (k >= cut && count(want) > 0) after++;
  }
  for (auto& n : p.nodes) c.label("with " + n.type);
  if (cut > 0 && after >= 2) c.mark();
}
PBT_MAIN("C16", prop, 25000, 2000000, "the snapshot was taken after at least one message and at least two later calls emitted something")
