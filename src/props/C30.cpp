#include <cstring>
#include <map>
#include <set>

#include "../child.h"

using nlohmann::json;

// Histories of registry calls next to a map of maps of simple pipelines.
namespace {
struct Pipe {
  std::string id;
  double gain = 1, sum = 0;
  uint64_t every = 1, burst = 1, seen = 0;
};
using Registry = std::map<std::string, std::map<std::string, Pipe>>;

uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

Child& child() {
  static Child c({std::string(BUILD_DIR) + "/rust/target/debug/child"});
  return c;
}

struct Program {
  std::string text;
  Pipe pipe;
  std::string refusal;
};
Program program(pbt::Source& s) {
  Program p;
  if (s.chance(1, 6)) {
    p.refusal = s.oneof<const char*>({"invalid program", "Operator with id \"ma1\" was not found", "unknown operator type: 'X'"});
    p.text = json{{"refuse", p.refusal}}.dump();
    return p;
  }
  p.pipe.gain = s.range(-4, 4) / 2.0;
  p.pipe.every = s.chance(1, 2) ? 1 : s.range(2, 4);
  p.pipe.burst = s.chance(3, 4) ? 1 : s.range(0, 3);
  json j = {{"gain", p.pipe.gain}, {"every", p.pipe.every}, {"burst", p.pipe.burst}};
  if (s.chance(1, 3)) j["title"] = s.oneof<const char*>({"a \"quoted\" title", "{}", "%s {0}", "\xc3\xa9\n"});
  p.text = s.flip() ? j.dump() : j.dump(2);
  return p;
}

json messages(Pipe& p, uint64_t time, const std::vector<double>& values) {
  p.seen++;
  for (double v : values) p.sum += v;
  json out = json::array();
  if (p.seen % p.every == 0)
    for (uint64_t i = 0; i < p.burst; i++)
      out.push_back(json::array({time >= i ? time - i : 0, json::array({bits(p.sum * p.gain), bits((double)p.seen)})}));
  return out;
}

using Check = std::function<void(const json& answer, const json& log, const std::string& where)>;
struct Call {
  json step;
  std::string what;
  Check check;
  std::string in;
};

void refused(pbt::Ctx& c, const json& a, const std::string& w) {
  c.require(a.contains("error") && !a["error"].get<std::string>().empty(), w + "was not refused: " + a.dump());
}

void prop(pbt::Source& s, pbt::Ctx& c) {
  int registries = s.chance(1, 4) ? 2 : 1;
  std::vector<Registry> model(registries);
  std::vector<std::string> keys = {"a", "b", "ab"};
  if (s.chance(1, 3)) keys.push_back(s.oneof<const char*>({"", " ", "a:b", "\xc3\xa9", "A", "key with blanks", "a\"b\\"}));
  auto key = [&] { return keys[s.below(keys.size())]; };
  uint64_t clock = s.chance(1, 4) ? 1700000000123ull : s.chance(1, 6) ? (1ull << 63) : 1;
  size_t fed = 0, refusals = 0, deleted = 0, races = 0;

  auto describe = [](const json& j) { return j.dump(); };
  auto made = [&c](const json& log, const std::string& id, const std::string& text) {
    for (auto& l : log)
      if (l[0] == "create" && l[1] == id && l[2] == text) return;
    c.fail("no pipeline " + id + " was created from the program given: " + log.dump());
  };

  // the calls change the model when their answer is checked: a thread's calls in the thread's order
  auto call = [&](int r, const std::string& in, size_t kind) {
    Call k;
    k.in = in;
    Registry* m = &model[r];
    if (kind == 0) {
      std::string out = key();
      Program p = program(s);
      k.step = {{"do", "create"}, {"r", r}, {"in", in}, {"out", out}, {"program", p.text}};
      k.check = [=, &c, &refusals](const json& a, const json& log, const std::string& w) {
        auto& outs = (*m)[in];
        if (outs.count(out)) {
          refused(c, a, w);
          refusals++;
        } else if (!p.refusal.empty()) {
          refused(c, a, w);
          c.require(a["error"].get<std::string>().find(p.refusal) != std::string::npos, w + "does not give the reason of the engine: " + a.dump());
          refusals++;
        } else {
          c.require(a.contains("ok"), w + "was refused: " + a.dump());
          Pipe q = p.pipe;
          q.id = a["ok"];
          made(log, q.id, p.text);
          outs[out] = q;
        }
      };
    } else if (kind == 1) {
      std::string out = key();
      k.step = {{"do", "delete"}, {"r", r}, {"in", in}, {"out", out}};
      k.check = [=, &c, &refusals, &deleted](const json& a, const json& log, const std::string& w) {
        auto& outs = (*m)[in];
        if (!outs.count(out)) {
          refused(c, a, w);
          refusals++;
          return;
        }
        c.require(a.contains("ok"), w + "was refused: " + a.dump());
        outs.erase(out);
        deleted++;
      };
    } else if (kind == 2) {
      k.step = {{"do", "clear"}, {"r", r}, {"in", in}};
      k.check = [=, &c, &deleted](const json& a, const json&, const std::string& w) {
        auto& outs = (*m)[in];
        if (outs.empty()) return;  // an answer of zero or a refusal
        c.require(a.contains("ok"), w + "was refused: " + a.dump());
        deleted += outs.size();
        outs.clear();
      };
    } else {
      std::vector<double> values;
      for (int n = s.chance(1, 6) ? (int)s.range(0, 4) : 1; n > 0; n--) values.push_back(s.chance(1, 8) ? s.oneof({0.1, -1e300, 1e-310, 1.0 / 3, -0.0}) : s.range(-16, 16) / 4.0);
      uint64_t t = clock += s.below(5);
      json b = json::array();
      for (double v : values) b.push_back(bits(v));
      k.step = {{"do", "receive"}, {"r", r}, {"in", in}, {"time", t}, {"values", b}};
      k.check = [=, &c, &fed](const json& a, const json& log, const std::string& w) {
        c.require(a.contains("ok"), w + "was refused: " + a.dump());
        json want = json::object();
        for (auto& [out, p] : (*m)[in]) {
          want[out] = messages(p, t, values);
          fed++;
        }
        if (a["ok"] != want) c.fail(w + "returned " + a["ok"].dump() + " instead of " + want.dump());
      };
    }
    k.what = k.step["do"].get<std::string>() + " " + describe(k.step);
    return k;
  };

  json steps = json::array();
  std::vector<std::pair<std::string, std::function<void(const json&, const std::string&)>>> expects;

  auto released = [&](const json& a, const std::string& w) {
    std::set<std::string> want, got;
    for (auto& m : model)
      for (auto& [in, outs] : m)
        for (auto& [out, p] : outs) c.require(want.insert(p.id).second, w + "two live pipelines share the id " + p.id);
    for (auto& id : a["live"]) got.insert(id.get<std::string>());
    if (got != want) c.fail(w + "the engine now holds the pipelines " + a["live"].dump() + " instead of " + json(want).dump());
  };
  // what reached the engine: every receive call of these to every live pipeline of its key, once, unchanged
  using Fed = std::map<std::string, std::multiset<std::string>>;  // pipeline to messages
  auto delivered = [&](const json& log, const Fed& want, const std::string& w) {
    Fed got;
    for (auto& l : log)
      if (l[0] == "receive") got[l[1]].insert(l[2].dump() + l[3].dump());
    if (got != want) {
      json x;
      for (auto& [id, ms] : want) x[id] = ms;
      c.fail(w + "the engine received " + log.dump() + " instead of " + x.dump());
    }
  };

  for (int n = (int)s.range(1, 30); n > 0; n--) {
    switch (s.weighted({10, 1, 1})) {
      case 0: {
        int r = (int)s.below(registries);
        Call k = call(r, key(), s.weighted({5, 2, 1, 6}));
        steps.push_back(k.step);
        Registry* m = &model[r];
        expects.push_back({k.what, [=](const json& a, const std::string& w) {
                             Fed want;
                             if (k.step["do"] == "receive")
                               for (auto& [out, p] : (*m)[k.in]) want[p.id].insert(k.step["time"].dump() + k.step["values"].dump());
                             k.check(a, a["log"], w);
                             delivered(a["log"], want, w);
                             released(a, w);
                           }});
        break;
      }
      case 1: {  // threads that use different input keys do not see each other
        races++;
        int threads = (int)s.range(2, 3);
        auto lists = std::make_shared<std::vector<std::vector<Call>>>(threads);
        json st = json::array();
        int r = (int)s.below(registries);
        for (int i = 0; i < threads; i++) {
          json list = json::array();
          for (int q = (int)s.range(1, 5); q > 0; q--) {
            (*lists)[i].push_back(call(r, keys[i], s.weighted({3, 1, 1, 3})));
            list.push_back((*lists)[i].back().step);
          }
          st.push_back(list);
        }
        steps.push_back(json{{"threads", st}});
        expects.push_back({"threads " + st.dump(), [=, &c, &model](const json& a, const std::string& w) {
                             Fed want;
                             c.require(a["threads"].size() == lists->size(), w + a.dump());
                             for (size_t i = 0; i < lists->size(); i++)
                               for (size_t q = 0; q < (*lists)[i].size(); q++) {
                                 auto& k = (*lists)[i][q];
                                 if (k.step["do"] == "receive")
                                   for (auto& [out, p] : model[r][k.in]) want[p.id].insert(k.step["time"].dump() + k.step["values"].dump());
                                 k.check(a["threads"][i][q], a["log"], w + "thread " + std::to_string(i) + ", " + k.what + " ");
                               }
                             delivered(a["log"], want, w);
                             released(a, w);
                           }});
        break;
      }
      default: {  // threads after the same pair of keys: one of them gets it
        races++;
        int threads = (int)s.range(2, 3);
        std::string in = key(), out = key();
        int r = (int)s.below(registries);
        size_t kind = s.below(3);
        Program p = program(s);
        if (!p.refusal.empty()) break;
        json one = kind == 0   ? json{{"do", "create"}, {"r", r}, {"in", in}, {"out", out}, {"program", p.text}}
                   : kind == 1 ? json{{"do", "delete"}, {"r", r}, {"in", in}, {"out", out}}
                               : json{{"do", "clear"}, {"r", r}, {"in", in}};
        // a deletion by key may find what it listed deleted by another thread: only one thread deletes then
        if (kind == 2) threads = 1;
        json st = json::array();
        for (int i = 0; i < threads; i++) st.push_back(json::array({one}));
        std::vector<uint64_t> v = {bits(0.25)};
        bool feed = kind != 1 && s.flip();  // and one that feeds another key meanwhile
        std::string other = in == "a" ? "b" : "a";
        uint64_t t = clock;
        if (feed) st.push_back(json::array({json{{"do", "receive"}, {"r", r}, {"in", other}, {"time", t}, {"values", v}}}));
        steps.push_back(json{{"threads", st}});
        Registry* m = &model[r];
        expects.push_back({"threads " + st.dump(), [=, &c, &refusals, &deleted](const json& a, const std::string& w) {
                             auto& outs = (*m)[in];
                             Fed want;
                             size_t fine = 0;
                             std::string id;
                             for (int i = 0; i < threads; i++) {
                               auto& x = a["threads"][i][0];
                               if (x.contains("ok")) {
                                 fine++;
                                 id = x["ok"];
                               } else
                                 refusals++;
                             }
                             if (kind == 0) {
                               size_t expect = outs.count(out) ? 0 : 1;
                               c.require(fine == expect, w + "created " + std::to_string(fine) + " pipelines instead of " + std::to_string(expect) + ": " + a.dump());
                               if (expect) {
                                 outs[out] = p.pipe;
                                 outs[out].id = id;
                                 made(a["log"], id, p.text);
                               }
                             } else if (kind == 1) {
                               size_t expect = outs.count(out);
                               c.require(fine == expect, w + "deleted " + std::to_string(fine) + " pipelines instead of " + std::to_string(expect) + ": " + a.dump());
                               deleted += expect;
                               outs.erase(out);
                             } else {
                               c.require(outs.empty() || fine == 1, w + "was refused: " + a.dump());
                               deleted += outs.size();
                               outs.clear();
                             }
                             if (feed) {
                               json x = json::object();
                               for (auto& [o, q] : (*m)[other]) {
                                 want[q.id].insert(json(t).dump() + json(v).dump());
                                 x[o] = messages(q, t, {0.25});
                               }
                               auto& y = a["threads"][threads][0];
                               c.require(y.contains("ok") && y["ok"] == x, w + "the thread feeding got " + y.dump() + " instead of " + x.dump());
                             }
                             delivered(a["log"], want, w);
                             released(a, w);
                           }});
      }
    }
  }

  c.log([&](std::ostream& o) {
    o << registries << " registries\n";
    for (size_t i = 0; i < expects.size(); i++) o << i + 1 << ": " << expects[i].first << "\n";
  });
  json answers = child().ask({{"registries", registries}, {"steps", steps}}, c, 5);
  c.require(answers.size() == expects.size(), "answers missing");
  for (size_t i = 0; i < expects.size(); i++) expects[i].second(answers[i], "step " + std::to_string(i + 1) + ", " + expects[i].first + ": ");
  if (fed >= 3 && deleted + refusals >= 1) c.mark();
  if (races) c.label("threads");
  if (deleted) c.label("deletions");
  if (refusals) c.label("refusals");
  if (fed) c.label("messages delivered");
}
}  // namespace

PBT_MAIN("C30", prop, 30000, 2000000, "at least three messages reached a pipeline and a call was refused or deleted a pipeline")
