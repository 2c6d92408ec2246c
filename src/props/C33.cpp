#include <cstring>
#include <map>
#include <set>

#include "../child.h"

using nlohmann::json;

// Histories of commands sent to a server that has loaded the module, next to a model of its keys and live pipelines.
namespace {
uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

Child& child() {
  static Child c({std::string(BUILD_DIR) + "/rust/target/debug/redis_child"});
  return c;
}

struct Pipe {
  double gain = 1, sum = 0;
  uint64_t every = 1, burst = 1, lag = 0, seen = 0;
  bool receive(uint64_t t, double v, std::pair<uint64_t, double>& out) {
    seen++;
    sum += v;
    if (seen % every || !burst) return false;
    out = {t >= lag ? t - lag : 0, sum * gain};
    return true;
  }
};

struct Item {
  enum Kind { Text, Json, Series } kind = Text;
  std::string text;
  bool lastWins = false;
  std::map<uint64_t, double> samples;
  // for documents: what they describe
  bool accepted = false;
  Pipe pipe;
};
using Db = std::map<std::string, Item>;

struct State {
  Db db;
  std::map<std::pair<std::string, std::string>, Pipe> live;
  bool add(const std::string& key, uint64_t t, double v) {
    auto [it, fresh] = db.try_emplace(key);
    if (fresh) it->second.kind = Item::Series;
    Item& s = it->second;
    if (s.kind != Item::Series) return false;
    if (s.samples.count(t) && !s.lastWins) return false;
    s.samples[t] = v;
    return true;
  }
};

json shown(const Db& db) {
  json o = json::object();
  for (auto& [k, i] : db) {
    if (i.kind == Item::Text)
      o[k] = {{"text", i.text}};
    else if (i.kind == Item::Json)
      o[k] = {{"json", i.text}};
    else {
      json a = json::array();
      for (auto& [t, v] : i.samples) a.push_back(json::array({t, bits(v)}));
      o[k] = a;
    }
  }
  return o;
}

double value(pbt::Source& s) { return s.chance(1, 6) ? s.oneof({0.1, -1e100, 1e-310, 1.0 / 3, -0.0, 12345678.125, 1e21}) : s.range(-16, 16) / 4.0; }

// a program the engine accepts, or one nobody does
Item document(pbt::Source& s, std::string& what) {
  Item d;
  d.kind = Item::Json;
  json ops = json::array(), cons = json::array();
  std::vector<std::string> ids;
  for (int n = (int)s.range(1, 4), i = 0; i < n; i++) {
    std::string id = s.chance(1, 6) ? s.oneof<const char*>({"", " ", "a b", "\xc3\xa9", "7"}) + std::to_string(i) : "op" + std::to_string(i);
    ids.push_back(id);
    json op = {{"id", id}, {"type", i == 0 ? "Input" : s.oneof<const char*>({"MovingAverage", "Output", "Scale", "Join", "Pipeline", "Variable"})}};
    if (s.flip()) op["n"] = s.range(1, 9);
    if (s.chance(1, 3)) op["coeff"] = json::array({0.5, -1});
    if (s.chance(1, 4)) op["portType"] = "double";
    if (s.chance(1, 5)) op["operators"] = json::array({json{{"id", "x"}, {"type", "Input"}}});
    if (s.chance(1, 8)) op["entryOperator"] = "x";
    ops.push_back(op);
    if (i) {
      json k = {{"from", ids[s.below(i)]}, {"to", id}};
      if (s.flip()) k["fromPort"] = s.oneof<const char*>({"o1", "o2"});
      if (s.flip()) k["toPort"] = s.oneof<const char*>({"i1", "i2", "c1"});
      cons.push_back(k);
    }
  }
  json p = {{"entryOperator", ids[0]}, {"operators", ops}, {"connections", cons}};
  if (s.flip()) p["title"] = s.oneof<const char*>({"program", "", "a \"quoted\" title", "\xc3\xa9\n%s {}"});
  if (s.chance(1, 3)) p["description"] = "what it does";
  if (s.chance(1, 3)) p["apiVersion"] = "v1";
  if (s.chance(1, 4)) p["author"] = "someone";
  if (s.chance(1, 4)) p["license"] = "private";
  if (s.chance(1, 4)) p["date"] = "2000-01-01";
  if (s.flip()) p["output"] = {{ids.back(), json::array({"o1"})}};
  if (s.chance(1, 6)) p["optim"] = {{"algorithm", "Nelder-Mead"}};
  d.pipe.gain = s.range(-4, 4) / 2.0;
  d.pipe.every = s.chance(1, 2) ? 1 : s.range(2, 4);
  d.pipe.burst = s.chance(7, 8) ? 1 : 0;
  d.pipe.lag = s.chance(3, 4) ? 0 : s.range(1, 6);
  p["gain"] = d.pipe.gain;
  p["every"] = d.pipe.every;
  p["burst"] = d.pipe.burst;
  p["lag"] = d.pipe.lag;
  d.accepted = true;
  what = "";
  if (s.chance(1, 5)) {
    d.accepted = false;
    switch (s.below(10)) {
      case 0: p.erase("operators"); what = "without operators"; break;
      case 1: p.erase("connections"); what = "without connections"; break;
      case 2: p.erase("entryOperator"); what = "without an entry"; break;
      case 3: p["operators"][s.below(ops.size())].erase(s.flip() ? "id" : "type"); what = "with an operator without id or type"; break;
      case 4: p["operators"][s.below(ops.size())][s.flip() ? "id" : "type"] = s.flip() ? json(3) : json(nullptr); what = "with an id or type that is no text"; break;
      case 5: p["connections"].push_back({{s.flip() ? "from" : "to", ids[0]}}); what = "with half a connection"; break;
      case 6: p["operators"] = s.flip() ? json("none") : json{{"id", "x"}}; what = "with operators that are no list"; break;
      case 7: p["connections"].push_back({{"from", ids[0]}, {"to", 7}}); what = "with a connection to a number"; break;
      case 8: p["refuse"] = "Operator with id \"ma1\" was not found"; what = "the engine refuses"; break;
      default: p = json::array({p}); what = "in a list";
    }
  }
  d.text = s.chance(1, 4) ? p.dump(2) : p.dump();
  if (d.accepted && s.chance(1, 30)) {
    d.text.pop_back();
    d.accepted = false;
    what = "cut off";
  }
  return d;
}

struct Expect {
  std::string what;
  bool ok = true;
  bool persists = false, runs = false, gone = false;  // runs: a command of the module
  std::pair<std::string, std::string> pair;
  json db;
  std::vector<std::pair<std::string, std::pair<uint64_t, double>>> published;
  size_t live = 0;
};

void prop(pbt::Source& s, pbt::Ctx& c) {
  State m;
  std::vector<std::string> progs = {"p:1", "p:2", "p:3"}, ins = {"in:a", "in:b"}, outs = {"out:x", "out:y", "out:z"};
  if (s.chance(1, 4)) ins.push_back(s.oneof<const char*>({"in", "in:a:ps", "in with blanks", "\xc3\xa9", "in:\"q\""}));
  if (s.chance(1, 4)) outs.push_back(s.oneof<const char*>({"out", "out:x:ps", "out with blanks", "\xc3\xaa", "-"}));
  std::map<std::string, uint64_t> clock;
  uint64_t start = s.chance(1, 3) ? 0 : s.chance(1, 3) ? (1ull << 53) + 1 : 1700000000123ull;
  json steps = json::array();
  std::vector<Expect> all;
  size_t runs = 0, xruns = 0, refused = 0, fed = 0, shared = 0;

  auto done = [&](Expect e, const std::vector<std::string>& words) {
    e.db = shown(m.db);
    e.live = m.live.size();
    json w = words;
    e.what = w.dump();
    steps.push_back(w);
    all.push_back(std::move(e));
  };
  auto pick = [&](const std::vector<std::string>& v) { return v[s.below(v.size())]; };
  auto define = [&](const std::string& key) {
    std::string what;
    Item d = document(s, what);
    m.db[key] = d;
    done({}, {"JSON.SET", key, "$", d.text});
    if (!what.empty()) c.label("a program " + what);
  };
  auto sample = [&](const std::string& key) {
    auto [it, fresh] = clock.try_emplace(key, start);
    bool again = !fresh && s.chance(1, 12);
    uint64_t t = again ? it->second : it->second += fresh ? 0 : s.range(1, 5);
    double v = value(s);
    Expect e;
    e.ok = m.add(key, t, v);
    if (e.ok)
      for (auto& [io, p] : m.live)
        if (io.first == key) {
          std::pair<uint64_t, double> out;
          fed++;
          if (!p.receive(t, v, out)) continue;
          m.add(io.second, out.first, out.second);
          e.published.push_back({io.second + ":ps", out});
        }
    char num[40];
    snprintf(num, sizeof num, "%.17g", v);
    done(e, {s.flip() ? "TS.ADD" : "ts.add", key, std::to_string(t), num});
  };

  // some of what a run needs is there already, most of the time
  for (auto& p : progs)
    if (s.chance(3, 4)) define(p);
  for (auto& k : ins)
    if (s.chance(3, 4)) {
      if (s.flip()) {
        m.db[k] = {};
        m.db[k].kind = Item::Series;
        bool last = m.db[k].lastWins = s.flip();
        std::vector<std::string> w = {"TS.CREATE", k};
        if (last) w.insert(w.end(), {"DUPLICATE_POLICY", "LAST"});
        done({}, w);
      }
      for (int n = (int)s.range(0, 8); n > 0; n--) sample(k);
    }

  for (int n = (int)s.range(1, 24); n > 0; n--) {
    switch (s.weighted({8, 10, 2, 1, 1})) {
      case 0: {
        bool x = s.flip();
        std::string p = pick(progs), in = pick(ins), out = pick(outs);
        std::vector<std::string> w = {x ? s.oneof<const char*>({"RTBOT.XRUN", "rtbot.xrun"}) : s.oneof<const char*>({"RTBOT.RUN", "rtbot.run"}), p, in, out};
        Expect e;
        e.runs = true;
        e.pair = {in, out};
        bool keep = x;
        if (s.chance(1, 12)) {
          w.resize(s.range(1, 3));
          e.ok = false;
        } else if (!x && s.chance(1, 4)) {
          w.push_back(s.oneof<const char*>({"true", "false", "yes", "", "1"}));
          if (w.back() == "true")
            keep = true;
          else if (w.back() != "false")
            e.ok = false;
        }
        auto program = m.db.find(p), input = m.db.find(in);
        if (program == m.db.end() || program->second.kind != Item::Json || !program->second.accepted) e.ok = false;
        if (input == m.db.end() || input->second.kind != Item::Series) e.ok = false;
        if (m.live.count(e.pair)) e.ok = false;
        if (e.ok) {
          Pipe q = program->second.pipe;
          Item o;
          o.kind = Item::Series;
          o.lastWins = true;
          for (auto& l : m.live)
            if (l.first.first == in || l.first.second == out) shared++;
          for (auto& [t, v] : input->second.samples) {
            std::pair<uint64_t, double> r;
            if (q.receive(t, v, r)) o.samples[r.first] = r.second;
          }
          m.db[out] = o;
          if (keep) m.live[e.pair] = q;
          e.persists = keep;
          (keep ? xruns : runs)++;
        } else
          refused++;
        done(e, w);
        break;
      }
      case 1: sample(pick(ins)); break;
      case 2: define(pick(progs)); break;
      case 3: {  // something else under a key
        std::string k = s.flip() ? pick(outs) : s.flip() ? pick(ins) : pick(progs);
        m.db[k] = {};
        m.db[k].text = "text";
        clock.erase(k);
        done({}, {"SET", k, "text"});
        break;
      }
      default: {
        std::string k = s.flip() ? pick(outs) : s.flip() ? pick(ins) : pick(progs);
        Expect e;
        m.db.erase(k);
        clock.erase(k);
        done(e, {"DEL", k});
      }
    }
  }

  c.log([&](std::ostream& o) {
    for (size_t i = 0; i < all.size(); i++) o << i + 1 << ": " << all[i].what << (all[i].ok ? "" : "   (an error)") << "\n";
  });

  json a = child().ask(steps, c);
  c.require(a.size() == all.size(), "answers are missing");
  std::map<std::pair<std::string, std::string>, std::string> ids;
  for (size_t i = 0; i < all.size(); i++) {
    auto& e = all[i];
    std::string w = "step " + std::to_string(i + 1) + ", " + e.what + ": ";
    if (e.ok != a[i].contains("ok")) c.fail(w + (e.ok ? "was refused: " : "was not refused: ") + (e.ok ? a[i]["error"].dump() : a[i]["ok"].dump()));
    if (!e.ok) c.require(!a[i]["error"].get<std::string>().empty(), w + "gives no reason");
    for (auto& [k, v] : e.db.items()) {
      if (!a[i]["db"].contains(k)) c.fail(w + "the key \"" + k + "\" does not exist, it should hold " + v.dump());
      if (a[i]["db"][k] != v) c.fail(w + "the key \"" + k + "\" holds " + a[i]["db"][k].dump() + " instead of " + v.dump() + " (values as bits)");
    }
    for (auto& [k, v] : a[i]["db"].items())
      if (!e.db.contains(k)) c.fail(w + "the key \"" + k + "\" appeared and holds " + v.dump());
    // published: per channel in order
    std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>> want, got;
    for (auto& [ch, msg] : e.published) want[ch].push_back({msg.first, bits(msg.second)});
    for (auto& pm : a[i]["published"]) {
      std::string t = pm[1];
      size_t comma = t.find(',');
      c.require(comma != std::string::npos, w + "published " + pm.dump());
      char* end = nullptr;
      std::string num = t.substr(0, comma), val = t.substr(comma + 1);
      uint64_t time = strtoull(num.c_str(), &end, 10);
      c.require(!num.empty() && !*end, w + "published " + pm.dump());
      double v = strtod(val.c_str(), &end);
      c.require(!val.empty() && !*end, w + "published " + pm.dump());
      got[pm[0]].push_back({time, bits(v)});
    }
    if (got != want) {
      json x = json::array();
      for (auto& [ch, msg] : e.published) x.push_back(json::array({ch, std::to_string(msg.first) + "," + json(msg.second).dump()}));
      c.fail(w + "published " + a[i]["published"].dump() + " instead of " + x.dump());
    }
    if (e.runs && e.ok && e.persists) {
      std::string id = a[i]["ok"].is_string() ? a[i]["ok"].get<std::string>() : "";
      bool is = false;
      for (auto& l : a[i]["live"]) is = is || l == id;
      c.require(is, w + "answered " + a[i]["ok"].dump() + ", which is not the id of a pipeline: " + a[i]["live"].dump());
      ids[e.pair] = id;
    }
    std::set<std::string> wl, gl;
    for (auto& [p, id] : ids) wl.insert(id);
    for (auto& l : a[i]["live"]) gl.insert(l.get<std::string>());
    if (wl.size() != e.live) c.fail(w + "two live pipelines share an id");
    if (gl != wl) c.fail(w + "the engine holds the pipelines " + a[i]["live"].dump() + " instead of " + json(wl).dump());
  }
  if (runs) c.label("run");
  if (xruns) c.label("run and kept");
  if (refused) c.label("a command that fails");
  if (fed) c.label("samples to live pipelines");
  if (shared) c.label("a run next to live pipelines of a key");
  if ((runs || xruns) && (fed || refused || shared)) c.mark();
}
}  // namespace

PBT_MAIN("C33", prop, 40000, 1000000, "a program was run over a series, and later samples reached a live pipeline, a command failed, or another pipeline used one of the keys")
