#include <cstring>
#include <map>
#include <set>

#include "../child.h"

using nlohmann::json;

// Histories of input messages, publications and clients in front of the server, whose surroundings (redis, websockets,
// configuration files) are stand-ins in the same process; each case is a server of its own.
namespace {
uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

Child& child() {
  static Child c({std::string(BUILD_DIR) + "/rust/target/debug/server_child"});
  return c;
}

// a path of one to three members (or elements), and the document that has a value there
struct Path {
  struct Step {
    bool element;
    std::string name;
    size_t index;
  };
  std::vector<Step> steps;
  std::string text() const {
    std::string r = "$";
    size_t k = 0;
    for (auto& s : steps) {
      if (s.element)
        r += "[" + std::to_string(s.index) + "]";
      else if (s.name.find_first_of(" -.") != std::string::npos || (s.name.size() + k) % 5 == 4)
        r += "['" + s.name + "']";
      else
        r += "." + s.name;
      k++;
    }
    return r;
  }
  void put(json& doc, const json& v) const {
    json* at = &doc;
    for (auto& s : steps) {
      if (s.element) {
        if (!at->is_array()) *at = json::array();
        while (at->size() <= s.index) at->push_back(json(nullptr));
        at = &(*at)[s.index];
      } else {
        if (!at->is_object()) *at = json::object();
        at = &(*at)[s.name];
      }
    }
    *at = v;
  }
};

// every path begins with a member of its own, so that they do not disturb each other
Path path(pbt::Source& s, const std::string& first) {
  Path p;
  p.steps.push_back({false, first + (s.chance(1, 6) ? " x" : s.chance(1, 6) ? "-y.z" : ""), 0});
  size_t n = s.below(3);
  static const std::vector<std::string> names = {"a", "b", "data", "T", "p"};
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 3))
      p.steps.push_back({true, "", s.below(3)});
    else
      p.steps.push_back({false, names[s.below(names.size())], 0});
  }
  return p;
}

std::string toml(const std::string& t) {
  return json(t).dump();  // a basic string of TOML has the same escapes
}

double number(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return (double)s.range(-20, 20);
    case 1: return (double)s.range(-400, 400) / 8;
    case 2: return s.oneof<double>({0.1, -0.0, 1e300, -2.5e-300, 1.0 / 3, 27123.4500001, 4503599627370497.5});
    case 3: return (double)s.range(1, 2000000) / 100;
    case 4: return (double)s.range(-9, 9) * 1e15;
    default: return (double)s.range(0, 1000000) * 1e-8;
  }
}

std::string digits(pbt::Source& s, double v) {
  char b[64];
  const char* f = s.oneof<const char*>({"%.17g", "%.2f", "%.8f", "%g", "%.3e"});
  if (std::abs(v) > 1e20) f = "%.17g";
  snprintf(b, sizeof b, f, v);
  std::string r = b;
  if (s.chance(1, 8) && r[0] != '-') r = "+" + r;
  if (s.chance(1, 8) && r.find_first_of(".e") == std::string::npos) r += ".";
  return r;
}

std::string words(pbt::Source& s) {
  return s.oneof<const char*>({"", "abc", "1,5", "0x10", " 1", "1 2", "--3", "1e", "five", "1_000"});
}

uint64_t instant(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return s.below(50);
    case 1: return 1700000000000ull + s.below(100000);
    case 2: return (1ull << 53) + s.below(100);
    default: return 4294967290ull + s.below(20);
  }
}

// serde_json reads the numbers of a document to the last digit but one
bool close(double a, double b, bool exact) { return bits(a) == bits(b) || (!exact && std::abs(a - b) <= std::abs(b) * 1e-15); }

void prop(pbt::Source& s, pbt::Ctx& c) {
  // the configuration
  Path time = path(s, "T");
  std::vector<Path> values;
  size_t nv = 1 + s.below(3);
  for (size_t i = 0; i < nv; i++) values.push_back(path(s, std::string(1, (char)('p' + i))));
  json prog = {{"title", s.oneof<const char*>({"a", "Moving \"average\"", "l\xC3\xADnea\nnext", "back\\slash"})}, {"operators", json::array({{{"id", "in"}, {"type", "Input"}}})}, {"n", s.below(100)}};
  std::string program = prog.dump((int)s.range(-1, 2));
  int port = s.chance(1, 4) ? -1 : (int)s.oneof<int64_t>({80, 8080, 9890, 65535});
  bool split = s.chance(1, 4);
  std::string server = "url = \"http://localhost\"\n" + (port >= 0 && !split ? "port = " + std::to_string(port) + "\n" : "");
  std::string url = s.oneof<const char*>({"wss://stream.example.com:443/ws/btcusdt@aggTrade", "ws://localhost:80/in"});
  std::string remap = "[input_ws.json_remap]\ntimestamp = " + toml(time.text()) + "\nvalues = [";
  for (size_t i = 0; i < nv; i++) remap += (i ? ", " : "") + toml(values[i].text());
  remap += "]\n";
  std::string text = server + "[input_ws]\nurl = " + toml(url) + "\noperator_id = \"i1\"\n[redis]\nurl = \"redis://localhost:6379\"\n" + remap +
                     "[rtbot.program]\njson = " + toml(program) + "\n";
  json scenario;
  scenario["files"] = json::object();
  scenario["files"]["resources/rtbot-server.toml"] = text;
  if (split) scenario["files"]["resources/a-other.toml"] = "# what is set here comes first\nport = 1\n[redis]\nurl = \"redis://nowhere\"\n";
  if (split && port >= 0) scenario["files"]["resources/s-port.toml"] = "port = " + std::to_string(port) + "\n";
  int expectPort = port >= 0 ? port : split ? 1 : 9889;

  // the history and what should come of it
  struct Step {
    std::string what;
    std::vector<std::pair<uint64_t, double>> stored;
    std::vector<bool> refused, exact;
    std::map<uint64_t, std::vector<std::pair<uint64_t, std::vector<std::string>>>> sent;
    std::vector<std::pair<int, std::string>> replies;  // an empty body: whatever it is
  };
  std::vector<Step> all;
  json steps = json::array();
  std::set<uint64_t> here;
  std::map<uint64_t, std::vector<std::pair<uint64_t, std::vector<std::string>>>> held;  // slow clients
  uint64_t next = 1, failing = 0;
  bool open = true;
  size_t storedAll = 0, sentAll = 0, skipped = 0, left = 0, slowed = 0, failed = 0;
  int n = (int)s.range(4, 18 + 10 * (s.sizeFactor - 1));
  for (int i = 0; i < n; i++) {
    Step e;
    json step = json::array();
    int events = s.chance(1, 2) ? 1 : s.chance(1, 12) ? (int)s.range(20, 80) : (int)s.range(1, 6);
    switch (s.weighted({6, 5, 3, 2, 1, 1, 1, 1})) {
      case 0: {  // messages on the input
        for (int k = 0; k < events; k++) {
          json m;
          std::string raw;
          uint64_t t = instant(s);
          double v = number(s);
          bool ok = true, text = true;
          json doc = json::object();
          if (s.flip()) doc["e"] = "aggTrade";
          switch (s.weighted({12, 3, 1, 1})) {
            case 0: {
              time.put(doc, t);
              if (s.chance(2, 3)) {
                std::string d = digits(s, v);
                v = strtod(d.c_str(), nullptr);
                values[0].put(doc, d);
              } else {
                text = false;
                if (s.chance(1, 3) && std::abs(v) < 1e15 && v == std::floor(v) && !std::signbit(v))
                  values[0].put(doc, (int64_t)v);
                else
                  values[0].put(doc, v);
              }
              break;
            }
            case 1: {
              ok = false;
              // one of the two is missing or is nothing of the kind
              bool atTime = s.flip();
              if (!atTime || s.flip()) {
                if (atTime)
                  time.put(doc, s.oneof<json>({json(-5), json(2.5), json("soon"), json(nullptr), json(true), json::array()}));
                else
                  time.put(doc, t);
              }
              if (atTime || s.flip()) {
                if (atTime)
                  values[0].put(doc, digits(s, v));
                else
                  values[0].put(doc, s.flip() ? json(words(s)) : s.oneof<json>({json(nullptr), json(false), json::object(), json::array({"1"})}));
              }
              break;
            }
            case 2:
              ok = false;
              raw = s.oneof<const char*>({"", "hello", "{\"T\":", "[1,2", "{}", "null", "[]", "12", "{\"result\":null,\"id\":1}"});
              break;
            default:
              ok = false;
              if (s.flip())
                m["binary"] = "{\"T\":1}";
              else
                m["ping"] = true;
          }
          if (m.is_null()) {
            // the other values may be there or not
            for (size_t q = 1; q < nv; q++)
              if (s.chance(2, 3)) values[q].put(doc, s.flip() ? json(digits(s, number(s))) : json(words(s)));
            if (raw.empty() && !(doc.empty() && !ok)) raw = doc.dump();
            m["text"] = raw;
          }
          e.what += (k ? ", " : "") + ("message " + m.dump());
          step.push_back(m);
          if (!open) continue;
          if (!ok) {
            skipped++;
            continue;
          }
          e.stored.push_back({t, v});
          e.refused.push_back(failing > 0);
          e.exact.push_back(text);
          if (failing)
            failing--;
          else
            storedAll++;
        }
        break;
      }
      case 1: {  // what the program emits
        for (int k = 0; k < events; k++) {
          uint64_t t = instant(s);
          std::vector<std::string> vs;
          size_t cnt = s.chance(1, 5) ? 1 + s.below(3) : 1;
          std::string p = std::to_string(t);
          for (size_t q = 0; q < cnt; q++) {
            vs.push_back(digits(s, number(s)));
            p += "," + vs.back();
          }
          bool other = s.chance(1, 10);
          json m = {{"publish", p}};
          if (other) m["elsewhere"] = s.oneof<const char*>({"p:o:other:ps", "p:o:", "news"});
          step.push_back(m);
          e.what += (k ? ", " : "") + ("publication " + m.dump());
          if (other) continue;
          for (auto id : here) {
            auto h = held.find(id);
            (h == held.end() ? e.sent[id] : h->second).push_back({t, vs});
            sentAll++;
          }
        }
        break;
      }
      case 2: {  // clients arrive
        for (int k = 0; k < std::min(events, 3); k++) {
          uint64_t id = next++;
          here.insert(id);
          step.push_back({{"get", "ws"}, {"client", id}});
          e.replies.push_back({101, ""});
          e.what += (k ? ", " : "") + ("client " + std::to_string(id) + " arrives");
        }
        break;
      }
      case 3: {  // one goes away without a word
        if (here.empty()) continue;
        auto it = here.begin();
        std::advance(it, s.below(here.size()));
        e.what = "client " + std::to_string(*it) + " is gone";
        step.push_back({{"leave", *it}});
        held.erase(*it);
        here.erase(it);
        left++;
        break;
      }
      case 4: {  // one reads slowly, or again
        if (here.empty()) continue;
        auto it = here.begin();
        std::advance(it, s.below(here.size()));
        auto h = held.find(*it);
        if (h == held.end()) {
          held[*it];
          step.push_back({{"slow", *it}});
          e.what = "client " + std::to_string(*it) + " does not read";
          slowed++;
        } else {
          if (!h->second.empty()) e.sent[*it] = h->second;
          held.erase(h);
          step.push_back({{"awake", *it}});
          e.what = "client " + std::to_string(*it) + " reads again";
        }
        break;
      }
      case 5: {  // redis refuses
        failing = 1 + s.below(3);
        failed++;
        step.push_back({{"fail", failing}});
        e.what = "redis refuses the next " + std::to_string(failing) + " samples";
        break;
      }
      case 6: {  // other requests
        for (int k = 0; k < events; k++) {
          bool health = s.flip();
          std::string p = health ? "health-check" : s.oneof<const char*>({"", "health", "nothing/here", "wss", "healthcheck"});
          step.push_back({{"get", p}});
          e.replies.push_back({health ? 200 : 404, health ? "Server OK" : "{\"detail\":\"Not found\"}"});
          e.what += (k ? ", " : "") + ("request for /" + p);
        }
        break;
      }
      case 7: {  // the input ends
        if (!s.chance(1, 3)) continue;
        open = false;
        step.push_back(s.flip() ? json{{"end", true}} : json{{"broken", true}});
        e.what = "the input ends";
        break;
      }
    }
    steps.push_back(step);
    all.push_back(e);
  }
  scenario["steps"] = steps;
  c.log([&](std::ostream& o) {
    for (auto& [f, t] : scenario["files"].items()) o << f << ":\n" << t.get<std::string>() << "\n";
    for (size_t i = 0; i < all.size(); i++) o << i + 1 << ": " << all[i].what << "\n";
  });

  json a = child().ask(scenario, c);
  if (a.contains("died")) c.fail("the server ended with " + a["died"].dump());
  c.require(a["steps"].size() == all.size() + 1, "answers are missing");

  // the start
  json start = a["steps"][0];
  c.require(start["port"] == expectPort, "it listens to port " + start["port"].dump() + " instead of " + std::to_string(expectPort));
  std::string inputKey, outputKey, programKey, shown = start["events"].dump();
  int created = -1, stored = -1, run = -1, connected = -1, subscribed = -1;
  for (size_t i = 0; i < start["events"].size(); i++) {
    json e = start["events"][i];
    int at = (int)i;
    if (e.contains("redis")) {
      std::string cmd = e["redis"];
      for (auto& ch : cmd) ch = (char)toupper(ch);
      json args = e["args"];
      if (cmd == "TS.CREATE") {
        c.require(created < 0, "two series are created: " + shown);
        created = at;
        inputKey = args.at(0);
        bool last = false;
        for (size_t k = 1; k + 1 < args.size(); k++) last = last || (args[k] == "DUPLICATE_POLICY" && args[k + 1] == "LAST");
        c.require(last, "of two messages with the same time the last one should count: " + shown);
      } else if (cmd == "JSON.SET") {
        c.require(stored < 0 && args.size() == 3 && args[1] == "$", "the program is not stored as one document: " + shown);
        stored = at;
        programKey = args[0];
        c.require(args[2] == program, "the stored program " + args[2].dump() + " is not the configured one " + json(program).dump());
      } else if (cmd == "RTBOT.XRUN") {
        c.require(run < 0 && args.size() == 3, "the program is not run once: " + shown);
        run = at;
        c.require(created >= 0 && stored >= 0, "the program is run before its keys exist: " + shown);
        c.require(args[0] == programKey && args[1] == inputKey, "the program is run with other keys: " + shown);
        outputKey = args[2];
      } else
        c.fail("an unexpected command: " + shown);
    } else if (e.contains("subscribe")) {
      c.require(subscribed < 0 && run >= 0 && e["subscribe"] == outputKey + ":ps", "it does not listen to the outputs of the program: " + shown);
      subscribed = at;
    } else if (e.contains("input")) {
      c.require(connected < 0 && e["input"] == url, "it does not connect to the input: " + shown);
      connected = at;
    } else
      c.fail("an unexpected event: " + shown);
  }
  c.require(run >= 0 && subscribed >= 0 && connected > run, "the start is not complete: " + shown);
  c.require(std::set<std::string>{programKey, inputKey, outputKey}.size() == 3, "the keys are not different: " + shown);

  for (size_t i = 0; i < all.size(); i++) {
    auto& e = all[i];
    json got = a["steps"][i + 1];
    std::string w = "step " + std::to_string(i + 1) + ", " + e.what + ": ";
    std::vector<json> adds;
    std::map<uint64_t, std::vector<json>> sent;
    for (auto& ev : got["events"]) {
      if (ev.contains("redis"))
        adds.push_back(ev);
      else if (ev.contains("client"))
        sent[ev["client"].get<uint64_t>()].push_back(ev["text"]);
      else
        c.fail(w + "an unexpected event " + ev.dump());
    }
    if (adds.size() != e.stored.size())
      c.fail(w + std::to_string(adds.size()) + " samples went to redis instead of " + std::to_string(e.stored.size()) + ": " + json(adds).dump());
    for (size_t k = 0; k < adds.size(); k++) {
      json args = adds[k]["args"];
      bool ok = adds[k]["redis"] == "TS.ADD" && args.size() == 3 && args[0] == inputKey;
      if (ok) {
        std::string ts = args[1], vs = args[2];
        char* end = nullptr;
        ok = ts == std::to_string(e.stored[k].first) && close(strtod(vs.c_str(), &end), e.stored[k].second, e.exact[k]) && end && !*end;
      }
      if (!ok) c.fail(w + adds[k].dump() + " should store " + std::to_string(e.stored[k].first) + ", " + json(e.stored[k].second).dump() + " in " + inputKey);
      c.require(adds[k]["refused"] == e.refused[k], w + "the samples are in another order");
    }
    for (auto& [id, ms] : e.sent) {
      auto& g = sent[id];
      if (g.size() != ms.size()) c.fail(w + "client " + std::to_string(id) + " got " + std::to_string(g.size()) + " messages instead of " + std::to_string(ms.size()) + ": " + json(g).dump());
      for (size_t k = 0; k < ms.size(); k++) {
        json m = json::parse(g[k].get<std::string>(), nullptr, false);
        if (!m.is_object() || m.size() != 2 || m.value("timestamp", json()) != json(ms[k].first) || m.value("values", json()) != json(ms[k].second))
          c.fail(w + "client " + std::to_string(id) + " got " + g[k].dump() + " instead of " + std::to_string(ms[k].first) + ", " + json(ms[k].second).dump());
      }
    }
    for (auto& [id, g] : sent)
      if (!e.sent.count(id) && !g.empty()) c.fail(w + "client " + std::to_string(id) + " got " + json(g).dump());
    c.require(got["replies"].size() == e.replies.size(), w + "replies are missing");
    for (size_t k = 0; k < e.replies.size(); k++) {
      json r = got["replies"][k];
      if (r["code"] != e.replies[k].first || (!e.replies[k].second.empty() && r["body"] != e.replies[k].second))
        c.fail(w + "the reply is " + r.dump() + " instead of " + std::to_string(e.replies[k].first) + " " + e.replies[k].second);
    }
  }
  if (storedAll) c.label("samples stored");
  if (sentAll) c.label("publications passed on");
  if (skipped) c.label("messages that give no sample");
  if (left) c.label("a client that goes away");
  if (slowed) c.label("a client that does not read");
  if (failed) c.label("redis refuses samples");
  if (storedAll >= 2 && sentAll >= 2 && (skipped || left || slowed || failed)) c.mark();
}
}  // namespace

PBT_MAIN("C34", prop, 30000, 600000, "two samples were stored, two publications passed on, and a message gave no sample, a client went away or did not read, or redis refused a sample")
