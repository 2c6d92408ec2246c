// The engine behind pbt.h: workers, crash and hang capture, shrinking, replay, statistics.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <unordered_set>

#include "pbt.h"

namespace pbt {

enum Outcome { PASS, FAIL, DISCARD };

static Outcome run_case(const Config& cfg, Source& s, Ctx& c, std::string& msg) {
  try {
    cfg.prop(s, c);
    return PASS;
  } catch (const Discard&) {
    return DISCARD;
  } catch (const Failure& f) {
    msg = f.msg;
    return FAIL;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return FAIL;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return FAIL;
  }
}

static uint64_t hash_choices(const std::vector<uint32_t>& v) {
  uint64_t h = 1469598103934665603ull;
  for (auto x : v) h = mix(h ^ x);
  return h;
}

static void arm(int seconds) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  memset(p, 0, sizeof(Shared));
  return (Shared*)p;
}

constexpr int CASE_CPU_S = 20;
static std::string workDir = ".";

// cases run in the same process before the candidate, for failures that need what an earlier case left behind
static std::vector<uint64_t> before;
static uint64_t beforeSeed = 0;

static uint64_t case_state(const Config& cfg, uint64_t seed, uint64_t i) {
  uint64_t h = mix(seed);
  for (const char* p = cfg.id; *p; p++) h = mix(h ^ (uint64_t)*p);
  return mix(h ^ mix(i));
}

// run one candidate in a child; true when it fails. `out` gets the choices really consumed.
static bool child_fails(const Config& cfg, const std::vector<uint32_t>& cand, bool thorough, std::vector<uint32_t>& out,
                        std::string& msg, std::string* desc = nullptr, int cpu = CASE_CPU_S) {
  static Shared* sh = new_shared();
  sh->n = 0;
  sh->done = 0;
  sh->failed = 0;
  sh->msg[0] = 0;
  std::string tmp = workDir + "/case_desc_" + std::to_string(getpid()), err = workDir + "/case_err_" + std::to_string(getpid());
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    if (!getenv("PBT_STDERR")) {
      if (desc) dn = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(dn, 2);
    }
    signal(SIGVTALRM, SIG_DFL);
    sh->failed = 2;  // until the candidate itself starts
    for (uint64_t i : before) {
      arm(CASE_CPU_S);
      Source q;
      q.state = case_state(cfg, beforeSeed, i);
      q.sizeFactor = thorough ? 3 : 1;
      Ctx c;
      c.thorough = thorough;
      std::string m;
      run_case(cfg, q, c, m);
    }
    sh->failed = 0;
    arm(cpu);
    Source s;
    s.sh = sh;
    s.replay = true;
    s.given = cand;
    s.sizeFactor = thorough ? 3 : 1;
    Ctx c;
    c.verbose = desc != nullptr;
    c.thorough = thorough;
    if (desc) c.path = tmp;
    std::string m;
    Outcome o = run_case(cfg, s, c, m);
    strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
    sh->failed = o == FAIL;
    sh->done = 1;
    _exit(o == FAIL ? 10 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::string detail;
  out.assign(sh->choices, sh->choices + sh->n);
  if (desc) {
    std::ifstream f(tmp);
    std::stringstream ss;
    ss << f.rdbuf();
    *desc = ss.str();
    unlink(tmp.c_str());
    std::ifstream e(err);
    std::string line;
    while (std::getline(e, line))
      if (line.find("ERROR:") != std::string::npos || line.find("runtime error:") != std::string::npos ||
          line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos)
        detail += (detail.empty() ? ": " : "; ") + line.substr(0, 300);
    unlink(err.c_str());
  }
  if (sh->done) {
    msg = sh->msg;
    return sh->failed;
  }
  if (sh->failed == 2) return false;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM)
    msg = "the case did not terminate within " + std::to_string(cpu) + " s of CPU time";
  else if (WIFSIGNALED(st))
    msg = std::string("the process was killed by signal ") + strsignal(WTERMSIG(st));
  else
    msg = "the process died (sanitizer report or abort), exit code " + std::to_string(WEXITSTATUS(st));
  msg += detail;
  return true;
}

static bool less_choices(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static std::vector<uint32_t> shrink(const Config& cfg, std::vector<uint32_t> best, bool thorough, double budget,
                                    std::string& msg) {
  double end = now() + budget;
  auto attempt = [&](std::vector<uint32_t> cand) {
    if (now() > end) return false;
    std::vector<uint32_t> used;
    std::string m;
    if (child_fails(cfg, cand, thorough, used, m, nullptr, 5) && less_choices(used, best)) {
      best = used;
      msg = m;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete blocks, largest first
    for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1; block /= 2) {
      for (size_t i = best.size(); i >= block && now() < end;) {
        i = i >= block ? i - block : 0;
        if (i + block > best.size()) {
          if (best.size() < block) break;
          i = best.size() - block;
        }
        std::vector<uint32_t> cand(best);
        cand.erase(cand.begin() + i, cand.begin() + i + block);
        if (attempt(cand)) progress = true;
        if (i == 0) break;
      }
      if (block == 1) break;
    }
    // delete a block and lower an earlier count
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      if (best[i] == 0 || best[i] > 200) continue;
      for (size_t len = 1; len <= 6 && i + len < best.size() && now() < end; len++)
        for (size_t at = i + 1; at + len <= best.size() && at < i + 40 && now() < end; at += len) {
          std::vector<uint32_t> cand(best);
          cand[i]--;
          cand.erase(cand.begin() + at, cand.begin() + at + len);
          if (attempt(cand)) {
            progress = true;
            break;
          }
        }
    }
    // zero blocks
    for (size_t block = std::max<size_t>(1, best.size() / 4); block >= 1; block /= 2) {
      for (size_t i = 0; i + block <= best.size() && now() < end; i += block) {
        bool all0 = true;
        std::vector<uint32_t> cand(best);
        for (size_t k = i; k < i + block; k++) {
          all0 = all0 && cand[k] == 0;
          cand[k] = 0;
        }
        if (!all0 && attempt(cand)) progress = true;
      }
      if (block == 1) break;
    }
    // lower single values
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      uint32_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo < hi && now() < end && i < best.size()) {
        uint32_t mid = lo + (hi - lo) / 2;
        std::vector<uint32_t> cand(best);
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          hi = i < best.size() ? std::min(mid, best[i]) : 0;
        } else
          lo = mid + 1;
      }
    }
  }
  return best;
}

// looks for few earlier cases of the same worker after which the candidate fails; leaves them in `before`
static bool find_before(const Config& cfg, const std::vector<uint32_t>& ch, bool thorough, uint64_t seed, uint64_t index, int workers, double budget) {
  double end = now() + budget;
  std::vector<uint32_t> used;
  std::string m;
  auto fails = [&](const std::vector<uint64_t>& b) {
    if (now() > end) return false;
    before = b;
    return child_fails(cfg, ch, thorough, used, m);
  };
  beforeSeed = seed;
  std::vector<uint64_t> all, best;
  for (uint64_t i = index % workers; i < index; i += workers) all.push_back(i);
  bool found = false;
  for (size_t n = 1; !all.empty() && !found; n *= 2) {
    n = std::min(n, all.size());
    best.assign(all.end() - n, all.end());
    found = fails(best);
    if (n == all.size()) break;
  }
  if (found)
    for (size_t block = std::max<size_t>(1, best.size() / 2);; block /= 2) {
      for (size_t i = 0; i < best.size() && now() < end;) {
        std::vector<uint64_t> cand(best);
        cand.erase(cand.begin() + i, cand.begin() + std::min(cand.size(), i + block));
        if (fails(cand))
          best = cand;
        else
          i += block;
      }
      if (block <= 1) break;
    }
  before = found ? best : std::vector<uint64_t>();
  return found;
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"')
      o += "\\\"";
    else if (ch == '\\')
      o += "\\\\";
    else if (ch == '\n')
      o += "\\n";
    else if (ch == '\t')
      o += "\\t";
    else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}

struct Stats {
  uint64_t evaluations = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
  std::vector<std::vector<uint32_t>> samples;
};

static void save_stats(const Stats& st, const std::string& path) {
  std::ofstream f(path, std::ios::binary);
  f << st.evaluations << ' ' << st.discards << ' ' << st.nontrivial << '\n';
  f << st.labels.size() << '\n';
  for (auto& [k, v] : st.labels) f << v << ' ' << k << '\n';
  f << st.samples.size() << '\n';
  for (auto& s : st.samples) {
    f << s.size();
    for (auto x : s) f << ' ' << x;
    f << '\n';
  }
  f << st.hashes.size() << '\n';
  f.write((const char*)st.hashes.data(), st.hashes.size() * 8);
}

static bool load_stats(Stats& st, const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  uint64_t a, b, c;
  size_t n;
  if (!(f >> a >> b >> c >> n)) return false;
  st.evaluations += a;
  st.discards += b;
  st.nontrivial += c;
  for (size_t i = 0; i < n; i++) {
    uint64_t v;
    std::string k;
    f >> v;
    f.get();
    std::getline(f, k);
    st.labels[k] += v;
  }
  f >> n;
  for (size_t i = 0; i < n; i++) {
    size_t m;
    f >> m;
    std::vector<uint32_t> s(m);
    for (auto& x : s) f >> x;
    st.samples.push_back(s);
  }
  f >> n;
  f.get();
  size_t old = st.hashes.size();
  st.hashes.resize(old + n);
  f.read((char*)(st.hashes.data() + old), n * 8);
  return true;
}

static void write_violation(const Config& cfg, const std::string& out, bool thorough, uint64_t seed, uint64_t index, const std::string& msg,
                            const std::vector<uint32_t>& small, const std::string& desc) {
  std::ostringstream o;
  o << "{\n\"property\": \"" << cfg.id << "\",\n\"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n\"seed\": " << seed
    << ",\n\"case\": " << index << ",\n\"before\": [";
  for (size_t i = 0; i < before.size(); i++) o << (i ? "," : "") << before[i];
  o << "],\n\"message\": \"" << esc(msg) << "\",\n\"description\": \"" << esc(desc) << "\",\n\"choices\": [";
  for (size_t i = 0; i < small.size(); i++) o << (i ? "," : "") << small[i];
  o << "]\n}\n";
  std::ofstream(out + "/violation.json") << o.str();
}

// usage: prog --seed S --tier quick|thorough --out DIR [--cases N] [--replay FILE]
// result.json in DIR; exit 0 held, 1 violated, other: error
int main_(int argc, char** argv, const Config& cfg) {
  uint64_t seed = 1, cases = 0, divide = 1;
  bool thorough = false;
  std::string out = ".", replayFile, shrinkFile;
  int workers = 8;
  double budget = 0;  // wall clock limit of the search (thorough only), seconds
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed")
      seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier")
      thorough = v == "thorough";
    else if (a == "--out")
      workDir = out = v;
    else if (a == "--cases")
      cases = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--replay")
      replayFile = v;
    else if (a == "--shrink")
      shrinkFile = v;
    else if (a == "--divide")
      divide = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--workers")
      workers = atoi(v.c_str());
    else if (a == "--budget")
      budget = atof(v.c_str());
  }
  if (!replayFile.empty()) {
    std::ifstream f(replayFile);
    std::string key;
    std::vector<uint32_t> ch;
    // the replay file is json; the choices are on a line of their own
    std::string line;
    bool th = thorough;
    while (std::getline(f, line)) {
      if (line.find("\"tier\": \"thorough\"") != std::string::npos) th = true;
      auto q = line.find("\"before\": [");
      if (q != std::string::npos) {
        std::string t = line.substr(q + 11);
        for (auto& x : t)
          if (x == ',' || x == ']') x = ' ';
        std::istringstream is(t);
        uint64_t v;
        while (is >> v) before.push_back(v);
      }
      q = line.find("\"seed\": ");
      if (q != std::string::npos) beforeSeed = strtoull(line.c_str() + q + 8, nullptr, 10);
      auto p = line.find("\"choices\": [");
      if (p != std::string::npos) {
        std::string t = line.substr(p + 12);
        for (auto& x : t)
          if (x == ',' || x == ']' || x == '}') x = ' ';
        std::istringstream is(t);
        uint32_t v;
        while (is >> v) ch.push_back(v);
      }
    }
    std::vector<uint32_t> used;
    std::string msg, desc;
    bool fails = child_fails(cfg, ch, th, used, msg, &desc);
    std::cout << desc << "\n" << (fails ? "FAILS: " + msg : std::string("passes")) << std::endl;
    return fails ? 1 : 0;
  }
  if (!shrinkFile.empty()) {
    // choices found by the coverage-guided search: confirm, shrink, write violation.json
    std::ifstream f(shrinkFile);
    std::vector<uint32_t> ch, used;
    uint32_t v;
    while (f >> v) ch.push_back(v);
    std::string msg, desc;
    if (!child_fails(cfg, ch, thorough, used, msg)) return 0;
    if (used.size() <= ch.size()) ch = used;
    auto small = shrink(cfg, ch, thorough, 45, msg);
    if (!child_fails(cfg, small, thorough, used, msg, &desc)) child_fails(cfg, small = ch, thorough, used, msg, &desc);
    write_violation(cfg, out, thorough, seed, 0, msg, small, desc);
    return 1;
  }
  if (!cases) cases = (thorough ? cfg.thorough : cfg.quick) / divide;
  double t0 = now();
  std::vector<pid_t> pids(workers);
  std::vector<Shared*> shs(workers);
  fflush(stdout);
  for (int w = 0; w < workers; w++) {
    shs[w] = new_shared();
    pids[w] = fork();
    if (pids[w] == 0) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      int lg = open((out + "/worker" + std::to_string(w) + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(lg, 2);
      signal(SIGVTALRM, SIG_DFL);
      Stats st;
      Shared* sh = shs[w];
      for (uint64_t i = w; i < cases; i += workers) {
        if (budget > 0 && (i & 255) < (uint64_t)workers && now() - t0 > budget) break;
        arm(CASE_CPU_S);
        sh->n = 0;
        sh->caseIndex = i;
        Source s;
        s.sh = sh;
        s.state = case_state(cfg, seed, i);
        s.sizeFactor = thorough ? 3 : 1;
        Ctx c;
        c.thorough = thorough;
        std::string msg;
        Outcome o = run_case(cfg, s, c, msg);
        if (o == FAIL) {
          strncpy(sh->msg, msg.c_str(), sizeof(sh->msg) - 1);
          sh->failed = 1;
          sh->done = 1;
          save_stats(st, out + "/worker" + std::to_string(w) + ".stats");
          _exit(10);
        }
        st.evaluations++;
        if (o == DISCARD)
          st.discards++;
        else {
          for (auto& l : c.labels) st.labels[l]++;
          if (c.nontrivial) {
            st.nontrivial++;
            st.hashes.push_back(hash_choices(s.used));
            if (st.samples.size() < 2 && s.used.size() < 400 && (st.nontrivial % 7) == 3) st.samples.push_back(s.used);
          }
        }
      }
      arm(0);
      save_stats(st, out + "/worker" + std::to_string(w) + ".stats");
      sh->done = 1;
      _exit(0);
    }
  }
  // wait; on a failure let the others stop
  bool anyFail = false;
  int failed = -1;
  uint64_t failedIndex = ~0ull;
  std::string failMsg;
  int left = workers;
  std::vector<bool> alive(workers, true);
  while (left > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1;
    for (int k = 0; k < workers; k++)
      if (pids[k] == p) w = k;
    if (w < 0) continue;
    alive[w] = false;
    left--;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !shs[w]->failed) {
      if (anyFail) continue;  // ended by us below, or by the memory guard
    }
    std::string m;
    if (shs[w]->failed)
      m = shs[w]->msg;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM)
      m = "the case did not terminate within " + std::to_string(CASE_CPU_S) + " s of CPU time";
    else
      m = "the process died (sanitizer report, abort or signal)";
    anyFail = true;
    if (shs[w]->caseIndex < failedIndex) {
      failed = w;
      failedIndex = shs[w]->caseIndex;
      failMsg = m;
    }
    if (left > 0) {
      usleep(200000);  // a little time for the other workers to find an earlier failing case
      for (int k = 0; k < workers; k++)
        if (alive[k] && !shs[k]->failed) kill(pids[k], SIGKILL);
    }
  }
  Stats total;
  for (int w = 0; w < workers; w++) load_stats(total, out + "/worker" + std::to_string(w) + ".stats");
  std::sort(total.hashes.begin(), total.hashes.end());
  uint64_t distinct = std::unique(total.hashes.begin(), total.hashes.end()) - total.hashes.begin();

  int rc = 0;
  if (anyFail) {
    std::vector<uint32_t> ch(shs[failed]->choices, shs[failed]->choices + shs[failed]->n);
    // reproduce before believing it
    int fails = 0;
    std::vector<uint32_t> used;
    std::string m;
    for (int k = 0; k < 3; k++) fails += child_fails(cfg, ch, thorough, used, m);
    if (fails == 0 && find_before(cfg, ch, thorough, seed, failedIndex, workers, 60)) {
      fails = child_fails(cfg, ch, thorough, used, m);
      m += " (after " + std::to_string(before.size()) + " earlier cases in the same process)";
    }
    if (fails == 0 && getenv("PBT_INSIST")) {
      // failed in two searches, each time only once
      failMsg += " (seen in two searches, does not reproduce on its own)";
      std::string desc;
      child_fails(cfg, ch, thorough, used, m, &desc);
      write_violation(cfg, out, thorough, seed, failedIndex, failMsg, ch, desc);
      rc = 1;
    } else if (fails == 0) {
      std::cerr << "case " << failedIndex << " failed once (" << failMsg << ") and does not reproduce" << std::endl;
      rc = 3;
    } else {
      failMsg = m;
      if (used.size() <= ch.size()) ch = used;
      std::vector<uint32_t> small = shrink(cfg, ch, thorough, 45, failMsg);
      std::string desc, m2;
      bool again = true;
      for (int k = 0; k < 3 && again; k++) again = child_fails(cfg, small, thorough, used, m2, &desc);
      if (again) failMsg = m2;
      if (!again) {
        small = ch;
        child_fails(cfg, small, thorough, used, failMsg, &desc);
      }
      write_violation(cfg, out, thorough, seed, failedIndex, failMsg, small, desc);
      rc = 1;
    }
  } else {
    unlink((out + "/violation.json").c_str());
  }
  std::vector<std::string> samples;
  for (auto& s : total.samples) {
    if (samples.size() >= 5) break;
    std::vector<uint32_t> used;
    std::string m, d;
    child_fails(cfg, s, thorough, used, m, &d);
    if (d.size() > 1500) d = d.substr(0, 1500) + "...";
    samples.push_back(d);
  }
  std::ofstream r(out + "/result.json");
  r << "{\"evaluations\": " << total.evaluations << ", \"discards\": " << total.discards
    << ", \"nontrivial\": " << total.nontrivial << ", \"distinct_nontrivial\": " << distinct << ", \"labels\": {";
  bool first = true;
  for (auto& [k, v] : total.labels) {
    r << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
    first = false;
  }
  r << "}, \"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) r << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
  r << "], \"rule\": \"" << esc(cfg.rule) << "\", \"wall_s\": " << (now() - t0) << "}\n";
  r.close();
  if (rc == 1) std::cout << failMsg << std::endl;
  return rc;
}


// one input of the coverage-guided search; PBT_DUMP names a file that gets its choices
int fuzz_(const uint8_t* data, size_t size, const Config& cfg) {
  static int dump = getenv("PBT_DUMP") ? open(getenv("PBT_DUMP"), O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
  static bool silent = [] {
    std::cout.setstate(std::ios::failbit);
    return true;
  }();
  (void)silent;
  Source s;
  s.bytes = data;
  s.bytesEnd = data + size;
  s.dump = dump;
  s.sizeFactor = 3;
  Ctx c;
  c.thorough = true;
  std::string m;
  if (size == 0) return -1;
  Outcome o = run_case(cfg, s, c, m);
  if (o == FAIL) {
    std::cerr << "FAILS: " << m << std::endl;
    __builtin_trap();
  }
  return o == DISCARD ? -1 : 0;
}

void Ctx::flush() {
  if (path.empty()) return;
  std::ofstream f(path);
  f << desc.str();
}

}  // namespace pbt
