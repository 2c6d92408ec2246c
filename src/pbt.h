// Small property-based testing engine: choice sequences, forked workers, crash/hang capture,
// choice-sequence shrinking, replay. No dependency besides libc/libstdc++.
//
// A property is `void prop(pbt::Source& s, pbt::Ctx& c)`: it draws every random decision from `s`,
// fails by calling c.fail(...) (or by letting any exception escape) and rejects a case by c.discard().
#pragma once
#include <stdio.h>

#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

constexpr size_t MAX_CHOICES = 1 << 16;

struct Shared {
  volatile uint64_t caseIndex;
  volatile uint32_t n;  // choices so far
  volatile uint32_t done;
  volatile uint32_t failed;
  char msg[4096];
  uint32_t choices[MAX_CHOICES];
};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

class Source {
 public:
  Shared* sh = nullptr;
  uint64_t state = 0;
  bool replay = false;
  std::vector<uint32_t> given;
  std::vector<uint32_t> used;
  int sizeFactor = 1;  // larger in the thorough tier
  const uint8_t *bytes = nullptr, *bytesEnd = nullptr;  // coverage-guided: where the choices come from
  int dump = -1;                                        // and where they are written to, one per line

  // uniform in [0, n)
  uint64_t below(uint64_t n) {
    uint64_t v = 0;
    if (n == 0) n = 1;
    if (bytes) {
      for (uint64_t m = n - 1; m && bytes < bytesEnd; m >>= 8) v = v << 8 | *bytes++;
      v %= n;
    } else if (replay) {
      v = used.size() < given.size() ? given[used.size()] : 0;
      if (v >= n) v = n - 1;
    } else {
      state += 0x9e3779b97f4a7c15ull;
      v = mix(state) % n;
    }
    if (used.size() >= MAX_CHOICES) throw Discard{};
    used.push_back((uint32_t)v);
    if (dump >= 0) dprintf(dump, "%u\n", (unsigned)v);
    if (sh) {
      sh->choices[used.size() - 1] = (uint32_t)v;
      sh->n = (uint32_t)used.size();
    }
    return v;
  }
  // inclusive range; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)below(den) >= den - num; }  // shrinks to false
  bool flip() { return below(2) == 1; }
  template <class C>
  auto& pick(C& c) {
    return c[below(c.size())];
  }
  template <class T>
  T oneof(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  // index drawn by weight; shrinks towards 0
  size_t weighted(std::initializer_list<int> w) {
    int sum = 0;
    for (int x : w) sum += x;
    int v = (int)below(sum);
    size_t i = 0;
    for (int x : w) {
      if (v < x) return i;
      v -= x;
      i++;
    }
    return i - 1;
  }
};

struct Ctx {
  bool verbose = false;
  bool nontrivial = false;
  bool thorough = false;
  std::ostringstream desc;
  std::set<std::string> labels;
  void label(const std::string& l) { labels.insert(l); }
  void mark() { nontrivial = true; }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void require(bool ok, const std::string& m) {
    if (!ok) fail(m);
  }
  [[noreturn]] void discard() { throw Discard{}; }
  template <class F>
  void log(F f) {
    if (verbose) {
      f(desc);
      flush();
    }
  }
  std::string path;  // where the description goes at once, should the case crash
  void flush();
};

using Prop = void (*)(Source&, Ctx&);

struct Config {
  const char* id;
  Prop prop;
  uint64_t quick;     // cases in the quick tier
  uint64_t thorough;  // cases in the thorough tier
  const char* rule;
};

int main_(int argc, char** argv, const Config& cfg);
int fuzz_(const uint8_t* data, size_t size, const Config& cfg);

}  // namespace pbt

#ifdef PBT_FUZZER
// coverage-guided mode: the bytes are the choices
#define PBT_MAIN(id, prop, quick, thorough, rule)                           \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) { \
    pbt::Config cfg{id, prop, quick, thorough, rule};                       \
    return pbt::fuzz_(data, size, cfg);                                     \
  }
#else
#define PBT_MAIN(id, prop, quick, thorough, rule)     \
  int main(int argc, char** argv) {                   \
    pbt::Config cfg{id, prop, quick, thorough, rule}; \
    return pbt::main_(argc, argv, cfg);               \
  }
#endif
