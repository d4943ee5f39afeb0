// Choice-sequence based property runner: generation, isolation in forked children, shrinking, replay, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>

namespace pbt {

/// Source of choices. A case is a deterministic function of the sequence of choices it draws; fewer/smaller
/// choices mean a simpler case, and draws past the end of a replayed sequence give 0.
struct Src {
  const uint64_t *in = nullptr;
  size_t nIn = 0, pos = 0;
  std::mt19937_64 *rng = nullptr;
  uint64_t *rec = nullptr; // recorded choices: rec[0] = count
  size_t recCap = 0;

  uint64_t raw(uint64_t n) {
    uint64_t v = 0;
    if (pos < nIn)
      v = n ? in[pos] % n : in[pos];
    else if (rng)
      v = n ? (*rng)() % n : (*rng)();
    ++pos;
    if (rec && rec[0] + 1 < recCap)
      rec[++rec[0]] = v;
    return v;
  }
  /// 0..n-1
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : raw(n); }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)below(den) >= den - num; } // 0 => false
  bool flip() { return below(2); }
  template <class T> T pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  /// index drawn with the given weights
  size_t weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int r = (int)below(t);
    size_t i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  /// "interesting" 64-bit integers
  int64_t i64();
  double f64();
};

struct Out {
  std::string text;      // description of the case
  std::string fail;      // non-empty: property violated
  std::string sig;       // short class of the failure (defaults to the first word of fail)
  bool nontrivial = false;
  bool discard = false;
  uint64_t key = 0;      // identity of the case (hash of text by default)
  void note(const std::string &s) { text += s; }
  void violation(const std::string &s) {
    if (fail.empty()) fail = s;
  }
};

using CaseFn = std::function<void(Src &, Out &)>;
struct Sub {
  std::string prop, name, rule;
  CaseFn fn;
  int weight;   // share of the time
  int batch;    // cases per forked child
  int timeout;  // seconds per case
  std::function<void()> setup;
};
std::vector<Sub> &subs();
struct Reg {
  Reg(const char *prop, const char *name, const char *rule, CaseFn fn, int weight = 1, int batch = 50, int timeout = 10,
      std::function<void()> setup = {}) {
    subs().push_back({prop, name, rule, std::move(fn), weight, batch, timeout, std::move(setup)});
  }
};

inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
/// tell the parent what this case is, in case it crashes
void announce(const std::string &text);
std::string jsonEscape(const std::string &s);
} // namespace pbt
