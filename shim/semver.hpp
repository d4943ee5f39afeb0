// The little of Neargye/semver that codon/dsl/plugins.cpp uses: version triples and ranges of
// ">=a.b.c <x.y.z || ..." comparators.
#pragma once
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
namespace semver {
struct version {
  int major, minor, patch;
  version(int a, int b, int c) : major(a), minor(b), patch(c) {}
  auto t() const { return std::make_tuple(major, minor, patch); }
};
namespace range {
inline bool satisfies(const version &v, const std::string &r) {
  std::istringstream is(r);
  std::string w;
  bool all = true, any = false, seen = false;
  while (is >> w) {
    if (w == "||") {
      any = any || (seen && all);
      all = true, seen = false;
      continue;
    }
    std::string op;
    size_t i = 0;
    while (i < w.size() && (w[i] == '<' || w[i] == '>' || w[i] == '='))
      op += w[i++];
    int a = 0, b = 0, c = 0;
    if (sscanf(w.c_str() + i, "%d.%d.%d", &a, &b, &c) < 1)
      throw std::invalid_argument("invalid range");
    auto x = v.t(), y = std::make_tuple(a, b, c);
    bool ok = op == ">=" ? x >= y : op == "<=" ? x <= y : op == ">" ? x > y : op == "<" ? x < y : x == y;
    all = all && ok;
    seen = true;
  }
  return any || (seen && all);
}
} // namespace range
} // namespace semver
