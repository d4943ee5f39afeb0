// Bridges Ubuntu's fast_float 3.9 to the fast_float 6 interface codon uses: option macros defined
// empty, and integer from_chars (leading white space and '+' accepted, as the options ask).
#pragma once
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
#define FASTFLOAT_ALLOWS_LEADING_PLUS 1
#define FASTFLOAT_SKIP_WHITE_SPACE 1
#include_next <fast_float/fast_float.h>
#include <cstdint>
namespace fast_float {
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
inline from_chars_result from_chars(const char *first, const char *last, T &value,
                                    int base = 10) {
  auto sp = [](char c) {
    return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
  };
  const char *p = first;
  while (p != last && sp(*p))
    p++;
  if (p == last || base < 2 || base > 36)
    return {first, std::errc::invalid_argument};
  bool neg = *p == '-';
  if (*p == '-' || *p == '+')
    p++;
  const char *start = p;
  unsigned __int128 v = 0;
  bool over = false;
  for (; p != last; p++) {
    int d = *p >= '0' && *p <= '9'   ? *p - '0'
            : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10
            : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10
                                     : 99;
    if (d >= base)
      break;
    if (!over)
      v = v * base + d;
    over = over || v > ((unsigned __int128)1 << 63);
  }
  if (p == start)
    return {first, std::errc::invalid_argument};
  if (over || v > ((unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0)))
    return {p, std::errc::result_out_of_range};
  value = neg ? (T)(0 - (uint64_t)v) : (T)v;
  return {p, std::errc()};
}
} // namespace fast_float
