// Bridges Ubuntu's highway 1.0.7 to 1.3: adds Exp2 and Hypot (lane by lane, with libm).
#if defined(VERIF_HWY_MATH_TOGGLE) == defined(HWY_TARGET_TOGGLE)
#ifdef VERIF_HWY_MATH_TOGGLE
#undef VERIF_HWY_MATH_TOGGLE
#else
#define VERIF_HWY_MATH_TOGGLE
#endif
#include_next <hwy/contrib/math/math-inl.h>
#include <cmath>
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
template <class D, class V> HWY_NOINLINE V Exp2(const D d, V x) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[HWY_MAX_BYTES / sizeof(T)];
  Store(x, d, buf);
  for (size_t i = 0; i < Lanes(d); i++)
    buf[i] = std::exp2(buf[i]);
  return Load(d, buf);
}
template <class D, class V> HWY_NOINLINE V Hypot(const D d, V x, V y) {
  using T = TFromD<D>;
  HWY_ALIGN T a[HWY_MAX_BYTES / sizeof(T)];
  HWY_ALIGN T b[HWY_MAX_BYTES / sizeof(T)];
  Store(x, d, a);
  Store(y, d, b);
  for (size_t i = 0; i < Lanes(d); i++)
    a[i] = std::hypot(a[i], b[i]);
  return Load(d, a);
}
} // namespace HWY_NAMESPACE
} // namespace hwy
HWY_AFTER_NAMESPACE();
#endif
