// C25: conversions between floating-point formats against exact integer arithmetic.
#include "core.h"
#include <cmath>
#include <cstring>

extern "C" {
float vf_extendhfsf2(_Float16);
double vf_extendsfdf2(float);
__float128 vf_extendhftf2(_Float16);
__float128 vf_extendsftf2(float);
__float128 vf_extenddftf2(double);
_Float16 vf_truncsfhf2(float);
_Float16 vf_truncdfhf2(double);
_Float16 vf_trunctfhf2(__float128);
float vf_truncdfsf2(double);
float vf_trunctfsf2(__float128);
double vf_trunctfdf2(__float128);
_Float16 vf_gnu_f2h_ieee(float);
float vf_gnu_h2f_ieee(_Float16);
}

namespace {
typedef unsigned __int128 U;
struct Fmt { const char *name; int bits, mant, exp; };
const Fmt H{"f16", 16, 10, 5}, S{"f32", 32, 23, 8}, D{"f64", 64, 52, 11}, Q{"f128", 128, 112, 15};

U ones(int n) { return n >= 128 ? ~(U)0 : (((U)1 << n) - 1); }
template <class T, class R> T fromBits(U u) { R r = (R)u; T t; memcpy(&t, &r, sizeof t); return t; }
template <class T, class R> U toBits(T t) { R r; memcpy(&r, &t, sizeof r); return (U)r; }

struct Conv { const char *name; const Fmt *from, *to; U (*fn)(U); };
#define CV(fn, F, FT, FR, T, TT, TR) {#fn, &F, &T, [](U u) -> U { return toBits<TT, TR>(vf_##fn(fromBits<FT, FR>(u))); }}
const Conv convs[] = {
    CV(extendhfsf2, H, _Float16, uint16_t, S, float, uint32_t),   CV(extendsfdf2, S, float, uint32_t, D, double, uint64_t),
    CV(extendhftf2, H, _Float16, uint16_t, Q, __float128, U),     CV(extendsftf2, S, float, uint32_t, Q, __float128, U),
    CV(extenddftf2, D, double, uint64_t, Q, __float128, U),       CV(truncsfhf2, S, float, uint32_t, H, _Float16, uint16_t),
    CV(truncdfhf2, D, double, uint64_t, H, _Float16, uint16_t),   CV(trunctfhf2, Q, __float128, U, H, _Float16, uint16_t),
    CV(truncdfsf2, D, double, uint64_t, S, float, uint32_t),      CV(trunctfsf2, Q, __float128, U, S, float, uint32_t),
    CV(trunctfdf2, Q, __float128, U, D, double, uint64_t),
    CV(gnu_f2h_ieee, S, float, uint32_t, H, _Float16, uint16_t),
    CV(gnu_h2f_ieee, H, _Float16, uint16_t, S, float, uint32_t),
};
constexpr int NC = sizeof convs / sizeof *convs;

struct Val { int cls; /*0 zero 1 finite 2 inf 3 nan*/ bool neg; U m; int e; }; // m * 2^e
Val decode(const Fmt &f, U u) {
  Val v;
  v.neg = (u >> (f.bits - 1)) & 1;
  U man = u & ones(f.mant);
  int ex = (int)((u >> f.mant) & ones(f.exp)), bias = (1 << (f.exp - 1)) - 1;
  if (ex == (int)ones(f.exp)) { v.cls = man ? 3 : 2; v.m = man; v.e = 0; return v; }
  if (!ex && !man) { v.cls = 0; v.m = 0; v.e = 0; return v; }
  v.cls = 1;
  v.m = ex ? man | ((U)1 << f.mant) : man;
  v.e = (ex ? ex : 1) - bias - f.mant;
  return v;
}
int width(U m) { int n = 0; while (m) { ++n; m >>= 1; } return n; }
/// nearest value of the format, ties to even
U encode(const Fmt &f, const Val &v) {
  int bias = (1 << (f.exp - 1)) - 1;
  U sign = (U)v.neg << (f.bits - 1), inf = ones(f.exp) << f.mant;
  if (v.cls == 0) return sign;
  if (v.cls == 2) return sign | inf;
  // the unit of the last place: at least that of the subnormals
  int q = std::max(v.e + width(v.m) - 1 - f.mant, 1 - bias - f.mant);
  U r;
  if (q <= v.e) r = v.m << (v.e - q);
  else {
    int sh = q - v.e;
    if (sh > 120) r = 0; // far below half a unit
    else {
      r = v.m >> sh;
      U rem = v.m & ones(sh), half = (U)1 << (sh - 1);
      if (rem > half || (rem == half && (r & 1))) ++r;
    }
  }
  if (r >> (f.mant + 1)) { r >>= 1; ++q; }
  if (!(r >> f.mant)) return sign | r; // subnormal or zero
  int ex = q + f.mant + bias;
  if (ex >= (int)ones(f.exp)) return sign | inf;
  return sign | ((U)ex << f.mant) | (r & ones(f.mant));
}
std::string hex(U u, int bits) {
  std::string s;
  for (int i = bits - 4; i >= 0; i -= 4) s += "0123456789abcdef"[(int)(u >> i) & 15];
  return s;
}
std::string checkOne(const Conv &c, U u) {
  u &= ones(c.from->bits);
  Val v = decode(*c.from, u);
  U got = c.fn(u);
  std::string where = std::string(c.name) + "(0x" + hex(u, c.from->bits) + ") gives 0x" + hex(got, c.to->bits);
  if (v.cls == 3) {
    Val g = decode(*c.to, got);
    if (g.cls != 3) return "nan: " + where + ", not a NaN";
    if (g.neg != v.neg) return "nan-sign: " + where;
    return "";
  }
  U exp = encode(*c.to, v);
  if (exp != got) return "rounding: " + where + ", expected 0x" + hex(exp, c.to->bits);
  // the reference against the format's own arithmetic (exactness of widening)
  if (c.to->bits > c.from->bits) {
    Val g = decode(*c.to, got);
    U a = v.m, b = g.m;
    int ea = v.e, eb = g.e;
    while (a && !(a & 1)) a >>= 1, ++ea;
    while (b && !(b & 1)) b >>= 1, ++eb;
    if (v.cls != g.cls || (v.cls == 1 && (a != b || ea != eb))) return "inexact: " + where;
  }
  return "";
}
U raw128(pbt::Src &s) { return ((U)s.raw(0) << 64) | s.raw(0); }
/// a bit pattern of the source near something interesting in the target
U pattern(pbt::Src &src, const Conv &c) {
  const Fmt &f = *c.from, &t = *c.to;
  U sign = (U)src.flip() << (f.bits - 1);
  int sb = (1 << (f.exp - 1)) - 1, tb = (1 << (t.exp - 1)) - 1;
  switch (src.weighted({2, 4, 4, 2, 1, 2})) {
  case 0: return raw128(src) & ones(f.bits);
  case 1: { // near the boundary of two target values: random exponent within the target's range, mantissa tail near a tie
    int lo = std::max(1, sb - tb - t.mant - 3), hi = std::min((int)ones(f.exp) - 1, sb + tb + 2);
    if (f.bits < t.bits) lo = 0, hi = (int)ones(f.exp);
    int ex = (int)src.range(lo, hi);
    U man = raw128(src) & ones(f.mant);
    if (f.mant > t.mant) {
      int drop = f.mant - t.mant;
      int under = (sb - tb + 1) - ex; // subnormal in the target
      if (under > 0) drop += under;
      if (drop <= f.mant) {
        man &= ~ones(drop);
        U half = (U)1 << (drop - 1);
        switch (src.below(5)) {
        case 0: man |= half; break;
        case 1: man |= half + 1; break;
        case 2: man |= half - 1; break;
        case 3: man |= ones(drop); break;
        default: man |= 1; break;
        }
        man &= ones(f.mant);
      } else if (src.flip()) man = src.below(3);
    }
    return sign | ((U)ex << f.mant) | man;
  }
  case 2: { // few bits set, or few bits clear
    U man = 0;
    for (int k = (int)src.below(4); k > 0; k--) man |= (U)1 << src.below(f.mant);
    if (src.flip()) man = ~man & ones(f.mant);
    int ex = (int)src.below(ones(f.exp) + 1);
    if (src.flip()) ex = std::max(0, std::min((int)ones(f.exp), (int)src.pick({sb + tb, sb + tb + 1, sb - tb, sb - tb + 1, sb - tb - t.mant, sb - tb - t.mant - 1, 0, 1, (int)ones(f.exp) - 1})));
    return sign | ((U)ex << f.mant) | man;
  }
  case 3: return sign | (raw128(src) & ones(f.mant)); // subnormals and zero
  case 4: return sign | (ones(f.exp) << f.mant) | (src.flip() ? (U)1 << src.below(f.mant) : raw128(src) & ones(f.mant)); // infinities, NaN
  default: { // a target value, widened back
    U v = raw128(src) & ones(t.bits);
    Val d = decode(t, v);
    return d.cls == 3 ? sign | (ones(f.exp) << f.mant) | 1 : encode(f, d);
  }
  }
}
void near(pbt::Src &src, pbt::Out &out) {
  auto &c = convs[src.below(NC)];
  U u = pattern(src, c);
  out.text = std::string(c.name) + " around 0x" + hex(u, c.from->bits);
  out.nontrivial = true;
  for (int d = 0; d <= 24; d++)
    for (int s : {1, -1}) {
      auto e = checkOne(c, u + (U)(s * d));
      if (!e.empty()) return out.violation(e);
    }
  for (int b = 0; b < c.from->bits; b++) {
    auto e = checkOne(c, u ^ ((U)1 << b));
    if (!e.empty()) return out.violation(e);
  }
}
void block(pbt::Src &src, pbt::Out &out) { // every pattern of a 16-bit half of the source
  auto &c = convs[src.below(NC)];
  U base = c.from->bits == 16 ? 0 : (pattern(src, c) & ~(U)0xffff);
  int shift = c.from->bits == 16 ? 0 : (int)src.pick({0, 1, c.from->mant - 8, c.from->bits - 16, c.from->mant > c.to->mant ? c.from->mant - c.to->mant - 8 : 4});
  if (shift < 0) shift = 0;
  out.text = std::string(c.name) + " all 65536 patterns at bit " + std::to_string(shift) + " of 0x" + hex(base, c.from->bits);
  out.nontrivial = true;
  for (int k = 0; k < 65536; k++) {
    auto e = checkOne(c, base ^ ((U)k << shift));
    if (!e.empty()) return out.violation(e);
  }
}
pbt::Reg r1("C25", "near", "every case checks one conversion at 90 to 180 bit patterns around one chosen next to a rounding boundary, limit or special value", near, 3, 2000);
pbt::Reg r2("C25", "block", "every case checks one conversion at 65536 bit patterns", block, 1, 20);
} // namespace
