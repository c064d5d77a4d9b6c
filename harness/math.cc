#include "vp.h"
#include "nanomath.h"
namespace N = nanostl;

static inline u32 bits(float x) { u32 u; __builtin_memcpy(&u, &x, 4); return u; }
static inline u64 bits(double x) { u64 u; __builtin_memcpy(&u, &x, 8); return u; }
static inline u32 expo(float x) { return (bits(x) >> 23) & 255; }
static inline u32 expo(double x) { return (u32)(bits(x) >> 52) & 2047; }
static inline u32 man(float x) { return bits(x) & 0x7fffffu; }
static inline u64 man(double x) { return bits(x) & 0xfffffffffffffull; }

CONTRACT(C11_class_float, (float x)) {
  bool nan = expo(x) == 255 && man(x) != 0, inf = expo(x) == 255 && man(x) == 0;
  ENSURES("isnan holds exactly for NaNs", N::isnan(x) == nan);
  ENSURES("isinf holds exactly for the infinities", N::isinf(x) == inf);
  ENSURES("isfinite holds exactly for finite values", N::isfinite(x) == (!nan && !inf));
  ENSURES("isnormal holds exactly for normal values", N::isnormal(x) == (expo(x) != 0 && expo(x) != 255));
  ENSURES("isnan means unequal to itself", N::isnan(x) == (x != x));
}
CONTRACT(C11_class_double, (double x)) {
  bool nan = expo(x) == 2047 && man(x) != 0, inf = expo(x) == 2047 && man(x) == 0;
  ENSURES("isnan holds exactly for NaNs", N::isnan(x) == nan);
  ENSURES("isinf holds exactly for the infinities", N::isinf(x) == inf);
  ENSURES("isfinite holds exactly for finite values", N::isfinite(x) == (!nan && !inf));
  ENSURES("isnormal holds exactly for normal values", N::isnormal(x) == (expo(x) != 0 && expo(x) != 2047));
  ENSURES("isnan means unequal to itself", N::isnan(x) == (x != x));
}
template <class T>
static inline void minmax(T x, T y) {
  T lo = N::fmin(x, y), hi = N::fmax(x, y);
  if (x != x && y != y) {
    ENSURES("fmin of two NaNs is NaN", lo != lo);
    ENSURES("fmax of two NaNs is NaN", hi != hi);
  } else if (x != x) {
    ENSURES("fmin ignores a NaN first argument", bits(lo) == bits(y));
    ENSURES("fmax ignores a NaN first argument", bits(hi) == bits(y));
  } else if (y != y) {
    ENSURES("fmin ignores a NaN second argument", bits(lo) == bits(x));
    ENSURES("fmax ignores a NaN second argument", bits(hi) == bits(x));
  } else {
    ENSURES("fmin is one of its arguments", bits(lo) == bits(x) || bits(lo) == bits(y));
    ENSURES("fmin is not above either argument", lo <= x && lo <= y);
    ENSURES("fmax is one of its arguments", bits(hi) == bits(x) || bits(hi) == bits(y));
    ENSURES("fmax is not below either argument", hi >= x && hi >= y);
  }
}
CONTRACT(C11_minmax_float, (float x, float y)) { minmax(x, y); }
CONTRACT(C11_minmax_double, (double x, double y)) { minmax(x, y); }
CONTRACT(C11_fabs_float, (float x)) {
  float r = N::fabs(x);
  ENSURES("fabs clears the sign and changes nothing else", x != x || bits(r) == (bits(x) & 0x7fffffffu));
  ENSURES("fabs of NaN is NaN", x == x || r != r);
}
CONTRACT(C11_fabs_double, (double x)) {
  double r = N::fabs(x);
  ENSURES("fabs clears the sign and changes nothing else", x != x || bits(r) == (bits(x) & 0x7fffffffffffffffull));
  ENSURES("fabs of NaN is NaN", x == x || r != r);
}
CONTRACT(C11_copysign, (float x, float y)) {
  ENSURES("copysign takes the magnitude of the first and the sign of the second",
          bits(N::copysign(x, y)) == ((bits(x) & 0x7fffffffu) | (bits(y) & 0x80000000u)));
}
template <class T>
static inline void clamping(T x, T lo, T hi) {
  REQUIRES(lo <= hi);
  T r = N::clamp(x, lo, hi);
  ENSURES("clamp stays within the bounds", r >= lo && r <= hi);
  if (x >= lo && x <= hi) ENSURES("clamp keeps a value within the bounds", r == x);
  if (x < lo) ENSURES("clamp raises a smaller value to the lower bound", r == lo);
  if (x > hi) ENSURES("clamp lowers a greater value to the upper bound", r == hi);
}
CONTRACT(C11_clamp_float, (float x, float lo, float hi)) { clamping(x, lo, hi); }
CONTRACT(C11_clamp_double, (double x, double lo, double hi)) { clamping(x, lo, hi); }
CONTRACT(C11_clamp_int, (int x, int lo, int hi)) { clamping(x, lo, hi); }
CONTRACT(C11_zero_subnormal_float, (float x)) {
  ENSURES("__is_zero holds exactly for both zeros", N::__is_zero(x) == (x == 0));
  ENSURES("__is_subnormal holds exactly for subnormals", N::__is_subnormal(x) == (expo(x) == 0 && x != 0));
}
CONTRACT(C11_zero_subnormal_double, (double x)) {
  ENSURES("__is_zero holds exactly for both zeros", N::__is_zero(x) == (x == 0));
  ENSURES("__is_subnormal holds exactly for subnormals", N::__is_subnormal(x) == (expo(x) == 0 && x != 0));
}
CONTRACT(C11_bits, (float x, u32 u, int i)) {
  ENSURES("FloatToUint is the bit pattern", N::FloatToUint(x) == bits(x));
  ENSURES("FloatToInt is the bit pattern", (u32)N::FloatToInt(x) == bits(x));
  ENSURES("UintToFloat inverts it", bits(N::UintToFloat(u)) == u);
  ENSURES("IntToFloat inverts it", bits(N::IntToFloat(i)) == (u32)i);
}

template <class T>
static inline T rtz(T x) { return (T)(i64)x; }
template <class T>
static inline void rounding(T x, T big) {
  T f = N::floor(x), c = N::ceil(x);
  if (x != x) {
    ENSURES("floor of NaN is NaN", f != f);
    ENSURES("ceil of NaN is NaN", c != c);
  } else if (!(x < big && x > -big)) {
    // integral already, or infinite
    ENSURES("floor of a large value or infinity is itself", f == x);
    ENSURES("ceil of a large value or infinity is itself", c == x);
  } else {
    ENSURES("floor is integral", f >= -big && f <= big && rtz(f) == f);
    ENSURES("floor is not above the argument", f <= x);
    ENSURES("no greater integral value is not above the argument", f + (T)1 > x);
    ENSURES("ceil is integral", c >= -big && c <= big && rtz(c) == c);
    ENSURES("ceil is not below the argument", c >= x);
    ENSURES("no smaller integral value is not below the argument", c - (T)1 < x);
  }
}
CONTRACT(C12_float, (float x)) { rounding(x, 8388608.f); }
CONTRACT(C12_double, (double x)) { rounding(x, 4503599627370496.); }
