#include "vp.h"
#include "nanolimits.h"
using nanostl::numeric_limits;

static inline u32 bits(float x) { u32 u; __builtin_memcpy(&u, &x, 4); return u; }
static inline u64 bits(double x) { u64 u; __builtin_memcpy(&u, &x, 8); return u; }

// bounds, attainment (min and max are themselves values of the type) and decimal digits of one integer type
template <class T>
static inline void integer_limits(T x, u64 maxv) {
  typedef numeric_limits<T> L;
  ENSURES("min bounds every value from below", L::min() <= x);
  ENSURES("max bounds every value from above", x <= L::max());
  ENSURES("max is the largest value", (u64)L::max() == maxv);
  ENSURES("epsilon of an integer type is 0", L::epsilon() == 0);
  u64 p = 1;
  for (int i = 0; i < L::digits10; i++) p *= 10;
  ENSURES("every number of digits10 digits is representable", p - 1 <= maxv);
  ENSURES("not every number of one digit more is", maxv / 10 < p);
}
CONTRACT(C10_char, (char x)) {
  UNROLL(3);
  integer_limits<char>(x, 127);
}
CONTRACT(C10_uchar, (unsigned char x)) {
  UNROLL(3);
  integer_limits<unsigned char>(x, 255);
}
CONTRACT(C10_short, (short x)) {
  UNROLL(6);
  integer_limits<short>(x, 32767);
}
CONTRACT(C10_ushort, (unsigned short x)) {
  UNROLL(6);
  integer_limits<unsigned short>(x, 65535);
}
CONTRACT(C10_int, (int x)) {
  UNROLL(12);
  integer_limits<int>(x, 2147483647);
}
CONTRACT(C10_uint, (u32 x)) {
  UNROLL(12);
  integer_limits<u32>(x, 4294967295u);
}
CONTRACT(C10_llong, (i64 x)) {
  UNROLL(22);
  integer_limits<i64>(x, 9223372036854775807ull);
}
CONTRACT(C10_ullong, (u64 x)) {
  UNROLL(22);
  integer_limits<u64>(x, 18446744073709551615ull);
}
CONTRACT(C10_bool, (bool x)) {
  typedef numeric_limits<bool> L;
  ENSURES("min bounds every value from below", L::min() <= x);
  ENSURES("max bounds every value from above", x <= L::max());
  ENSURES("epsilon of an integer type is 0", L::epsilon() == 0);
  ENSURES("no decimal digit always survives in a bool", L::digits10 == 0);
}

template <class T, class U>
static inline void float_limits(T x, U expmask, U manmask, U quiet, int d10) {
  typedef numeric_limits<T> L;
  bool nan = x != x;
  bool inf = (bits(x) & (expmask | manmask)) == expmask;
  ENSURES("every value but infinities and NaN is within [-max, max]", nan || inf || (x <= L::max() && x >= -L::max()));
  ENSURES("infinities lie outside [-max, max]", !inf || x > L::max() || x < -L::max());
  ENSURES("max is finite", (bits(L::max()) & expmask) != expmask);
  ENSURES("min bounds every positive normal value from below", !(x > 0) || (bits(x) & expmask) == 0 || L::min() <= x);
  ENSURES("min is a positive normal value", L::min() > 0 && (bits(L::min()) & expmask) != 0);
  ENSURES("denorm_min bounds every positive value from below", !(x > 0) || L::denorm_min() <= x);
  ENSURES("denorm_min is positive", L::denorm_min() > 0);
  T next = (T)1 + L::epsilon();
  ENSURES("1 + epsilon is the next value after 1", next > 1 && (!(x > 1) || next <= x) && next - (T)1 == L::epsilon());
  ENSURES("infinity is positive infinity", L::infinity() == L::infinity() && L::infinity() > L::max() && !(x > L::infinity()));
  ENSURES("infinity is the infinite value", bits(L::infinity()) == expmask);
  T q = L::quiet_NaN(), s = L::signaling_NaN();
  ENSURES("quiet_NaN is a NaN", q != q);
  ENSURES("signaling_NaN is a NaN", s != s);
  ENSURES("quiet_NaN is quiet, signaling_NaN is not", (bits(q) & quiet) != 0 && (bits(s) & quiet) == 0);
  ENSURES("digits10 decimal digits always survive, not more", L::digits10 == d10);
}
CONTRACT(C10_float, (float x)) {
  // floor((24 - 1) * log10(2)) = 6
  float_limits<float, u32>(x, 0x7f800000u, 0x007fffffu, 0x00400000u, 6);
}
CONTRACT(C10_double, (double x)) {
  // floor((53 - 1) * log10(2)) = 15
  float_limits<double, u64>(x, 0x7ff0000000000000ull, 0x000fffffffffffffull, 0x0008000000000000ull, 15);
}
