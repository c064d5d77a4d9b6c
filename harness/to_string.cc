#include "vp.h"
#define NANOSTL_IMPLEMENTATION
#include "nanolimits.h"
#include "nanomath.h"
#include "nanostring.h"
#include "__nanostrutil.h"
typedef nanostl::string S;

// specification: the shortest decimal numeral of the value: an optional minus sign, then the digits of the magnitude
// (obtained by repeated division by ten, least significant digit last), no leading zero, nothing else
template <class U>
static inline void decimal(const S &s, bool neg, U mag) {
  u64 n = s.size();
  u64 i = neg ? 1 : 0;
  ENSURES("the text has at least one digit", n > i);
  ENSURES("a minus sign exactly for negative values", (s[0] == '-') == neg);
  U t = mag;
  u64 p = n;
  do {
    ENSURES("no digit is missing", p > i);
    p--;
    ENSURES("each character is the decimal digit of its place", s[p] == (char)('0' + (int)(t % 10)));
    t /= 10;
  } while (t);
  ENSURES("no leading zeros and nothing before the digits", p == i);
  ENSURES("NUL-terminated", s.c_str()[n] == 0);
}

CONTRACT(C06_int, (int v)) {
  UNROLL(24);
  S s = nanostl::to_string(v);
  decimal<u32>(s, v < 0, v < 0 ? 0u - (u32)v : (u32)v);
}
CONTRACT(C06_uint, (unsigned v)) {
  UNROLL(24);
  S s = nanostl::to_string(v);
  decimal<u64>(s, false, (u64)v);
}
CONTRACT(C06_int64, (i64 v)) {
  UNROLL(24);
  S s = nanostl::to_string(v);
  decimal<u64>(s, v < 0, v < 0 ? 0ull - (u64)v : (u64)v);
}
CONTRACT(C06_uint64, (u64 v)) {
  UNROLL(24);
  S s = nanostl::to_string(v);
  decimal<u64>(s, false, v);
}
