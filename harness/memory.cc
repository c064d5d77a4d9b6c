#include "vp.h"
#include "nanocstring.h"

CONTRACT(C14_memcpy, (Arr<u8> &d, Arr<u8> &s, u64 off, u64 soff, u64 n, u64 k)) {
  REQUIRES(off <= d.n && n <= d.n - off && soff <= s.n && n <= s.n - soff && k < d.n);
  u8 old = d.p[k];
  void *r = nanostl::memcpy(d.p + off, s.p + soff, n);
  ENSURES("memcpy returns the destination", r == d.p + off);
  ENSURES("memcpy copies exactly the requested bytes and changes no other", d.p[k] == (k >= off && k - off < n ? s.p[soff + (k - off)] : old));
}
CONTRACT(C14_memcpy_source, (Arr<u8> &d, Arr<u8> &s, u64 n, u64 k)) {
  REQUIRES(n <= d.n && n <= s.n && k < s.n);
  u8 old = s.p[k];
  nanostl::memcpy(d.p, s.p, n);
  ENSURES("memcpy leaves the source alone", s.p[k] == old);
}
CONTRACT(C14_memcpy_same_array, (Arr<u8> &a, u64 i, u64 j, u64 n, u64 k)) {
  REQUIRES(i <= a.n && j <= a.n && n <= a.n - i && n <= a.n - j && (i + n <= j || j + n <= i) && k < a.n);
  u8 old = a.p[k], src = k >= i && k - i < n ? a.p[j + (k - i)] : 0;
  nanostl::memcpy(a.p + i, a.p + j, n);
  ENSURES("memcpy between disjoint parts of one array", a.p[k] == (k >= i && k - i < n ? src : old));
}
CONTRACT(C14_memcpy_object, (u64 x, u32 y)) {
  u64 a = 0;
  u32 b = 7;
  nanostl::memcpy(&a, &x, sizeof a);
  nanostl::memcpy(&b, &y, 2);
  ENSURES("memcpy copies an object representation", a == x);
  ENSURES("memcpy copies part of an object", b == (y & 0xffff));
}
