#include "vp.h"
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanofunctional.h"
#include "src/hash.cc"
#undef ROTL
#undef SIPROUND

// SipHash-2-4 as published (Aumasson, Bernstein: SipHash: a fast short-input PRF), written from the paper:
// four words, little-endian message words, the last one carrying the length
namespace ref {
static inline u64 rot(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
struct S { u64 a, b, c, d; };
static inline void round(S &s) {
  s.a += s.b; s.c += s.d;
  s.b = rot(s.b, 13); s.d = rot(s.d, 16);
  s.b ^= s.a; s.d ^= s.c;
  s.a = rot(s.a, 32);
  s.c += s.b; s.a += s.d;
  s.b = rot(s.b, 17); s.d = rot(s.d, 21);
  s.b ^= s.c; s.d ^= s.a;
  s.c = rot(s.c, 32);
}
static inline u64 word(const u8 *p) {
  return (u64)p[0] | (u64)p[1] << 8 | (u64)p[2] << 16 | (u64)p[3] << 24 | (u64)p[4] << 32 | (u64)p[5] << 40 | (u64)p[6] << 48 | (u64)p[7] << 56;
}
static inline void absorb(S &s, u64 m) {
  s.d ^= m;
  round(s);
  round(s);
  s.a ^= m;
}
static inline u64 squeeze(S &s) {
  round(s); round(s); round(s); round(s);
  return s.a ^ s.b ^ s.c ^ s.d;
}
static inline void hash(const u8 *in, u64 n, const u8 *k, bool wide, u64 &lo, u64 &hi) {
  u64 k0 = word(k), k1 = word(k + 8);
  S s = {0x736f6d6570736575ull ^ k0, 0x646f72616e646f6dull ^ k1, 0x6c7967656e657261ull ^ k0, 0x7465646279746573ull ^ k1};
  if (wide) s.b ^= 0xee;
  for (u64 i = 0; i < n / 8; i++) absorb(s, word(in + 8 * i));
  const u8 *t = in + n / 8 * 8;
  u64 m = n << 56;
  switch (n % 8) {
  case 7: m |= (u64)t[6] << 48; // fallthrough
  case 6: m |= (u64)t[5] << 40; // fallthrough
  case 5: m |= (u64)t[4] << 32; // fallthrough
  case 4: m |= (u64)t[3] << 24; // fallthrough
  case 3: m |= (u64)t[2] << 16; // fallthrough
  case 2: m |= (u64)t[1] << 8; // fallthrough
  case 1: m |= (u64)t[0];
  }
  absorb(s, m);
  s.c ^= wide ? 0xee : 0xff;
  lo = squeeze(s);
  hi = 0;
  if (wide) {
    s.b ^= 0xdd;
    hi = squeeze(s);
  }
}
}

static inline void spell(u8 *k, u64 k0, u64 k1) {
  for (int b = 0; b < 8; b++) {
    k[b] = (u8)(k0 >> 8 * b);
    k[b + 8] = (u8)(k1 >> 8 * b);
  }
}
CONTRACT(C15_siphash_64, (Arr<u8> &in, u64 i, u64 k0, u64 k1, u64 j)) {
  REQUIRES(i <= in.n && j < 24);
  RECURRENCES();
  u64 lo, hi, n = in.n - i;
  u8 key[16], out[24];
  spell(key, k0, k1);
  ref::hash(in.p + i, n, key, false, lo, hi);
  for (int b = 0; b < 24; b++) out[b] = 0xa5;
  ENSURES("siphash reports success", nanostl::siphash(in.p + i, n, key, out + 8, 8) == 0);
  ENSURES("the 8-byte hash is SipHash-2-4 of exactly the bytes, stored little-endian, and nothing else is written",
          out[j] == (j < 8 || j >= 16 ? 0xa5 : (u8)(lo >> (8 * j & 63))));
}
CONTRACT(C15_siphash_128, (Arr<u8> &in, u64 i, u64 k0, u64 k1, u64 j)) {
  REQUIRES(i <= in.n && j < 24);
  RECURRENCES();
  u64 lo, hi, n = in.n - i;
  u8 key[16], out[24];
  spell(key, k0, k1);
  ref::hash(in.p + i, n, key, true, lo, hi);
  for (int b = 0; b < 24; b++) out[b] = 0xa5;
  ENSURES("siphash reports success", nanostl::siphash(in.p + i, n, key, out, 16) == 0);
  ENSURES("the 16-byte hash is SipHash-2-4-128 of exactly the bytes, stored little-endian, and nothing else is written",
          out[j] == (j >= 16 ? 0xa5 : j < 8 ? (u8)(lo >> (8 * j & 63)) : (u8)(hi >> (8 * j & 63))));
}
CONTRACT(C15_siphash_inputs_kept, (Arr<u8> &in, u64 n, u64 k0, u64 k1, u64 j)) {
  REQUIRES(n <= in.n && j < in.n);
  u8 out[16], key[16];
  spell(key, k0, k1);
  u8 a = in.p[j], b = key[j & 15];
  nanostl::siphash(in.p, n, key, out, 16);
  ENSURES("hashing changes neither the input nor the key", in.p[j] == a && key[j & 15] == b);
}
CONTRACT(C15_hash_schar, (u64 x)) {
  signed char v = (signed char)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<signed char>()(v) == (size_t)v);
}
CONTRACT(C15_hash_uchar, (u64 x)) {
  unsigned char v = (unsigned char)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<unsigned char>()(v) == (size_t)v);
}
CONTRACT(C15_hash_short, (u64 x)) {
  signed short v = (signed short)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<signed short>()(v) == (size_t)v);
}
CONTRACT(C15_hash_ushort, (u64 x)) {
  unsigned short v = (unsigned short)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<unsigned short>()(v) == (size_t)v);
}
CONTRACT(C15_hash_int, (u64 x)) {
  int v = (int)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<int>()(v) == (size_t)v);
}
CONTRACT(C15_hash_uint, (u64 x)) {
  unsigned int v = (unsigned int)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<unsigned int>()(v) == (size_t)v);
}
CONTRACT(C15_hash_long, (u64 x)) {
  long v = (long)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<long>()(v) == (size_t)v);
}
CONTRACT(C15_hash_ulong, (u64 x)) {
  unsigned long v = (unsigned long)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<unsigned long>()(v) == (size_t)v);
}
CONTRACT(C15_hash_llong, (u64 x)) {
  long long v = (long long)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<long long>()(v) == (size_t)v);
}
CONTRACT(C15_hash_ullong, (u64 x)) {
  unsigned long long v = (unsigned long long)x;
  ENSURES("the hash of an integer is its value converted to size_t", nanostl::hash<unsigned long long>()(v) == (size_t)v);
}
CONTRACT(C15_hash_bool, (bool v)) {
  ENSURES("the hash of a bool is 0 or 1", nanostl::hash<bool>()(v) == (v ? 1u : 0u));
}
CONTRACT(C15_hash_float, (float a, float b)) {
  REQUIRES(a == a && b == b);
  u64 x = nanostl::hash<float>()(a), y = nanostl::hash<float>()(b);
  ENSURES("equal floats, both zeros included, have equal hashes", !(a == b) || x == y);
  ENSURES("different floats have different hashes", a == b || x != y);
}
CONTRACT(C15_hash_double, (double a, double b)) {
  REQUIRES(a == a && b == b);
  u64 x = nanostl::hash<double>()(a), y = nanostl::hash<double>()(b);
  ENSURES("equal doubles, both zeros included, have equal hashes", !(a == b) || x == y);
  ENSURES("different doubles have different hashes", a == b || x != y);
}
CONTRACT(C15_hash_nullptr, (int)) {
  ENSURES("the hash of nullptr is a constant", nanostl::hash<nullptr_t>()(nullptr) == 662607004ull);
}
