"""Interval back end: decides conjunctions over one to three machine words (float arguments) by branch and bound.

Round-to-nearest is monotone, so the image of an interval under +,-,*,/,sqrt and the conversions is bounded exactly by the images
of its end points computed in the same arithmetic.  A box is a range of bit patterns; a formula that is false everywhere on
a box discards it, boxes that cannot be decided are bisected, down to single values, where the evaluation is exact.
unsat: every box was discarded.  sat: a single value satisfies every formula.  Formulas are compiled to C for each query.
REF.* are the mathematical functions of contracts (__vp_ref_sin...): libm in double precision, widened by 8 ulp."""
import os, time, subprocess, tempfile, hashlib, z3
from .terms import fpb_syms, simp, free_syms

K = z3
REFS = ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'erf', 'erfc', 'sqrt', 'cbrt', 'sinh', 'cosh', 'tanh')


THREADS = min(16, os.cpu_count() or 1)


class Cannot(Exception):
    pass


PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <time.h>
#include <pthread.h>
#include <unistd.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
typedef struct { float lo, hi; int fl; } F4;    /* fl: 1 numbers lo..hi, 2 possibly NaN */
typedef struct { double lo, hi; int fl; } F8;
typedef struct { u64 lo, wd; } B;               /* lo, lo+1, .. lo+wd modulo 2^W */
typedef int L;                                  /* 1 may be true, 2 may be false */
static inline u32 fb4(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static inline u64 fb8(double f) { u64 u; memcpy(&u, &f, 8); return u; }
static inline float bf4(u32 u) { float f; memcpy(&f, &u, 4); return f; }
static inline double bf8(u64 u) { double f; memcpy(&f, &u, 8); return f; }
#define MK(W) ((W) == 64 ? ~0ull : (1ull << (W)) - 1)
#define FOPS(T, X, fb, bf, FT, EXPM, SGN, QNAN, W, FSQRT) \
static inline int pt##X(FT a) { return (a.fl == 1 && fb(a.lo) == fb(a.hi)) || a.fl == 2; } \
static inline FT top##X(void) { FT r = {-INFINITY, INFINITY, 3}; return r; } \
static inline FT nan##X(void) { FT r = {INFINITY, -INFINITY, 2}; return r; } \
static inline FT cst##X(T v) { FT r; if (v != v) return nan##X(); r.lo = r.hi = v; r.fl = 1; return r; } \
static inline FT fix##X(T lo, T hi, int fl) { FT r; if (lo != lo || hi != hi) return top##X(); \
  if (lo == 0) lo = -(T)0; if (hi == 0) hi = (T)0; r.lo = lo; r.hi = hi; r.fl = fl; return r; } \
static inline FT add##X(FT a, FT b) { \
  if (!(a.fl & b.fl & 1)) return nan##X(); \
  if (pt##X(a) && pt##X(b)) return cst##X(a.lo + b.lo); \
  int fl = 1 | ((a.fl | b.fl) & 2); \
  if ((a.hi == INFINITY && b.lo == -INFINITY) || (a.lo == -INFINITY && b.hi == INFINITY)) fl |= 2; \
  return fix##X(a.lo + b.lo, a.hi + b.hi, fl); } \
static inline FT neg##X(FT a) { FT r; if (!(a.fl & 1)) return a; r.lo = -a.hi; r.hi = -a.lo; r.fl = a.fl; return r; } \
static inline FT sub##X(FT a, FT b) { return add##X(a, neg##X(b)); } \
static inline FT abs##X(FT a) { FT r; if (!(a.fl & 1)) return a; T z = (T)0; r.fl = a.fl; \
  if (!(fb(a.lo) >> (W - 1))) return a; if (fb(a.hi) >> (W - 1)) { r.lo = -a.hi; r.hi = -a.lo; return r; } \
  r.lo = z; r.hi = -a.lo > a.hi ? -a.lo : a.hi; return r; } \
static inline FT mul##X(FT a, FT b) { \
  if (!(a.fl & b.fl & 1)) return nan##X(); \
  if (pt##X(a) && pt##X(b)) return cst##X(a.lo * b.lo); \
  int fl = 1 | ((a.fl | b.fl) & 2); \
  int ai = a.lo == -INFINITY || a.hi == INFINITY, bi = b.lo == -INFINITY || b.hi == INFINITY; \
  if ((ai && b.lo <= 0 && b.hi >= 0) || (bi && a.lo <= 0 && a.hi >= 0)) return top##X(); \
  if (a.lo >= 0 && b.lo >= 0) return fix##X(a.lo * b.lo, a.hi * b.hi, fl); \
  T p = a.lo * b.lo, q = a.lo * b.hi, r = a.hi * b.lo, s = a.hi * b.hi; \
  T m = p < q ? p : q, n = r < s ? r : s, M = p > q ? p : q, N = r > s ? r : s; \
  return fix##X(m < n ? m : n, M > N ? M : N, fl); } \
static inline FT sqr##X(FT a) { if (!(a.fl & 1)) return nan##X(); if (pt##X(a)) return cst##X(a.lo * a.lo); \
  T p = a.lo * a.lo, q = a.hi * a.hi; T m = p < q ? p : q, M = p < q ? q : p; \
  if (a.lo <= 0 && a.hi >= 0) m = 0; FT r; r.lo = m; r.hi = M; r.fl = a.fl; return r; } \
static inline FT div##X(FT a, FT b) { \
  if (!(a.fl & b.fl & 1)) return nan##X(); \
  if (pt##X(a) && pt##X(b)) return cst##X(a.lo / b.lo); \
  int fl = 1 | ((a.fl | b.fl) & 2); \
  if (b.lo <= 0 && b.hi >= 0) return top##X(); \
  if ((a.lo == -INFINITY || a.hi == INFINITY) && (b.lo == -INFINITY || b.hi == INFINITY)) return top##X(); \
  T p = a.lo / b.lo, q = a.lo / b.hi, r = a.hi / b.lo, s = a.hi / b.hi; \
  T m = p < q ? p : q, n = r < s ? r : s, M = p > q ? p : q, N = r > s ? r : s; \
  return fix##X(m < n ? m : n, M > N ? M : N, fl); } \
static inline FT sqrt##X(FT a) { if (!(a.fl & 1)) return nan##X(); if (pt##X(a)) return cst##X(FSQRT(a.lo)); \
  if (a.hi < 0) return nan##X(); if (a.lo < 0) return fix##X(0, FSQRT(a.hi), a.fl | 2); return fix##X(FSQRT(a.lo), FSQRT(a.hi), a.fl); } \
static inline L lt##X(FT a, FT b) { L r = 0; if ((a.fl & b.fl & 1) && a.lo < b.hi) r |= 1; \
  if (((a.fl | b.fl) & 2) || !(a.hi < b.lo)) r |= 2; return r; } \
static inline L le##X(FT a, FT b) { L r = 0; if ((a.fl & b.fl & 1) && a.lo <= b.hi) r |= 1; \
  if (((a.fl | b.fl) & 2) || !(a.hi <= b.lo)) r |= 2; return r; } \
static inline L feq##X(FT a, FT b) { L r = 0; if ((a.fl & b.fl & 1) && a.lo <= b.hi && b.lo <= a.hi) r |= 1; \
  if (((a.fl | b.fl) & 2) || !(a.lo == a.hi && b.lo == b.hi && a.lo == b.lo)) r |= 2; return r; } \
static inline L eq##X(FT a, FT b) { L r = 0; if ((a.fl & b.fl & 1) && a.lo <= b.hi && b.lo <= a.hi) r |= 1; if (a.fl & b.fl & 2) r |= 1; \
  if (pt##X(a) && pt##X(b)) return a.fl != b.fl ? 2 : a.fl == 2 ? 1 : fb(a.lo) == fb(b.lo) ? 1 : 2; return r | 2; } \
static inline L isnan##X(FT a) { return ((a.fl & 2) ? 1 : 0) | ((a.fl & 1) ? 2 : 0); } \
static inline L isinf##X(FT a) { L r = 0; if (a.fl & 2) r |= 2; if (a.fl & 1) { if (a.lo == -INFINITY || a.hi == INFINITY) r |= 1; \
  if (!(a.lo == a.hi && (a.lo == INFINITY || a.lo == -INFINITY))) r |= 2; } return r; } \
static inline L iszero##X(FT a) { L r = 0; if (a.fl & 2) r |= 2; if (a.fl & 1) { if (a.lo <= 0 && a.hi >= 0) r |= 1; \
  if (!(a.lo == 0 && a.hi == 0)) r |= 2; } return r; } \
static inline L isneg##X(FT a) { L r = 0; if (a.fl & 2) r |= 2; if (a.fl & 1) { if (fb(a.lo) >> (W - 1)) r |= 1; \
  if (!(fb(a.hi) >> (W - 1))) r |= 2; } return r; } \
static inline FT ite##X(L c, FT a, FT b) { if (c == 1) return a; if (c == 2) return b; FT r; if (!c) return a; \
  if (!(a.fl & 1)) { r = b; r.fl |= a.fl; return r; } if (!(b.fl & 1)) { r = a; r.fl |= b.fl; return r; } \
  r.lo = a.lo < b.lo ? a.lo : b.lo; r.hi = a.hi > b.hi ? a.hi : b.hi; r.fl = a.fl | b.fl; \
  if (r.lo == 0) r.lo = -(T)0; if (r.hi == 0) r.hi = (T)0; return r; } \
static inline B bits##X(FT a) { B r; \
  if (a.fl == 1) { \
    if (!(fb(a.lo) >> (W - 1))) { r.lo = fb(a.lo); r.wd = fb(a.hi) - r.lo; return r; } \
    if (fb(a.hi) >> (W - 1)) { r.lo = fb(a.hi); r.wd = fb(a.lo) - r.lo; return r; } \
    r.lo = 0; r.wd = fb(a.lo); return r; } \
  if (a.fl == 3 && !(fb(a.lo) >> (W - 1)) && 0) { } \
  r.lo = 0; r.wd = MK(W); return r; } \
static inline FT unbits##X(B b) { u64 hi = b.lo + b.wd; \
  if (b.wd > MK(W) - b.lo) return top##X(); \
  if (hi <= (u64)EXPM) { FT r; r.lo = bf(b.lo); r.hi = bf(hi); r.fl = 1; return r; } \
  if (b.lo >= (u64)SGN && hi <= ((u64)SGN | (u64)EXPM)) { FT r; r.lo = bf(hi); r.hi = bf(b.lo); r.fl = 1; return r; } \
  if (b.lo > (u64)EXPM && hi < (u64)SGN) return nan##X(); \
  if (b.lo > ((u64)SGN | (u64)EXPM)) return nan##X(); \
  if (hi < (u64)SGN) { FT r; r.lo = bf(b.lo); r.hi = INFINITY; r.fl = 3; return r; } \
  if (b.lo >= (u64)SGN) { FT r; r.lo = -INFINITY; r.hi = bf(b.lo); r.fl = 3; return r; } \
  return top##X(); }
FOPS(float, 4, fb4, bf4, F4, 0x7f800000u, 0x80000000u, 0x7fc00000u, 32, sqrtf)
FOPS(double, 8, fb8, bf8, F8, 0x7ff0000000000000ull, 0x8000000000000000ull, 0x7ff8000000000000ull, 64, sqrt)
static inline F8 widen(F4 a) { F8 r = {a.lo, a.hi, a.fl}; return r; }
static inline F4 narrow(F8 a) { F4 r = {(float)a.lo, (float)a.hi, a.fl}; return r; }
static inline F4 same4(F4 a) { return a; }
static inline F8 same8(F8 a) { return a; }
static inline F4 rti4(F4 a, int m) { if (!(a.fl & 1)) return a; F4 r = a; if (m == 0) { r.lo = truncf(a.lo); r.hi = truncf(a.hi); }
  else if (m == 1) { r.lo = floorf(a.lo); r.hi = floorf(a.hi); } else { r.lo = ceilf(a.lo); r.hi = ceilf(a.hi); }
  return pt4(a) ? r : fix4(r.lo, r.hi, a.fl); }
static inline F8 rti8(F8 a, int m) { if (!(a.fl & 1)) return a; F8 r = a; if (m == 0) { r.lo = trunc(a.lo); r.hi = trunc(a.hi); }
  else if (m == 1) { r.lo = floor(a.lo); r.hi = floor(a.hi); } else { r.lo = ceil(a.lo); r.hi = ceil(a.hi); }
  return pt8(a) ? r : fix8(r.lo, r.hi, a.fl); }
/* a <= b holds */
#define REFINE(X, a, b) if (!(a.fl &= 1) || !(b.fl &= 1)) return 2; if (b.hi < a.hi) { a.hi = b.hi; if (a.hi == 0) a.hi = 0.0; } \
  if (a.lo > b.lo) { b.lo = a.lo; if (b.lo == 0) b.lo = -0.0; } if (a.lo > a.hi || b.lo > b.hi) return 2;
/* ---- machine words */
static inline B bc(u64 v) { B r = {v, 0}; return r; }
static inline B btop(int W) { B r = {0, MK(W)}; return r; }
static inline int wraps(B a, int W) { return a.wd > MK(W) - a.lo; }
static inline B nw(B a, int W) { return wraps(a, W) ? btop(W) : a; }
static inline B badd(B a, B b, int W) { B r; if (a.wd > MK(W) - b.wd) return btop(W); r.wd = a.wd + b.wd; r.lo = (a.lo + b.lo) & MK(W); return r; }
static inline B bneg(B a, int W) { B r; r.wd = a.wd; r.lo = (0 - (a.lo + a.wd)) & MK(W); return r; }
static inline B bsub(B a, B b, int W) { return badd(a, bneg(b, W), W); }
static inline B bmul(B a, B b, int W) { if (a.wd && b.wd) { if (wraps(a, W) || wraps(b, W)) return btop(W);
    unsigned __int128 h = (unsigned __int128)(a.lo + a.wd) * (b.lo + b.wd); if (h > MK(W)) return btop(W);
    B r; r.lo = a.lo * b.lo; r.wd = (u64)h - r.lo; return r; }
  if (a.wd) { B t = a; a = b; b = t; }
  u64 c = a.lo; int ng = 0; if (c >> (W - 1)) { c = (0 - c) & MK(W); ng = 1; }
  unsigned __int128 w = (unsigned __int128)b.wd * c; if (w > MK(W)) return btop(W);
  B r; r.lo = (b.lo * c) & MK(W); r.wd = (u64)w; return ng ? bneg(r, W) : r; }
static inline B brange(u64 lo, u64 hi) { B r; r.lo = lo; r.wd = hi - lo; return r; }
static inline u64 fill(u64 x) { x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; return x; }
static inline B band(B a, B b, int W) {
  if (!a.wd && !b.wd) return bc(a.lo & b.lo);
  if (!a.wd) { B t = a; a = b; b = t; }
  if (!b.wd) { u64 m = b.lo;
    if (!(m & (m + 1))) { u64 s = a.lo & m; if (a.wd <= m - s && a.wd <= m) return brange(s, s + a.wd); return brange(0, m); }
    u64 inv = ~m & MK(W); if (!(inv & (inv + 1))) { if (!wraps(a, W)) return brange(a.lo & m, (a.lo + a.wd) & m); return brange(0, m); }
    return brange(0, m); }
  a = nw(a, W); b = nw(b, W); u64 h = a.lo + a.wd, g = b.lo + b.wd; return brange(0, h < g ? h : g); }
static inline B bor(B a, B b, int W) {
  if (!a.wd && !b.wd) return bc(a.lo | b.lo);
  a = nw(a, W); b = nw(b, W); u64 h = a.lo + a.wd, g = b.lo + b.wd;
  if (!b.wd) { B t = a; a = b; b = t; u64 x = h; h = g; g = x; }
  if (!a.wd && (a.lo == 0 || g < (a.lo & (0 - a.lo)))) return brange(a.lo + b.lo, a.lo + g);
  u64 lo = a.lo > b.lo ? a.lo : b.lo; return brange(lo, fill(h | g)); }
static inline B bxor(B a, B b, int W) {
  if (!a.wd && !b.wd) return bc(a.lo ^ b.lo);
  if (!b.wd && b.lo == 1ull << (W - 1)) return badd(a, b, W);
  if (!a.wd && a.lo == 1ull << (W - 1)) return badd(a, b, W);
  if (!b.wd && b.lo == MK(W)) return bsub(b, a, W);
  if (!a.wd && a.lo == MK(W)) return bsub(a, b, W);
  a = nw(a, W); b = nw(b, W); return brange(0, fill((a.lo + a.wd) | (b.lo + b.wd))); }
static inline B bshl(B a, B k, int W) { if (k.wd) return btop(W); if (k.lo >= (u64)W) return bc(0); return bmul(bc(1ull << k.lo & MK(W)), a, W); }
static inline B blshr(B a, B k, int W) { if (k.wd) { a = nw(a, W); return brange(0, a.lo + a.wd); } if (k.lo >= (u64)W) return bc(0);
  a = nw(a, W); return brange(a.lo >> k.lo, (a.lo + a.wd) >> k.lo); }
/* signed ranges */
static inline i64 sx(u64 v, int W) { return W == 64 ? (i64)v : (i64)(v << (64 - W)) >> (64 - W); }
static inline void srange(B a, int W, i64 *lo, i64 *hi) { u64 s = 1ull << (W - 1); B t = badd(a, bc(s), W);
  if (wraps(t, W)) { *lo = sx(s, W); *hi = (i64)(s - 1); return; } *lo = sx((t.lo - s) & MK(W), W); *hi = sx((t.lo + t.wd - s) & MK(W), W); }
static inline B sback(i64 lo, i64 hi, int W) { B r; r.lo = (u64)lo & MK(W); r.wd = (u64)hi - (u64)lo; return r; }
static inline B bashr(B a, B k, int W) { i64 l, h; srange(a, W, &l, &h); if (k.wd) return btop(W); int s = k.lo >= (u64)W ? W - 1 : (int)k.lo; return sback(l >> s, h >> s, W); }
static inline B budiv(B a, B b, int W) { if (b.wd || !b.lo) { if (!b.lo) return btop(W); a = nw(a, W); return brange(0, a.lo + a.wd); } a = nw(a, W); return brange(a.lo / b.lo, (a.lo + a.wd) / b.lo); }
static inline B burem(B a, B b, int W) { if (b.wd || !b.lo) return btop(W); a = nw(a, W); if (a.lo / b.lo == (a.lo + a.wd) / b.lo) return brange(a.lo % b.lo, (a.lo + a.wd) % b.lo); return brange(0, b.lo - 1); }
static inline B bsdiv(B a, B b, int W) { i64 d; if (b.wd || !b.lo) return btop(W); d = sx(b.lo, W); if (d < 2) { if (d == 1) return a; return btop(W); } i64 l, h; srange(a, W, &l, &h); return sback(l / d, h / d, W); }
static inline B bsrem(B a, B b, int W) { i64 d; if (b.wd || !b.lo) return btop(W); d = sx(b.lo, W); if (d < 2) return btop(W); i64 l, h; srange(a, W, &l, &h);
  if (l / d == h / d && (l >= 0 || h < 0)) return sback(l % d, h % d, W); return sback(l < 0 ? 1 - d : 0, h > 0 ? d - 1 : 0, W); }
static inline B bzext(B a, int W) { return nw(a, W); }
static inline B bsext(B a, int W, int V) { i64 l, h; srange(a, W, &l, &h); return sback(l, h, V); }
static inline B btrunc(B a, int V) { B r; if (a.wd >= MK(V)) return btop(V); r.lo = a.lo & MK(V); r.wd = a.wd; return r; }
static inline B bite(L c, B a, B b, int W) { if (c == 1) return a; if (c == 2) return b;
  u64 d = (b.lo - a.lo) & MK(W), e = (a.lo - b.lo) & MK(W); B x = btop(W), y = btop(W);
  if (b.wd <= MK(W) - d) { x.lo = a.lo; x.wd = d + b.wd > a.wd ? d + b.wd : a.wd; }
  if (a.wd <= MK(W) - e) { y.lo = b.lo; y.wd = e + a.wd > b.wd ? e + a.wd : b.wd; }
  return x.wd <= y.wd ? x : y; }
static inline L bult(B a, B b, int W) { a = nw(a, W); b = nw(b, W); L r = 0; if (a.lo < b.lo + b.wd) r |= 1; if (!(a.lo + a.wd < b.lo)) r |= 2; return r; }
static inline L bule(B a, B b, int W) { L r = bult(b, a, W); return (r & 1) << 1 | r >> 1; }
static inline L bslt(B a, B b, int W) { i64 l, h, m, n; srange(a, W, &l, &h); srange(b, W, &m, &n); L r = 0; if (l < n) r |= 1; if (!(h < m)) r |= 2; return r; }
static inline L bsle(B a, B b, int W) { L r = bslt(b, a, W); return (r & 1) << 1 | r >> 1; }
static inline L beq(B a, B b, int W) { L r = 0; if (((b.lo - a.lo) & MK(W)) <= a.wd || ((a.lo - b.lo) & MK(W)) <= b.wd) r |= 1;
  if (!(a.wd == 0 && b.wd == 0 && a.lo == b.lo)) r |= 2; return r; }
#define TOI(X, FT) static inline B tos##X(FT a, int W) { double m = ldexp(1, W - 1); if (a.fl != 1 || !(trunc(a.lo) >= -m) || !(trunc(a.hi) < m)) return btop(W); \
  return sback((i64)trunc(a.lo), (i64)trunc(a.hi), W); } \
static inline B tou##X(FT a, int W) { double m = ldexp(1, W); if (a.fl != 1 || !(trunc(a.lo) >= 0) || !(trunc(a.hi) < m)) return btop(W); \
  return brange((u64)trunc(a.lo), (u64)trunc(a.hi)); }
TOI(4, F4)
TOI(8, F8)
static inline F4 froms4(B a, int W) { i64 l, h; srange(a, W, &l, &h); F4 r = {(float)l, (float)h, 1}; return pt4(r) && l == h ? r : fix4(r.lo, r.hi, 1); }
static inline F8 froms8(B a, int W) { i64 l, h; srange(a, W, &l, &h); F8 r = {(double)l, (double)h, 1}; return pt8(r) && l == h ? r : fix8(r.lo, r.hi, 1); }
static inline F4 fromu4(B a, int W) { a = nw(a, W); F4 r = {(float)a.lo, (float)(a.lo + a.wd), 1}; return r; }
static inline F8 fromu8(B a, int W) { a = nw(a, W); F8 r = {(double)a.lo, (double)(a.lo + a.wd), 1}; return r; }
static inline F4 sgn4(B s, float c) { if (!s.wd) return cst4(s.lo ? -c : c); F4 r = {-c, c, 1}; return r; }
static inline F8 sgn8(B s, double c) { if (!s.wd) return cst8(s.lo ? -c : c); F8 r = {-c, c, 1}; return r; }
/* y - (T)(intW)y */
#define FRAC(X, FT, T, TR, W) static inline FT frac##X(FT a, int w) { T m = (T)ldexp(1, w - 1); \
  if (a.fl != 1 || !(a.lo > -m) || !(a.hi < m)) return top##X(); if (pt##X(a)) return cst##X(a.lo - (T)(i64)TR(a.lo)); \
  if (TR(a.lo) == TR(a.hi)) return fix##X(a.lo - TR(a.lo), a.hi - TR(a.hi), 1); \
  return fix##X(a.lo < 0 ? -1 : 0, a.hi > 0 ? 1 : 0, 1); }
FRAC(4, F4, float, truncf, 32)
FRAC(8, F8, double, trunc, 64)
/* ---- propositional */
static inline L lnot(L a) { return (a & 1) << 1 | a >> 1; }
static inline L land(L a, L b) { return (a & b & 1) | ((a | b) & 2); }
static inline L lor(L a, L b) { return ((a | b) & 1) | (a & b & 2); }
static inline L leqv(L a, L b) { L r = 0; if ((a & b)) r |= 1; if (((a & 1) && (b & 2)) || ((a & 2) && (b & 1))) r |= 2; return r; }
static inline L lite(L c, L a, L b) { if (c == 1) return a; if (c == 2) return b; return a | b; }
static inline B l2b(L a) { B r; r.lo = (a & 2) ? 0 : 1; r.wd = a == 3; return r; }
/* ---- mathematical functions, libm widened */
static inline F8 wid(double lo, double hi) { double e = 1.8e-15; F8 r; if (lo != lo || hi != hi) return top8();
  r.lo = lo - (fabs(lo) * e + 1e-320); r.hi = hi + (fabs(hi) * e + 1e-320); r.fl = 1;
  if (lo == -INFINITY) r.lo = lo; if (lo == INFINITY) r.lo = 1.7e308; if (hi == INFINITY) r.hi = hi; if (hi == -INFINITY) r.hi = -1.7e308; return r; }
#define MONO(N, LOW) static inline F8 ref_##N(F8 a) { if (a.fl != 1 || !(a.lo >= LOW)) return a.fl == 2 ? nan8() : top8(); if (a.lo == a.hi && (N)(a.lo) == 0 && a.lo == 0) return cst8((N)(a.lo)); return wid(N(a.lo), N(a.hi)); }
MONO(exp, -INFINITY) MONO(erf, -INFINITY) MONO(sinh, -INFINITY) MONO(tanh, -INFINITY) MONO(cbrt, -INFINITY)
MONO(log, 0) MONO(log10, 0) MONO(sqrt, 0)
static inline F8 ref_erfc(F8 a) { if (a.fl != 1) return a.fl == 2 ? nan8() : top8(); return wid(erfc(a.hi), erfc(a.lo)); }
static inline F8 ref_cosh(F8 a) { if (a.fl != 1) return a.fl == 2 ? nan8() : top8(); if (a.lo >= 0) return wid(cosh(a.lo), cosh(a.hi)); if (a.hi <= 0) return wid(cosh(a.hi), cosh(a.lo)); double p = cosh(a.lo), q = cosh(a.hi); return wid(1, p > q ? p : q); }
#define PERI(N) static inline F8 ref_##N(F8 a) { if (a.fl != 1 || !(a.lo >= -1e15 && a.hi <= 1e15)) return a.fl == 2 ? nan8() : top8(); \
  double p = N(a.lo), q = N(a.hi), w = a.hi - a.lo, e = w * w / 8; if (p > q) { double t = p; p = q; q = t; } \
  if (e > 2) { p = -1; q = 1; e = 0; } return wid(p - e, q + e); }
PERI(sin) PERI(cos)
static inline F8 ref_tan(F8 a) { if (a.fl != 1 || !(a.lo >= -1e15 && a.hi <= 1e15)) return a.fl == 2 ? nan8() : top8();
  double l = floor((a.lo / M_PI) + 0.5 - 1e-9), h = floor((a.hi / M_PI) + 0.5 + 1e-9); if (l != h) return top8(); 
  F8 r = wid(tan(a.lo), tan(a.hi)); return r; }
'''

MAIN = r'''
typedef struct { u64 lo[NV], wd[NV]; } Box;
typedef struct { Box *stk; long cap, n; } Stk;
static void push(Stk *s, Box b) { if (s->n == s->cap) { s->cap = s->cap ? s->cap * 2 : 1024; s->stk = (Box *)realloc(s->stk, s->cap * sizeof(Box)); } s->stk[s->n++] = b; }
static const int WV[NV] = WIDTHS;
static int point(Box b) { for (int i = 0; i < NV; i++) if (b.wd[i]) return 0; return 1; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void report(Box b) { pthread_mutex_lock(&mu); printf("sat"); for (int i = 0; i < NV; i++) printf(" %llu", (unsigned long long)b.lo[i]); printf("\n"); fflush(stdout); _exit(0); }
static void halves(Box b, Box *x, Box *y) {
  int w = 0; for (int i = 1; i < NV; i++) if (b.wd[i] > b.wd[w]) w = i;
  /* several variables: rather one whose value alone settles the box */
  if (NV > 1) for (int i = 0; i < NV; i++) if (i != w && b.wd[i]) { Box c = b; c.lo[i] += c.wd[i] / 2; c.wd[i] = 0; int r = eval(c.lo, c.wd);
    Box d = b; d.lo[w] += d.wd[w] / 2; d.wd[w] = 0; int q = eval(d.lo, d.wd); if (r != 3 && q == 3) { w = i; break; } }
  u64 half = b.wd[w] / 2; *x = b; *y = b; x->wd[w] = half; y->lo[w] += half + 1; y->wd[w] -= half + 1; }
static Stk work; static long next; static volatile int out_of_time, stuck; static Box stuckat; static u64 total; static double limit; static struct timespec t0;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); }
/* 1: discarded or settled, 0: to be split */
static int settle(Box b) {
  int r = eval(b.lo, b.wd);
  if (r == 2 || r == 0) return 1;
  int p = point(b);
  if (r == 1 || p) { Box c = b; for (int i = 0; i < NV; i++) c.wd[i] = 0; if (eval(c.lo, c.wd) == 1) report(c); }
  if (p) { pthread_mutex_lock(&mu); if (!stuck) stuckat = b; stuck++; pthread_mutex_unlock(&mu); return 1; }
  return 0; }
static void *worker(void *arg) {
  Stk s = {0, 0, 0}; u64 boxes = 0;
  for (;;) {
    long k = __sync_fetch_and_add(&next, 1);
    if (k >= work.n || stuck > 64 || out_of_time) break;
    push(&s, work.stk[k]);
    while (s.n) {
      Box b = s.stk[--s.n];
      if (!(++boxes & 0x3fff) && (out_of_time || stuck > 64 || now() > limit)) { out_of_time = out_of_time || now() > limit; goto end; }
      if (settle(b)) continue;
      Box x, y; halves(b, &x, &y); push(&s, y); push(&s, x);
    }
  }
end:
  __sync_fetch_and_add(&total, boxes);
  return 0; }
int main(int argc, char **argv) {
  limit = atof(argv[1]); int nt = atoi(argv[2]); clock_gettime(CLOCK_MONOTONIC, &t0);
  Stk st = {0, 0, 0};
  /* special and spread values first */
  u64 seed = 88172645463325252ull;
  static const u32 sp[] = {0, 1, 0x00400000, 0x007fffff, 0x00800000, 0x3f800000, 0x3f800001, 0x3f7fffff, 0x40000000, 0x7f7fffff, 0x7f800000, 0x7f800001, 0x7fc00000, 0x7fffffff};
  for (int k = 0; k < 40000; k++) { Box b; for (int i = 0; i < NV; i++) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
      u64 v = seed; if (k < 28 || (NV > 1 && (seed >> 60) == 3)) { v = sp[(k < 28 && NV == 1 ? k : (seed >> 33)) % 14]; if (k >= 14) v |= 0x80000000u; if (WV[i] == 64) v <<= 32; }
      else if (k & 1) { u64 e = WV[i] == 32 ? 112 + (seed >> 40) % 32 : 1008 + (seed >> 40) % 32; v = WV[i] == 32 ? (v & 0x807fffff) | e << 23 : (v & 0x800fffffffffffffull) | e << 52; }
      b.lo[i] = v & MK(WV[i]); b.wd[i] = 0; }
    if (eval(b.lo, b.wd) == 1) report(b); }
  for (int m = 0; m < (1 << NV); m++) { Box b; for (int i = 0; i < NV; i++) { u64 h = 1ull << (WV[i] - 1); if (WV[i] == 1) { b.lo[i] = m >> i & 1; b.wd[i] = 0; } else { b.lo[i] = (m >> i & 1) ? h : 0; b.wd[i] = h - 1; } } push(&st, b); }
  /* breadth first to some thousand boxes, which the threads share out */
  long head = 0;
  while (head < st.n && st.n - head < 4096) {
    Box b = st.stk[head++]; total++;
    if (settle(b)) continue;
    Box x, y; halves(b, &x, &y); push(&st, x); push(&st, y);
  }
  for (; head < st.n; head++) push(&work, st.stk[head]);
  pthread_t th[64];
  for (int i = 0; i < nt; i++) pthread_create(&th[i], 0, worker, 0);
  for (int i = 0; i < nt; i++) pthread_join(th[i], 0);
  if (stuck) { printf("unknown stuck"); for (int i = 0; i < NV; i++) printf(" %llx", (unsigned long long)stuckat.lo[i]); printf("\n"); return 0; }
  if (out_of_time) { printf("unknown time %llu\n", (unsigned long long)total); return 0; }
  printf("unsat %llu\n", (unsigned long long)total); return 0;
}
'''


class Gen:
    def __init__(self, cuts=()):
        self.cuts = set(cuts)
        self.lines = []
        self.memo = {}
        self.keep = []
        self.vars = []

    def emit(self, ty, e):
        v = 'v%d' % len(self.lines)
        self.lines.append('%s %s = %s;' % (ty, v, e))
        return v

    def go(self, t):
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if x.get_id() in self.memo:
                st.pop()
                continue
            ch = self.children(x)
            todo = [c for c in ch if c.get_id() not in self.memo]
            if todo:
                st += todo
                continue
            self.memo[x.get_id()] = self.node(x)
            self.keep.append(x)
            st.pop()
        return self.memo[t.get_id()]

    def children(self, x):
        if x.get_id() in self.cuts:
            return []
        if x.decl().kind() == z3.Z3_OP_FPA_TO_FP and x.num_args() == 1 and z3.is_app_of(x.arg(0), z3.Z3_OP_CONCAT) and \
                x.arg(0).num_args() == 2 and x.arg(0).arg(0).size() == 1:
            return list(x.arg(0).children()) + [x.arg(0)]
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in fpb_syms:
            return [fpb_syms[x.decl().name()]]
        return [c for c in x.children() if not z3.is_fprm(c)]

    def node(self, x):
        if x.get_id() in self.cuts:
            X = self.X(x)
            w = 32 if X == '4' else 64
            return self.emit('F' + X, 'unbits%s(V(%d))' % (X, self.var(z3.BitVec('cut!%d' % x.get_id(), w), w)))
        k = x.decl().kind()
        ch = [self.memo[c.get_id()] for c in self.children(x)]
        if z3.is_fp(x):
            return self.fp(x, k, ch)
        if z3.is_bool(x):
            return self.boolean(x, k, ch)
        if z3.is_bv(x):
            return self.word(x, k, ch)
        raise Cannot('sort %s' % x.sort())

    def X(self, t):
        w = t.sort().ebits() + t.sort().sbits()
        if w not in (32, 64):
            raise Cannot('fp width')
        return '4' if w == 32 else '8'

    def rm(self, x):
        k = x.arg(0).decl().kind()
        return k

    def fp(self, x, k, ch):
        X = self.X(x)
        T = 'F' + X
        if k in (z3.Z3_OP_FPA_NUM, z3.Z3_OP_FPA_PLUS_INF, z3.Z3_OP_FPA_MINUS_INF, z3.Z3_OP_FPA_NAN, z3.Z3_OP_FPA_PLUS_ZERO,
                 z3.Z3_OP_FPA_MINUS_ZERO):
            if x.isNaN():
                return self.emit(T, 'nan%s()' % X)
            b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
            return self.emit(T, 'cst%s(bf%s(%#xull))' % (X, X, b))
        ar = {z3.Z3_OP_FPA_ADD: 'add', z3.Z3_OP_FPA_SUB: 'sub', z3.Z3_OP_FPA_MUL: 'mul', z3.Z3_OP_FPA_DIV: 'div', z3.Z3_OP_FPA_SQRT: 'sqrt'}
        if k in ar:
            if self.rm(x) != z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN:
                raise Cannot('rounding mode')
            if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
                y = frac_of(x, k)
                if y is not None:
                    return self.emit(T, 'frac%s(%s, %d)' % (X, self.memo[y[0].get_id()], y[1]))
            if k == z3.Z3_OP_FPA_MUL and ch[0] == ch[1]:
                return self.emit(T, 'sqr%s(%s)' % (X, ch[0]))
            return self.emit(T, '%s%s(%s)' % (ar[k], X, ', '.join(ch)))
        if k == z3.Z3_OP_FPA_NEG:
            return self.emit(T, 'neg%s(%s)' % (X, ch[0]))
        if k == z3.Z3_OP_FPA_ABS:
            return self.emit(T, 'abs%s(%s)' % (X, ch[0]))
        if k == z3.Z3_OP_ITE:
            return self.emit(T, 'ite%s(%s, %s, %s)' % (X, ch[0], ch[1], ch[2]))
        if k == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
            m = {z3.Z3_OP_FPA_RM_TOWARD_ZERO: 0, z3.Z3_OP_FPA_RM_TOWARD_NEGATIVE: 1, z3.Z3_OP_FPA_RM_TOWARD_POSITIVE: 2}.get(self.rm(x))
            if m is None:
                raise Cannot('rounding mode')
            return self.emit(T, 'rti%s(%s, %d)' % (X, ch[0], m))
        if k == z3.Z3_OP_FPA_TO_FP:
            if x.num_args() == 1:
                a = x.arg(0)
                if a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() == 2 and a.arg(0).size() == 1 and z3.is_bv_value(a.arg(1)) and \
                        a.arg(1).as_long() <= (0x7f800000 if X == '4' else 0x7ff0000000000000):
                    # a constant with either sign
                    return self.emit(T, 'sgn%s(%s, bf%s(%#xull))' % (X, self.memo[a.arg(0).get_id()], X, a.arg(1).as_long()))
                return self.emit(T, 'unbits%s(%s)' % (X, ch[-1]))
            if self.rm(x) != z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN:
                raise Cannot('rounding mode')
            a = x.arg(1)
            if z3.is_fp(a):
                Y = self.X(a)
                return self.emit(T, {('8', '4'): 'widen', ('4', '8'): 'narrow', ('4', '4'): 'same4', ('8', '8'): 'same8'}[(X, Y)] + '(%s)' % ch[0])
            if z3.is_bv(a) and a.size() <= 64:
                return self.emit(T, 'froms%s(%s, %d)' % (X, ch[0], a.size()))
        if k == z3.Z3_OP_FPA_TO_FP_UNSIGNED and self.rm(x) == z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN and x.arg(1).size() <= 64:
            return self.emit(T, 'fromu%s(%s, %d)' % (X, ch[0], x.arg(1).size()))
        if k == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('REF.'):
            return self.emit(T, 'ref_%s(%s)' % (x.decl().name()[4:], ch[0]))
        raise Cannot('fp operation %s' % x.decl())

    def boolean(self, x, k, ch):
        if k == z3.Z3_OP_TRUE:
            return self.emit('L', '1')
        if k == z3.Z3_OP_FALSE:
            return self.emit('L', '2')
        if k == z3.Z3_OP_UNINTERPRETED and z3.is_const(x):
            i = self.var(x, 1)
            return self.emit('L', 'lnot(beq(V(%d), bc(0), 1))' % i)
        if k == z3.Z3_OP_NOT:
            return self.emit('L', 'lnot(%s)' % ch[0])
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = ch[0]
            for c in ch[1:]:
                r = self.emit('L', '%s(%s, %s)' % ('land' if k == z3.Z3_OP_AND else 'lor', r, c))
            return r
        if k == z3.Z3_OP_IMPLIES:
            return self.emit('L', 'lor(lnot(%s), %s)' % tuple(ch))
        if k == z3.Z3_OP_XOR:
            return self.emit('L', 'lnot(leqv(%s, %s))' % tuple(ch))
        if k == z3.Z3_OP_ITE:
            return self.emit('L', 'lite(%s, %s, %s)' % tuple(ch))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT):
            if len(ch) != 2:
                raise Cannot('distinct')
            a = x.arg(0)
            if ch[0] == ch[1]:
                return self.emit('L', '2' if k == z3.Z3_OP_DISTINCT else '1')
            if z3.is_fp(a):
                e = 'eq%s(%s, %s)' % (self.X(a), ch[0], ch[1])
            elif z3.is_bool(a):
                e = 'leqv(%s, %s)' % tuple(ch)
            elif z3.is_bv(a) and a.size() <= 64:
                e = 'beq(%s, %s, %d)' % (ch[0], ch[1], a.size())
            else:
                raise Cannot('equality of %s' % a.sort())
            return self.emit('L', ('lnot(%s)' if k == z3.Z3_OP_DISTINCT else '%s') % e)
        f2 = {z3.Z3_OP_FPA_LT: ('lt', 0), z3.Z3_OP_FPA_GT: ('lt', 1), z3.Z3_OP_FPA_LE: ('le', 0), z3.Z3_OP_FPA_GE: ('le', 1), z3.Z3_OP_FPA_EQ: ('feq', 0)}
        if k in f2:
            n, sw = f2[k]
            if sw:
                ch = [ch[1], ch[0]]
            if ch[0] == ch[1]:
                return self.emit('L', '2' if n == 'lt' else 'lnot(isnan%s(%s))' % (self.X(x.arg(0)), ch[0]))
            return self.emit('L', '%s%s(%s, %s)' % (n, self.X(x.arg(0)), ch[0], ch[1]))
        f1 = {z3.Z3_OP_FPA_IS_NAN: 'isnan', z3.Z3_OP_FPA_IS_INF: 'isinf', z3.Z3_OP_FPA_IS_ZERO: 'iszero', z3.Z3_OP_FPA_IS_NEGATIVE: 'isneg'}
        if k in f1:
            return self.emit('L', '%s%s(%s)' % (f1[k], self.X(x.arg(0)), ch[0]))
        c2 = {z3.Z3_OP_ULT: ('bult', 0), z3.Z3_OP_UGT: ('bult', 1), z3.Z3_OP_ULEQ: ('bule', 0), z3.Z3_OP_UGEQ: ('bule', 1),
              z3.Z3_OP_SLT: ('bslt', 0), z3.Z3_OP_SGT: ('bslt', 1), z3.Z3_OP_SLEQ: ('bsle', 0), z3.Z3_OP_SGEQ: ('bsle', 1)}
        if k in c2 and x.arg(0).size() <= 64:
            n, sw = c2[k]
            if sw:
                ch = [ch[1], ch[0]]
            return self.emit('L', '%s(%s, %s, %d)' % (n, ch[0], ch[1], x.arg(0).size()))
        raise Cannot('predicate %s' % x.decl())

    def refine(self, f):
        """from here on f holds: tighten the operands of a comparison"""
        pos = True
        while z3.is_not(f):
            f = f.arg(0)
            pos = not pos
        k = f.decl().kind()
        if k == z3.Z3_OP_FPA_IS_NAN and not pos:
            self.lines.append('if (!(%s.fl &= 1)) return 2;' % self.memo[f.arg(0).get_id()])
            return
        sw = {z3.Z3_OP_FPA_LT: 0, z3.Z3_OP_FPA_LE: 0, z3.Z3_OP_FPA_GT: 1, z3.Z3_OP_FPA_GE: 1, z3.Z3_OP_FPA_EQ: 0}.get(k)
        if sw is None or f.arg(0).eq(f.arg(1)):
            return
        a, b = [self.memo[c.get_id()] for c in f.children()]
        if sw:
            a, b = b, a
        X = self.X(f.arg(0))
        if k == z3.Z3_OP_FPA_EQ:
            if pos:
                self.lines.append('REFINE(%s, %s, %s) REFINE(%s, %s, %s)' % (X, a, b, X, b, a))
        elif pos:
            self.lines.append('REFINE(%s, %s, %s)' % (X, a, b))
        else:
            self.lines.append('if (%s.fl == 1 && %s.fl == 1) { REFINE(%s, %s, %s) }' % (a, b, X, b, a))

    def var(self, x, w):
        nm = x.decl().name()
        for i, (v, _) in enumerate(self.vars):
            if v.eq(x):
                return i
        self.vars.append((x, w))
        if len(self.vars) > 3:
            raise Cannot('more than three variables')
        return len(self.vars) - 1

    def word(self, x, k, ch):
        W = x.size()
        if W > 64:
            raise Cannot('word wider than 64 bits')
        if z3.is_bv_value(x):
            return self.emit('B', 'bc(%#xull)' % x.as_long())
        if k == z3.Z3_OP_UNINTERPRETED and z3.is_const(x):
            if x.decl().name() in fpb_syms:
                f = fpb_syms[x.decl().name()]
                return self.emit('B', 'bits%s(%s)' % (self.X(f), ch[0]))
            return self.emit('B', 'V(%d)' % self.var(x, W))
        if k == z3.Z3_OP_FPA_TO_IEEE_BV:
            return self.emit('B', 'bits%s(%s)' % (self.X(x.arg(0)), ch[0]))
        if k == z3.Z3_OP_ITE:
            return self.emit('B', 'bite(%s, %s, %s, %d)' % (ch[0], ch[1], ch[2], W))
        b2 = {z3.Z3_OP_BADD: 'badd', z3.Z3_OP_BMUL: 'bmul', z3.Z3_OP_BAND: 'band', z3.Z3_OP_BOR: 'bor', z3.Z3_OP_BXOR: 'bxor'}
        if k in b2:
            r = ch[0]
            for c in ch[1:]:
                r = self.emit('B', '%s(%s, %s, %d)' % (b2[k], r, c, W))
            return r
        b3 = {z3.Z3_OP_BSUB: 'bsub', z3.Z3_OP_BSHL: 'bshl', z3.Z3_OP_BLSHR: 'blshr', z3.Z3_OP_BASHR: 'bashr', z3.Z3_OP_BUDIV: 'budiv',
              z3.Z3_OP_BUDIV_I: 'budiv', z3.Z3_OP_BUREM: 'burem', z3.Z3_OP_BUREM_I: 'burem', z3.Z3_OP_BSDIV: 'bsdiv', z3.Z3_OP_BSDIV_I: 'bsdiv',
              z3.Z3_OP_BSREM: 'bsrem', z3.Z3_OP_BSREM_I: 'bsrem'}
        if k in b3:
            return self.emit('B', '%s(%s, %s, %d)' % (b3[k], ch[0], ch[1], W))
        if k == z3.Z3_OP_BNEG:
            return self.emit('B', 'bneg(%s, %d)' % (ch[0], W))
        if k == z3.Z3_OP_BNOT:
            return self.emit('B', 'bsub(bc(MK(%d)), %s, %d)' % (W, ch[0], W))
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            w0 = x.arg(0).size()
            r = ch[0]
            if lo:
                r = self.emit('B', 'blshr(%s, bc(%d), %d)' % (r, lo, w0))
            if hi < w0 - 1 or not lo:
                r = self.emit('B', 'btrunc(%s, %d)' % (r, W))
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            return self.emit('B', 'bzext(%s, %d)' % (ch[0], x.arg(0).size()))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.emit('B', 'bsext(%s, %d, %d)' % (ch[0], x.arg(0).size(), W))
        if k == z3.Z3_OP_CONCAT:
            args = x.children()
            r, w = ch[0], args[0].size()
            for a, c in zip(args[1:], ch[1:]):
                w += a.size()
                r = self.emit('B', '((B){%s.lo << %d, %s.wd << %d})' % (r, a.size(), r, a.size()))
                r = self.emit('B', 'badd(%s, bzext(%s, %d), %d)' % (r, c, a.size(), w))
            return r
        if k == z3.Z3_OP_FPA_TO_SBV and x.arg(0).decl().kind() == z3.Z3_OP_FPA_RM_TOWARD_ZERO:
            return self.emit('B', 'tos%s(%s, %d)' % (self.X(x.arg(1)), ch[0], W))
        if k == z3.Z3_OP_FPA_TO_UBV and x.arg(0).decl().kind() == z3.Z3_OP_FPA_RM_TOWARD_ZERO:
            return self.emit('B', 'tou%s(%s, %d)' % (self.X(x.arg(1)), ch[0], W))
        raise Cannot('word operation %s' % x.decl())


def frac_of(x, k):
    """y where x is y - (float)(int)y, or None"""
    a, b = x.arg(1), x.arg(2)
    if k == z3.Z3_OP_FPA_SUB:
        c = [(a, b)]
    else:
        c = [(u, v.arg(0)) for u, v in ((a, b), (b, a)) if v.decl().kind() == z3.Z3_OP_FPA_NEG]
    for y, t in c:
        if t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2 and z3.is_bv(t.arg(1)) and t.arg(1).size() <= 64:
            i = t.arg(1)
            if i.decl().kind() == z3.Z3_OP_FPA_TO_SBV and i.arg(0).decl().kind() == z3.Z3_OP_FPA_RM_TOWARD_ZERO and i.arg(1).eq(y):
                return y, i.size()
    return None


stats = dict(queries=0, boxes=0, time=0.0)


def cut_points(forms):
    """floating-point operations where values of different variables first meet"""
    vs, keep, out = {}, [], []
    g = Gen()
    st = list(forms)
    while st:
        x = st[-1]
        if x.get_id() in vs:
            st.pop()
            continue
        ch = g.children(x)
        todo = [c for c in ch if c.get_id() not in vs]
        if todo:
            st += todo
            continue
        st.pop()
        keep.append(x)
        if z3.is_const(x) and not ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs[x.get_id()] = frozenset([x.decl().name()])
            continue
        u = frozenset().union(*[vs[c.get_id()] for c in ch])
        vs[x.get_id()] = u
        if len(u) > 1 and z3.is_fp(x) and x.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV) \
                and all(len(vs[c.get_id()]) < len(u) for c in ch):
            out.append(x)
    return out


def mentioning(forms, nodes):
    ids = set(n.get_id() for n in nodes)
    g = Gen()
    memo = {}

    def has(x):
        st = [x]
        while st:
            y = st[-1]
            if y.get_id() in memo:
                st.pop()
                continue
            if y.get_id() in ids:
                memo[y.get_id()] = True
                continue
            ch = g.children(y)
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st += todo
                continue
            memo[y.get_id()] = any(memo[c.get_id()] for c in ch)
        return memo[x.get_id()]
    flat, todo = [], list(reversed(forms))
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo += reversed(f.children())
        else:
            flat.append(f)
    return [f for f in flat if has(f)]


def program(forms, cuts=()):
    g = Gen(c.get_id() for c in cuts)
    # definitions of bit-pattern symbols are how the generator reads those symbols
    flat = []
    todo = list(reversed(forms))
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo += reversed(f.children())
        else:
            flat.append(f)
    for f in flat:
        v = g.go(f)
        g.lines.append('r = land(r, %s); if (r == 2 || !r) return 2;' % v)
        g.refine(f)
    if not g.vars:
        raise Cannot('no variable')
    src = PRE
    src += '#define NV %d\n#define WIDTHS {%s}\n#define V(i) ((B){lo[i], wd[i]})\n' % (len(g.vars), ', '.join(str(w) for _, w in g.vars))
    src += 'static int eval(const u64 *lo, const u64 *wd) {\n  L r = 1;\n  ' + '\n  '.join(g.lines) + '\n  return r;\n}\n' + MAIN
    return src, g.vars


def decide(forms, limit):
    """('unsat', None, n) / ('sat', [(var, value)]) / ('unknown', why)"""
    forms = [f for f in forms if not is_bits_def(f)]
    src, vs = program(forms)
    cuts = cut_points(forms)
    if 0 < len(cuts) <= 2:
        r = run(src, vs, min(3, limit))
        if r[0] != 'unknown' or 'stuck' in r[1]:
            return r
        # with the results of operations on several variables taken to be arbitrary: unsat is unsat
        for sub, t in ((mentioning(forms, cuts), 8), (forms, limit / 2)):
            try:
                r = run(*program(sub, cuts), t)
                if r[0] == 'unsat':
                    return r
            except Cannot:
                pass
    return run(src, vs, limit)


def run(src, vs, limit):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='fbox')
    try:
        c = os.path.join(d, 'q.c')
        open(c, 'w').write(src)
        if os.environ.get('DV_FBOX'):
            open(os.environ['DV_FBOX'], 'w').write(src)
        p = subprocess.run(['gcc', '-O2', '-ffp-contract=off', '-w', '-o', d + '/q', c, '-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Cannot('interval program does not compile: ' + p.stdout.decode()[:300])
        try:
            p = subprocess.run([d + '/q', '%g' % limit, str(THREADS)], stdout=subprocess.PIPE, timeout=limit * 1.5 + 20)
        except subprocess.TimeoutExpired:
            return ('unknown', 'time')
        o = p.stdout.decode().split()
    finally:
        for f in ('q', 'q.c'):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
        os.rmdir(d)
    stats['queries'] += 1
    if os.environ.get('DV_KEEP') and time.time() - t0 > 30:
        open(os.environ['DV_KEEP'], 'w').write('// %.0f %s\n' % (time.time() - t0, o) + src)
    if o and o[0] == 'unsat':
        stats['boxes'] += int(o[1])
        return ('unsat', int(o[1]))
    if o and o[0] == 'sat':
        return ('sat', [(v, int(x)) for (v, _), x in zip(vs, o[1:])])
    return ('unknown', ' '.join(o[1:]) or 'interval program failed')


def is_bits_def(f):
    """fb == bits of t: built into the reading of fb"""
    if z3.is_eq(f) and z3.is_fp(f.arg(0)):
        for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
            if a.decl().kind() == z3.Z3_OP_FPA_TO_FP and a.num_args() == 1 and z3.is_const(a.arg(0)) and a.arg(0).decl().name() in fpb_syms:
                return fpb_syms[a.arg(0).decl().name()].eq(b)
    if f.decl().kind() == z3.Z3_OP_IMPLIES and f.arg(0).decl().kind() == z3.Z3_OP_FPA_IS_NAN and z3.is_eq(f.arg(1)):
        e = f.arg(1).arg(0)
        return e.decl().kind() == z3.Z3_OP_EXTRACT and z3.is_const(e.arg(0)) and e.arg(0).decl().name() in fpb_syms
    return False
