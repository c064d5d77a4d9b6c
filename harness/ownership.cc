#include "vp.h"
#include "nanolimits.h"
#include "nanomath.h"
#include "nanovector.h"
#include "nanovalarray.h"
#include "nanostring.h"
#include "nanosstream.h"
#include "nanoutility.h"
#include "nanomap.h"
#include "tmap.h"
typedef nanostl::string S;
typedef nanostl::stringstream SS;

// Every contract here carries the ownership obligations at its end: each container that survives owns its storage alone
// and exactly capacity() elements of it, everything else that was allocated has been released once, in the right form.
// Every access on the way has the obligation to stay inside live storage and to read initialised storage only.
// The families below are repeated for each element width.

template <class V, class T> inline void grow(V &v, T x, u64 m, u64 k) {
  u64 n = v.size();
  REQUIRES(n < VP_MAX && m <= VP_MAX && k < VP_MAX);
  v.resize(m);
  ENSURES("size within capacity", v.size() == m && v.capacity() >= m);
  if (k < m) {
    T y = v[k];
    v[k] = x;
    v[k] = y;
  }
}
template <class V, class T> inline void append(V &v, T x, T y) {
  REQUIRES(v.size() < VP_MAX - 1);
  v.push_back(x);
  v.push_back(y);
  T z = v[v.size() - 2];
  v.push_back(v[0]);
  ENSURES("appended elements stay in place", z == x);
}
template <class V> inline void shrink(V &v, u64 i) {
  u64 n = v.size();
  REQUIRES(n > 2 && n <= VP_MAX && i < n - 1);
  v.pop_back();
  v.erase(v.begin() + i);
  ENSURES("two elements removed", v.size() == n - 2);
  v.clear();
  v.resize(1);
}
template <class V, class T> inline void ranged(V &v, T *p, u64 n, u64 i, u64 j) {
  REQUIRES(i <= j && j <= n);
  v.assign((const T *)p + i, (const T *)p + j);
  ENSURES("size within capacity", v.size() == j - i && v.capacity() >= v.size());
}
template <class V> inline void copied(V &s, V &d) {
  REQUIRES(s.size() <= VP_MAX && d.size() <= VP_MAX);
  V a(s);
  ENSURES("a copy has its own storage", s.size() == 0 || a.data() != s.data());
  d = s;
  ENSURES("an assigned container has its own storage", s.size() == 0 || d.data() != s.data());
  ENSURES("copy and assigned copy do not share storage", s.size() == 0 || d.data() != a.data());
}
template <class V> inline void selfed(V &v) {
  REQUIRES(v.size() <= VP_MAX);
  V &w = v;
  v = w;
  v.swap(w);
}
template <class V> inline void swapped(V &a, V &b, u64 m) {
  REQUIRES(a.size() <= VP_MAX && b.size() <= VP_MAX && m <= VP_MAX);
  a.swap(b);
  V c;
  c.swap(a);
  c.resize(m);
  ENSURES("storage goes with the exchange", m == 0 || b.size() == 0 || c.data() != b.data());
}

typedef nanostl::vector<char> V1;
typedef nanostl::vector<short> V2;
typedef nanostl::vector<float> V4;
typedef nanostl::vector<u64> V8;
typedef nanostl::valarray<u8> A1;
typedef nanostl::valarray<double> A8;

CONTRACT(C02_vector1_grow, (V1 &v, char x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_vector1_append, (V1 &v, char x, char y)) { append(v, x, y); }
CONTRACT(C02_vector1_shrink, (V1 &v, u64 i)) { shrink(v, i); }
CONTRACT(C02_vector1_assign, (V1 &v, Arr<char> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_vector1_copy, (V1 &s, V1 &d)) { copied(s, d); }
CONTRACT(C02_vector1_self, (V1 &v)) { selfed(v); }
CONTRACT(C02_vector1_swap, (V1 &a, V1 &b, u64 m)) { swapped(a, b, m); }
CONTRACT(C02_vector2_grow, (V2 &v, short x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_vector2_append, (V2 &v, short x, short y)) { append(v, x, y); }
CONTRACT(C02_vector2_shrink, (V2 &v, u64 i)) { shrink(v, i); }
CONTRACT(C02_vector2_assign, (V2 &v, Arr<short> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_vector2_copy, (V2 &s, V2 &d)) { copied(s, d); }
CONTRACT(C02_vector2_self, (V2 &v)) { selfed(v); }
CONTRACT(C02_vector2_swap, (V2 &a, V2 &b, u64 m)) { swapped(a, b, m); }
CONTRACT(C02_vector4_grow, (V4 &v, float x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_vector4_shrink, (V4 &v, u64 i)) { shrink(v, i); }
CONTRACT(C02_vector4_assign, (V4 &v, Arr<float> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_vector4_copy, (V4 &s, V4 &d)) { copied(s, d); }
CONTRACT(C02_vector4_swap, (V4 &a, V4 &b, u64 m)) { swapped(a, b, m); }
CONTRACT(C02_vector8_grow, (V8 &v, u64 x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_vector8_append, (V8 &v, u64 x, u64 y)) { append(v, x, y); }
CONTRACT(C02_vector8_shrink, (V8 &v, u64 i)) { shrink(v, i); }
CONTRACT(C02_vector8_assign, (V8 &v, Arr<u64> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_vector8_copy, (V8 &s, V8 &d)) { copied(s, d); }
CONTRACT(C02_vector8_self, (V8 &v)) { selfed(v); }
CONTRACT(C02_vector8_swap, (V8 &a, V8 &b, u64 m)) { swapped(a, b, m); }

CONTRACT(C02_valarray1_grow, (A1 &v, u8 x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_valarray1_assign, (A1 &v, Arr<u8> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_valarray1_copy, (A1 &s, A1 &d)) { copied(s, d); }
CONTRACT(C02_valarray8_sized, (u64 n, u64 m, double x)) {
  REQUIRES(n <= VP_MAX && m <= VP_MAX);
  A8 v(n);
  grow(v, x, m, 0);
}
CONTRACT(C02_valarray8_grow, (A8 &v, double x, u64 m, u64 k)) { grow(v, x, m, k); }
CONTRACT(C02_valarray8_erase, (A8 &v, u64 i)) {
  u64 n = v.size();
  REQUIRES(i < n && n <= VP_MAX);
  v.erase(v.begin() + i);
  ENSURES("one element removed", v.size() == n - 1);
  v.clear();
}
CONTRACT(C02_valarray8_assign, (A8 &v, Arr<double> &a, u64 i, u64 j)) { ranged(v, a.p, a.n, i, j); }
CONTRACT(C02_valarray8_copy, (A8 &s, A8 &d)) { copied(s, d); }
CONTRACT(C02_valarray8_self, (A8 &v)) { selfed(v); }
CONTRACT(C02_valarray8_swap, (A8 &a, A8 &b, u64 m)) { swapped(a, b, m); }

CONTRACT(C02_string_make, (CStr &c, Arr<char> &a, u64 n)) {
  REQUIRES(n <= a.n);
  S s(c.p);
  S r(a.p, n);
  S z((const char *)0);
  S e;
  z = e;
  ENSURES("strings made separately have their own storage", s.c_str() != r.c_str() && z.c_str() != e.c_str());
}
CONTRACT(C02_string_range, (Arr<char> &a, u64 i, u64 j)) {
  REQUIRES(i <= j && j <= a.n);
  S s((const char *)a.p + i, (const char *)a.p + j);
  ENSURES("a string made from a range does not designate the range", s.c_str() != a.p + i);
}
CONTRACT(C02_string_copy, (S &s, S &d)) {
  REQUIRES(s.size() <= VP_MAX && d.size() <= VP_MAX);
  S a(s);
  d = s;
  ENSURES("copies have their own storage", a.c_str() != s.c_str() && d.c_str() != s.c_str() && d.c_str() != a.c_str());
}
CONTRACT(C02_string_self, (S &s)) {
  REQUIRES(s.size() <= VP_MAX);
  S &r = s;
  s = r;
}
CONTRACT(C02_string_concat, (S &a, S &b)) {
  REQUIRES(a.size() <= VP_MAX && b.size() <= VP_MAX);
  S r = a + b;
  ENSURES("a sum has its own storage", r.c_str() != a.c_str() && r.c_str() != b.c_str());
}
CONTRACT(C02_string_append, (S &a, S &b)) {
  REQUIRES(a.size() <= VP_MAX && b.size() <= VP_MAX);
  a += b;
  ENSURES("appending does not share storage", a.c_str() != b.c_str());
}
CONTRACT(C02_string_append_self, (S &a)) {
  REQUIRES(a.size() <= VP_MAX);
  a += a;
}
CONTRACT(C02_string_shrink, (S &a, u64 i)) {
  REQUIRES(a.size() <= VP_MAX && i < a.size());
  a.erase(&a[0] + i);
  a.clear();
}
CONTRACT(C02_string_compare, (S &a, S &b)) {
  u64 n = a.size();
  int r = a.compare(b);
  ENSURES("comparing reads inside both operands only and changes no size", a.size() == n && r + 1 != r);
}
CONTRACT(C02_string_compare_cstr, (S &a, CStr &c)) {
  u64 n = a.size();
  int r = a.compare(c.p);
  ENSURES("comparing reads inside both operands only and changes no size", a.size() == n && r + 1 != r);
}

CONTRACT(C02_stream_insert, (S &a, S &b)) {
  REQUIRES(a.size() <= VP_MAX && b.size() <= VP_MAX);
  SS s;
  s << a << b;
  ENSURES("a stream's text has its own storage", s.str().c_str() != a.c_str() && s.str().c_str() != b.c_str());
  s.clear();
}
CONTRACT(C02_stream_move, (S &a, S &b)) {
  REQUIRES(a.size() <= VP_MAX && b.size() <= VP_MAX);
  SS s, t;
  s << a;
  t << b;
  t = static_cast<SS &&>(s);
  ENSURES("after a move the streams have their own storage", t.str().c_str() != s.str().c_str());
  s << b;
}

typedef nanostl::map<int, int> Map;
#define AMAP TMap<int, int>
typedef nanostl::map<u64, u8> MapU;
#define UMAP TMap<u64, u8>

CONTRACT(C02_map_insert, (AMAP &t, int a, int x, int b)) {
  t.m.insert(Map::value_type(a, x));
  t.m[b] = x;
  Map::iterator i = t.m.find(a), j = t.m.find(b);
  ENSURES("entries of different keys have their own storage", a == b ? &*i == &*j : &*i != &*j);
}
CONTRACT(C02_map_walk, (AMAP &t, int a)) {
  Map::iterator it = t.m.begin();
  if (it != t.m.end()) ++it;
  Map::iterator f = t.m.find(a);
  if (f != t.m.end()) {
    f->second = 3;
    ++f;
  }
  Map::iterator u = t.m.upper_bound(a);
  ENSURES("iterators reached in different ways designate the same entries", u == f || !t.has(a));
}
CONTRACT(C02_map_copy, (AMAP &t, int a, int x)) {
  Map c(t.m);
  c[a] = x;
  Map::iterator i = c.find(a), j = t.m.find(a);
  ENSURES("the entries of a copy have their own storage", j == t.m.end() || &*i != &*j);
}
CONTRACT(C02_map_assign, (AMAP &t, AMAP &s, int a, int x)) {
  t.m = s.m;
  t.m[a] = x;
  Map::iterator i = t.m.find(a), j = s.m.find(a);
  ENSURES("the entries of an assigned map have their own storage", j == s.m.end() || &*i != &*j);
}
CONTRACT(C02_map_self, (AMAP &t, int a)) {
  const Map &c = t.m;
  Map::iterator i = t.m.find(a);
  t.m = c;
  ENSURES("self-assignment keeps every entry where it is", t.m.find(a) == i);
}
CONTRACT(C02_map_empty, (int a)) {
  Map m, c(m), d;
  d = m;
  ENSURES("nothing is found in an empty map", m.find(a) == m.end() && c.begin() == c.end() && d.upper_bound(a) == d.end());
}
CONTRACT(C02_map_wide, (UMAP &t, UMAP &s, u64 a, u8 x)) {
  t.m[a] = x;
  MapU c(t.m);
  c = s.m;
  c[a] = x;
  ENSURES("the entries of a copy have their own storage", &c[a] != &t.m[a]);
}
