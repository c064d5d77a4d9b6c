#include "vp.h"
#include "nanomath.h"
#include "nanovalarray.h"
typedef nanostl::valarray<int> V;

CONTRACT(C03_default, (u64 dummy)) {
  V v;
  ENSURES("a default-constructed valarray is empty", v.size() == 0 && v.empty());
  ENSURES("begin equals end when empty", v.begin() == v.end());
}

CONTRACT(C03_sized, (u64 n, u64 k)) {
  REQUIRES(n <= VP_MAX);
  V v(n);
  ENSURES("valarray(n) has n elements", v.size() == n && v.empty() == (n == 0));
  if (k < n) ENSURES("valarray(n) value-initialises its elements", v[k] == 0);
}

CONTRACT(C03_resize, (V &v, u64 m, u64 k)) {
  u64 n = v.size(), c = v.capacity();
  REQUIRES(n <= VP_MAX && m <= VP_MAX);
  int old = k < n ? v[k] : 0;
  v.resize(m);
  ENSURES("resize sets the size", v.size() == m && v.empty() == (m == 0));
  if (k < m) ENSURES("resize keeps the common prefix and value-initialises the rest", v[k] == old);
  ENSURES("capacity never shrinks", v.capacity() >= c && v.capacity() >= m);
}

CONTRACT(C03_clear, (V &v)) {
  v.clear();
  ENSURES("clear leaves no elements", v.size() == 0 && v.empty() && v.begin() == v.end());
}

CONTRACT(C03_access, (V &v, u64 k)) {
  REQUIRES(k < v.size());
  const V &cv = v;
  int *p = v.data();
  ENSURES("operator[] designates element k of data()", &v[k] == p + k);
  ENSURES("const operator[] designates the same element", &cv[k] == p + k);
  ENSURES("begin()+k designates element k", v.begin() + k == p + k);
  ENSURES("end() is begin()+size()", v.end() == v.begin() + v.size());
  ENSURES("not empty", !v.empty());
}

CONTRACT(C03_write, (V &v, u64 k, u64 j, int x)) {
  u64 n = v.size();
  REQUIRES(k < n && j < n);
  int old = v[j];
  v[k] = x;
  ENSURES("writing one element changes that element only", v[j] == (j == k ? x : old));
  ENSURES("writing an element keeps the size", v.size() == n);
}

CONTRACT(C03_erase, (V &v, u64 i, u64 k)) {
  u64 n = v.size();
  REQUIRES(n <= VP_MAX && i < n);
  int expect = k < i ? v[k] : (k < n - 1 ? v[k + 1] : 0);
  int *r = v.erase(v.begin() + i);
  ENSURES("erase removes one element", v.size() == n - 1);
  if (k < n - 1) ENSURES("erase keeps the order of the others", v[k] == expect);
  ENSURES("erase returns the position after the removed element", r == v.begin() + i);
}

CONTRACT(C03_assign, (V &v, Arr<int> &a, u64 i, u64 j, u64 k)) {
  REQUIRES(i <= j && j <= a.n);
  v.assign((const int *)a.p + i, (const int *)a.p + j);
  ENSURES("assign takes the length of the range", v.size() == j - i);
  if (k < j - i) ENSURES("assign copies the range in order", v[k] == a.p[i + k]);
}

CONTRACT(C03_copy, (V &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX);
  int old = k < n ? s[k] : 0;
  V d(s);
  ENSURES("a copy has the same size", d.size() == n);
  ENSURES("copying leaves the source alone", s.size() == n);
  if (k < n) {
    ENSURES("a copy has the same elements", d[k] == old);
    d[k] = old ^ 1;
    ENSURES("a copy does not share storage", s[k] == old);
  }
}

CONTRACT(C03_copy_assign, (V &d, V &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX);
  int old = k < n ? s[k] : 0;
  V &r = (d = s);
  ENSURES("operator= returns the target", &r == &d);
  ENSURES("operator= takes the size", d.size() == n);
  ENSURES("operator= leaves the source's size", s.size() == n);
  if (k < n) {
    ENSURES("operator= copies the elements", d[k] == old);
    d[k] = old ^ 1;
    ENSURES("operator= does not share storage", s[k] == old);
  }
}

CONTRACT(C03_self_assign, (V &v, u64 k)) {
  u64 n = v.size();
  REQUIRES(n <= VP_MAX && k < n);
  int old = v[k];
  V &r = v;
  v = r;
  ENSURES("self-assignment keeps the size", v.size() == n);
  ENSURES("self-assignment keeps the elements", v[k] == old);
}

CONTRACT(C03_swap, (V &a, V &b, u64 k)) {
  u64 na = a.size(), nb = b.size();
  int xa = k < na ? a[k] : 0, xb = k < nb ? b[k] : 0;
  a.swap(b);
  ENSURES("swap exchanges sizes", a.size() == nb && b.size() == na);
  if (k < nb) ENSURES("swap exchanges contents (left)", a[k] == xb);
  if (k < na) ENSURES("swap exchanges contents (right)", b[k] == xa);
}

// One function over a whole valarray, against the scalar function it lifts.
typedef nanostl::valarray<float> VF;
CONTRACT(C03_class_sin, (float x, float y)) {
  UNROLL(64);
  RECORDS();
  VF v(2);
  v[0] = x;
  v[1] = y;
  VF r = nanostl::sin(v);
  float a = nanostl::sin(x), b = nanostl::sin(y);
  ENSURES("sin applies to every element",
          r.size() == 2 && (r[0] == a || a != a) && (r[1] == b || b != b));
  ENSURES("sin leaves its argument alone", v.size() == 2 && (v[0] == x || x != x) && (v[1] == y || y != y));
}
