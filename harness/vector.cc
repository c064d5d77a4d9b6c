#include "vp.h"
#include "nanovector.h"
typedef nanostl::vector<int> V;

CONTRACT(C01_default, (u64 dummy)) {
  V v;
  ENSURES("a default-constructed vector has size 0", v.size() == 0);
  ENSURES("a default-constructed vector is empty", v.empty());
  ENSURES("begin equals end when empty", v.begin() == v.end());
  ENSURES("size within capacity", v.capacity() >= v.size());
}

CONTRACT(C01_push_back, (V &v, int x, u64 k)) {
  u64 n = v.size(), c = v.capacity();
  REQUIRES(n < VP_MAX);
  REQUIRES(k <= n);
  int old = k < n ? v[k] : 0;
  v.push_back(x);
  ENSURES("push_back grows size by one", v.size() == n + 1);
  ENSURES("push_back appends the value / keeps the others", v[k] == (k < n ? old : x));
  ENSURES("capacity never shrinks", v.capacity() >= c);
  ENSURES("reallocation at least doubles the capacity", v.capacity() == c || v.capacity() >= 2 * c);
  ENSURES("not empty", !v.empty());
}

CONTRACT(C01_push_back_alias, (V &v, u64 i, u64 k)) {
  u64 n = v.size();
  REQUIRES(n < VP_MAX);
  REQUIRES(i < n && k <= n);
  int x = v[i];
  int old = k < n ? v[k] : x;
  v.push_back(v[i]);
  ENSURES("push_back of an own element grows size by one", v.size() == n + 1);
  ENSURES("push_back of an own element appends its value", v[k] == old);
}

CONTRACT(C01_pop_back, (V &v, u64 k)) {
  u64 n = v.size(), c = v.capacity();
  REQUIRES(n > 0);
  REQUIRES(k < n);
  int old = v[k];
  v.pop_back();
  ENSURES("pop_back removes one element", v.size() == n - 1);
  if (k < n - 1) ENSURES("pop_back keeps the other elements", v[k] == old);
  ENSURES("pop_back keeps the capacity", v.capacity() == c);
}

CONTRACT(C01_resize, (V &v, u64 m, u64 k)) {
  u64 n = v.size(), c = v.capacity();
  REQUIRES(n <= VP_MAX && m <= VP_MAX);
  REQUIRES(k < m);
  int old = k < n ? v[k] : 0;
  v.resize(m);
  ENSURES("resize sets the size", v.size() == m);
  ENSURES("resize keeps the common prefix and value-initialises the rest", v[k] == old);
  ENSURES("capacity never shrinks", v.capacity() >= c);
}

CONTRACT(C01_resize_zero, (V &v)) {
  u64 c = v.capacity();
  v.resize(0);
  ENSURES("resize(0) leaves no elements", v.size() == 0 && v.empty());
  ENSURES("capacity never shrinks", v.capacity() >= c);
}

CONTRACT(C01_clear, (V &v)) {
  u64 c = v.capacity();
  v.clear();
  ENSURES("clear leaves no elements", v.size() == 0 && v.empty() && v.begin() == v.end());
  ENSURES("clear keeps the capacity", v.capacity() == c);
}

CONTRACT(C01_access, (V &v, u64 k)) {
  REQUIRES(k < v.size());
  const V &cv = v;
  int *p = v.data();
  ENSURES("operator[] designates element k of data()", &v[k] == p + k);
  ENSURES("at designates element k of data()", &v.at(k) == p + k);
  ENSURES("const operator[] designates the same element", &cv[k] == p + k);
  ENSURES("const at designates the same element", &cv.at(k) == p + k);
  ENSURES("begin()+k designates element k", v.begin() + k == p + k);
  ENSURES("end() is begin()+size()", v.end() == v.begin() + v.size());
  ENSURES("empty() says size()==0", v.empty() == (v.size() == 0));
}

CONTRACT(C01_write, (V &v, u64 k, u64 j, int x)) {
  u64 n = v.size();
  REQUIRES(k < n && j < n);
  int old = v[j];
  v[k] = x;
  ENSURES("writing one element changes that element only", v[j] == (j == k ? x : old));
  ENSURES("writing an element keeps the size", v.size() == n);
}

CONTRACT(C01_erase, (V &v, u64 i, u64 k)) {
  u64 n = v.size(), c = v.capacity();
  REQUIRES(n <= VP_MAX);
  REQUIRES(i < n && k < n - 1);
  int expect = k < i ? v[k] : v[k + 1];
  int *r = v.erase(v.begin() + i);
  ENSURES("erase removes one element", v.size() == n - 1);
  ENSURES("erase keeps the order of the others", v[k] == expect);
  ENSURES("erase returns the position after the removed element", r == v.begin() + i);
  ENSURES("erase keeps the capacity", v.capacity() == c);
}

CONTRACT(C01_erase_last, (V &v)) {
  u64 n = v.size();
  REQUIRES(n > 0 && n <= VP_MAX);
  int *r = v.erase(v.end() - 1);
  ENSURES("erasing the last element removes one", v.size() == n - 1);
  ENSURES("erasing the last element returns end()", r == v.end());
}

CONTRACT(C01_assign, (V &v, Arr<int> &a, u64 i, u64 j, u64 k)) {
  REQUIRES(i <= j && j <= a.n);
  v.assign((const int *)a.p + i, (const int *)a.p + j);
  ENSURES("assign takes the length of the range", v.size() == j - i);
  if (k < j - i) ENSURES("assign copies the range in order", v[k] == a.p[i + k]);
}

CONTRACT(C01_copy, (V &s, u64 k)) {
  u64 n = s.size(), c = s.capacity();
  REQUIRES(n <= VP_MAX);
  int old = k < n ? s[k] : 0;
  V d(s);
  ENSURES("a copy has the same size", d.size() == n);
  ENSURES("copying leaves the source alone", s.size() == n && s.capacity() == c);
  if (k < n) {
    ENSURES("a copy has the same elements", d[k] == old);
    ENSURES("copying keeps the source's elements", s[k] == old);
    d[k] = old ^ 1;
    ENSURES("a copy does not share storage", s[k] == old);
  }
}

CONTRACT(C01_copy_assign, (V &d, V &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX);
  int old = k < n ? s[k] : 0;
  V &r = (d = s);
  ENSURES("operator= returns the target", &r == &d);
  ENSURES("operator= takes the size", d.size() == n);
  ENSURES("operator= leaves the source's size", s.size() == n);
  if (k < n) {
    ENSURES("operator= copies the elements", d[k] == old);
    ENSURES("operator= keeps the source's elements", s[k] == old);
    d[k] = old ^ 1;
    ENSURES("operator= does not share storage", s[k] == old);
  }
}

CONTRACT(C01_self_assign, (V &v, u64 k)) {
  u64 n = v.size();
  REQUIRES(n <= VP_MAX && k < n);
  int old = v[k];
  V &r = v;
  v = r;
  ENSURES("self-assignment keeps the size", v.size() == n);
  ENSURES("self-assignment keeps the elements", v[k] == old);
}

CONTRACT(C01_swap, (V &a, V &b, u64 k)) {
  u64 na = a.size(), nb = b.size(), ca = a.capacity(), cb = b.capacity();
  int xa = k < na ? a[k] : 0, xb = k < nb ? b[k] : 0;
  a.swap(b);
  ENSURES("swap exchanges sizes", a.size() == nb && b.size() == na);
  ENSURES("swap exchanges capacities", a.capacity() == cb && b.capacity() == ca);
  if (k < nb) ENSURES("swap exchanges contents (left)", a[k] == xb);
  if (k < na) ENSURES("swap exchanges contents (right)", b[k] == xa);
}

CONTRACT(C01_self_swap, (V &a, u64 k)) {
  u64 n = a.size();
  REQUIRES(k < n);
  int x = a[k];
  a.swap(a);
  ENSURES("self-swap changes nothing", a.size() == n && a[k] == x);
}

CONTRACT(C01_sequence, (V &v, int x, int y)) {
  u64 n = v.size();
  REQUIRES(n < VP_MAX - 2);
  v.push_back(x);
  v.push_back(y);
  ENSURES("two appends land in order", v.size() == n + 2 && v[n] == x && v[n + 1] == y);
  v.erase(v.begin() + n);
  ENSURES("erase after append", v.size() == n + 1 && v[n] == y);
  v.pop_back();
  ENSURES("append/erase/pop is neutral on the size", v.size() == n);
}
