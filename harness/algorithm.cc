#include "vp.h"
#include "nanoalgorithm.h"
#include "nanoutility.h"
#include "nanoiterator.h"
using nanostl::pair;

CONTRACT(C09_min, (int a, int b)) {
  const int &r = nanostl::min(a, b);
  ENSURES("min is one of the arguments", &r == &a || &r == &b);
  ENSURES("min is not above either argument", r <= a && r <= b);
  ENSURES("min returns the first argument on ties", a != b || &r == &a);
}
CONTRACT(C09_max, (int a, int b)) {
  const int &r = nanostl::max(a, b);
  ENSURES("max is one of the arguments", &r == &a || &r == &b);
  ENSURES("max is not below either argument", r >= a && r >= b);
  ENSURES("max returns the first argument on ties", a != b || &r == &a);
}
CONTRACT(C09_min_u64, (u64 a, u64 b)) {
  ENSURES("min of unsigned 64-bit values", nanostl::min(a, b) == (b < a ? b : a));
}
CONTRACT(C09_max_u64, (u64 a, u64 b)) {
  ENSURES("max of unsigned 64-bit values", nanostl::max(a, b) == (a < b ? b : a));
}
CONTRACT(C09_min_double, (double a, double b)) {
  const double &r = nanostl::min(a, b);
  ENSURES("min takes the second argument exactly when it is less", &r == (b < a ? &b : &a));
}
CONTRACT(C09_max_double, (double a, double b)) {
  const double &r = nanostl::max(a, b);
  ENSURES("max takes the second argument exactly when it is greater", &r == (a < b ? &b : &a));
}
CONTRACT(C09_max_element, (Arr<int> &a, u64 i, u64 j, u64 k)) {
  REQUIRES(i <= j && j <= a.n);
  int *r = nanostl::max_element(a.p + i, a.p + j);
  if (i == j) {
    ENSURES("max_element of an empty range is its end", r == a.p + j);
  } else {
    ENSURES("max_element designates an element of the range", r >= a.p + i && r < a.p + j);
    if (i <= k && k < j) {
      ENSURES("no element is greater than the one designated", !(*r < a.p[k]));
      if (a.p + k < r) ENSURES("elements before the one designated are smaller", a.p[k] < *r);
    }
  }
}
CONTRACT(C09_max_element_float, (Arr<float> &a, u64 k)) {
  REQUIRES(k < a.n);
  const float *r = nanostl::max_element((const float *)a.p, (const float *)a.p + a.n);
  ENSURES("max_element designates an element of the range", r >= a.p && r < a.p + a.n);
  ENSURES("no element is greater than the one designated", !(*r < a.p[k]));
}
CONTRACT(C09_fill, (Arr<int> &a, u64 i, u64 j, int x, u64 k)) {
  REQUIRES(i <= j && j <= a.n && k < a.n);
  int old = a.p[k];
  nanostl::fill(a.p + i, a.p + j, x);
  ENSURES("fill writes the value to every element of the range and nothing else", a.p[k] == (i <= k && k < j ? x : old));
}
CONTRACT(C09_fill_char, (Arr<char> &a, u64 i, u64 j, char x, u64 k)) {
  REQUIRES(i <= j && j <= a.n && k < a.n);
  char old = a.p[k];
  nanostl::fill(a.p + i, a.p + j, x);
  ENSURES("fill writes the value to every element of the range and nothing else", a.p[k] == (i <= k && k < j ? x : old));
}
CONTRACT(C09_fill_double, (Arr<double> &a, u64 i, u64 j, int x, u64 k)) {
  REQUIRES(i <= j && j <= a.n && k < a.n);
  REQUIRES(a.p[k] == a.p[k]);
  double old = a.p[k];
  nanostl::fill(a.p + i, a.p + j, x);
  ENSURES("fill converts the value to the element type", a.p[k] == (i <= k && k < j ? (double)x : old));
}
CONTRACT(C09_distance, (Arr<int> &a, u64 i, u64 j)) {
  REQUIRES(i <= a.n && j <= a.n);
  ENSURES("distance counts the increments from first to last", nanostl::distance(a.p + i, a.p + j) == (i64)j - (i64)i);
  ENSURES("distance of const iterators", nanostl::distance((const int *)a.p + i, (const int *)a.p + j) == (i64)(j - i));
}
CONTRACT(C09_swap, (int a, int b)) {
  int x = a, y = b;
  nanostl::swap(x, y);
  ENSURES("swap exchanges the values", x == b && y == a);
  nanostl::swap(x, x);
  ENSURES("swapping an object with itself keeps it", x == b);
}
CONTRACT(C09_swap_double, (u64 a, u64 b)) {
  double x, y;
  __builtin_memcpy(&x, &a, 8);
  __builtin_memcpy(&y, &b, 8);
  nanostl::swap(x, y);
  u64 p, q;
  __builtin_memcpy(&p, &x, 8);
  __builtin_memcpy(&q, &y, 8);
  ENSURES("swap exchanges the values bit by bit", p == b && q == a);
}
CONTRACT(C09_move_forward, (int a)) {
  int &&r = nanostl::move(a);
  ENSURES("move designates its argument", &r == &a);
  int &f = nanostl::forward<int &>(a);
  ENSURES("forward designates its argument", &f == &a);
}
CONTRACT(C09_pair, (int a, char b)) {
  pair<int, char> p(a, b), q = nanostl::make_pair(a, b);
  ENSURES("a pair holds its two values", p.first == a && p.second == b);
  ENSURES("make_pair holds its two values", q.first == a && q.second == b);
}
CONTRACT(C09_pair_eq, (int a, char b, int c, char d)) {
  pair<int, char> p(a, b), q(c, d);
  ENSURES("pairs are equal exactly when both members are", (p == q) == (a == c && b == d));
}
CONTRACT(C09_pair_less, (int a, char b, int c, char d)) {
  pair<int, char> p(a, b), q(c, d);
  ENSURES("pairs order lexicographically", (p < q) == (a < c || (a == c && b < d)));
}
CONTRACT(C09_pair_less_nested, (int a, int b, int c, int d, int e, int f)) {
  typedef pair<int, int> P;
  pair<P, int> p(P(a, b), c), q(P(d, e), f);
  ENSURES("nested pairs order lexicographically", (p < q) == (a < d || (a == d && (b < e || (b == e && c < f)))));
}

CONTRACT(C09_swap_array, (int a, int b, int c, int d, u64 k)) {
  REQUIRES(k < 2);
  int x[2] = {a, b}, y[2] = {c, d};
  nanostl::swap(x, y);
  ENSURES("swap exchanges arrays elementwise", x[0] == c && x[1] == d && y[0] == a && y[1] == b);
}
CONTRACT(C09_max_element_uchar, (Arr<unsigned char> &a, u64 i, u64 j, u64 k)) {
  REQUIRES(i < j && j <= a.n && i <= k && k < j);
  unsigned char *r = nanostl::max_element(a.p + i, a.p + j);
  ENSURES("max_element designates an element of the range", r >= a.p + i && r < a.p + j);
  ENSURES("no element is greater than the one designated", !(*r < a.p[k]));
  if (a.p + k < r) ENSURES("elements before the one designated are smaller", a.p[k] < *r);
}
CONTRACT(C09_fill_alias, (Arr<int> &a, u64 m, u64 k)) {
  REQUIRES(k < a.n && m < a.n);
  int x = a.p[m];
  nanostl::fill(a.p, a.p + a.n, a.p[m]);
  ENSURES("fill with a value inside the range writes that value everywhere", a.p[k] == x);
}
CONTRACT(C09_fill_u64, (Arr<u64> &a, u64 i, u64 j, u64 x, u64 k)) {
  REQUIRES(i <= j && j <= a.n && k < a.n);
  u64 old = a.p[k];
  nanostl::fill(a.p + i, a.p + j, x);
  ENSURES("fill writes the value to every element of the range and nothing else", a.p[k] == (i <= k && k < j ? x : old));
}
