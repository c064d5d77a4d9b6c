#include "vp.h"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
#include "nanovariant.h"

// a value that owns storage and whose live instances are counted: using one that was not constructed or was destroyed
// touches storage that is not live
struct Val {
  int x;
  int *live;
  int *own;
  Val(int x_, int *l) : x(x_), live(l), own(new int(x_)) { ++*live; }
  Val(const Val &o) : x(o.x), live(o.live), own(new int(*o.own)) { ++*live; }
  Val &operator=(const Val &o) { x = o.x; live = o.live; *own = *o.own; return *this; }
  ~Val() { --*live; delete own; }
  bool operator==(const Val &o) const { return x == o.x; }
  bool operator<(const Val &o) const { return x < o.x; }
};
struct Other {
  char y;
  int *live;
  Other(char y_, int *l) : y(y_), live(l) { ++*live; }
  Other(const Other &o) : y(o.y), live(o.live) { ++*live; }
  Other &operator=(const Other &o) { y = o.y; live = o.live; return *this; }
  ~Other() { --*live; }
  bool operator==(const Other &o) const { return y == o.y; }
  bool operator<(const Other &o) const { return y < o.y; }
};
typedef nanostl::variant<int, u64, Val, Other> V;
#define MOVE(T, x) (static_cast<T &&>(x))

// an arbitrary state: alternative k with payload x (counted in *live when it is an object)
struct St {
  u32 k;
  u64 x;
  int n() const { return k >= 2 ? 1 : 0; }
};
static inline void put(V &v, const St &s, int *live) {
  if (s.k == 0) v = (int)s.x;
  else if (s.k == 1) v = (u64)s.x;
  else if (s.k == 2) v = Val((int)s.x, live);
  else v = Other((char)s.x, live);
}
static inline bool holds(const V &v, const St &s) {
  if (v.index() != s.k || v.valueless_by_exception()) return false;
  if ((nanostl::get_if<int>(&v) != nullptr) != (s.k == 0)) return false;
  if ((nanostl::get_if<u64>(&v) != nullptr) != (s.k == 1)) return false;
  if ((nanostl::get_if<Val>(&v) != nullptr) != (s.k == 2)) return false;
  if ((nanostl::get_if<Other>(&v) != nullptr) != (s.k == 3)) return false;
  if (nonstd::holds_alternative<int>(v) != (s.k == 0) || nonstd::holds_alternative<Val>(v) != (s.k == 2)) return false;
  switch (s.k) {
    case 0: return nanostl::get<int>(v) == (int)s.x && nanostl::get<0>(v) == (int)s.x && *nanostl::get_if<0>(&v) == (int)s.x;
    case 1: return nanostl::get<u64>(v) == s.x && nanostl::get<1>(v) == s.x;
    case 2: return nanostl::get<Val>(v).x == (int)s.x && nanostl::get_if<2>(&v)->x == (int)s.x;
    default: return nanostl::get<Other>(v).y == (char)s.x && nanostl::get<3>(v).y == (char)s.x;
  }
}
CONTRACT(C17_var_default, (u64 x)) {
  V v;
  St z = {0, 0};
  ENSURES("a default-constructed variant holds a zero first alternative", holds(v, z));
  V a((int)x), b((u64)x);
  St sa = {0, x}, sb = {1, x};
  ENSURES("a variant made from a value holds it", holds(a, sa) && holds(b, sb));
}
CONTRACT(C17_var_assign_value, (u32 k, u64 x, u32 l, u64 y)) {
  k &= 3; l &= 3;
  int live = 0;
  {
    V v;
    St s = {k, x}, t = {l, y};
    put(v, s, &live);
    ENSURES("a variant holds the alternative put in", holds(v, s) && live == s.n());
    put(v, t, &live);
    ENSURES("assigning a value makes the variant hold it", holds(v, t));
    ENSURES("the old object is destroyed, exactly one is held", live == t.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_copy, (u32 k, u64 x)) {
  k &= 3;
  int live = 0;
  {
    V v;
    St s = {k, x}, z = {0, 7};
    put(v, s, &live);
    V c(v);
    ENSURES("a copy holds the same alternative and value", holds(c, s));
    ENSURES("copying leaves the source alone", holds(v, s) && live == 2 * s.n());
    c = 7;
    ENSURES("a copy is independent", holds(v, s) && holds(c, z) && live == s.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_move, (u32 k, u64 x)) {
  k &= 3;
  int live = 0;
  {
    V v;
    St s = {k, x};
    put(v, s, &live);
    V c(MOVE(V, v));
    ENSURES("a moved-to variant holds the alternative and value", holds(c, s));
    ENSURES("moving keeps the source's alternative", v.index() == k && live == 2 * s.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_copy_assign, (u32 k, u64 x, u32 l, u64 y)) {
  k &= 3; l &= 3;
  int live = 0;
  {
    V a, b;
    St s = {k, x}, t = {l, y};
    put(a, s, &live);
    put(b, t, &live);
    V &r = (a = b);
    ENSURES("copy assignment returns the target", &r == &a);
    ENSURES("copy assignment takes alternative and value", holds(a, t));
    ENSURES("copy assignment leaves the source alone", holds(b, t) && live == 2 * t.n());
    const V &c = a;
    a = c;
    ENSURES("self-assignment changes nothing", holds(a, t) && live == 2 * t.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_move_assign, (u32 k, u64 x, u32 l, u64 y)) {
  k &= 3; l &= 3;
  int live = 0;
  {
    V a, b;
    St s = {k, x}, t = {l, y};
    put(a, s, &live);
    put(b, t, &live);
    a = MOVE(V, b);
    ENSURES("move assignment takes alternative and value", holds(a, t));
    ENSURES("move assignment keeps the source's alternative", b.index() == l && live == 2 * t.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_swap, (u32 k, u64 x, u32 l, u64 y)) {
  k &= 3; l &= 3;
  int live = 0;
  {
    V a, b;
    St s = {k, x}, t = {l, y};
    put(a, s, &live);
    put(b, t, &live);
    a.swap(b);
    ENSURES("swap exchanges alternatives and values", holds(a, t) && holds(b, s));
    ENSURES("swap neither duplicates nor loses an object", live == s.n() + t.n());
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_emplace, (u32 k, u64 x, u64 y)) {
  k &= 3;
  int live = 0;
  {
    V a, b;
    St s = {k, x}, t = {2, y}, u = {1, y};
    put(a, s, &live);
    Val &r = a.emplace<Val>((int)y, &live);
    ENSURES("emplace makes the variant hold the new value", holds(a, t) && &r == &nanostl::get<Val>(a) && live == 1);
    put(b, s, &live);
    u64 &q = b.emplace<1>(y);
    ENSURES("emplace by index makes the variant hold the new value", holds(b, u) && &q == &nanostl::get<1>(b) && live == 1);
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_var_write, (u64 x, u64 y)) {
  V v((u64)x);
  nanostl::get<u64>(v) = y;
  St t = {1, y}, s = {1, x};
  ENSURES("writing through get is seen by every accessor", holds(v, t));
  *nanostl::get_if<1>(&v) = x;
  ENSURES("writing through get_if is seen by every accessor", holds(v, s));
}
CONTRACT(C17_var_compare, (bool h, int x, char cx, bool g, int y, char cy)) {
  typedef nanostl::variant<int, char> W;
  W a, b;
  if (h) a = x; else a = cx;
  if (g) b = y; else b = cy;
  ENSURES("== compares alternatives, then values", (a == b) == (h == g && (h ? x == y : cx == cy)));
  ENSURES("!= is the negation of ==", (a != b) == !(a == b));
  ENSURES("< orders by alternative, then value", (a < b) == (h == g ? (h ? x < y : cx < cy) : h));
  ENSURES(">, <= and >= follow from <", (a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b));
}
struct Show {
  typedef u64 result_type;
  u64 operator()(int v) const { return (u64)(u32)v; }
  u64 operator()(u64 v) const { return v ^ 1; }
  u64 operator()(const Val &v) const { return (u64)(u32)v.x ^ 2; }
  u64 operator()(const Other &v) const { return (u64)(u8)v.y ^ 4; }
};
CONTRACT(C17_var_visit, (u32 k, u64 x)) {
  k &= 3;
  int live = 0;
  V v;
  St s = {k, x};
  put(v, s, &live);
  u64 e = k == 0 ? (u64)(u32)x : k == 1 ? x ^ 1 : k == 2 ? (u64)(u32)x ^ 2 : (u64)(u8)x ^ 4;
  ENSURES("visit passes the alternative held to the visitor", nonstd::visit(Show(), v) == e);
}
