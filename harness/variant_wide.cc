#include "vp.h"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
#include "nanovariant.h"

// sixteen alternatives of distinct types, each counting its own live instances in four bits of *live
template <int K>
struct W {
  u32 x;
  u64 *live;
  W(u32 x_, u64 *l) : x(x_), live(l) { *live += 1ull << (4 * K); }
  W(const W &o) : x(o.x), live(o.live) { *live += 1ull << (4 * K); }
  W &operator=(const W &o) { x = o.x; live = o.live; return *this; }
  ~W() { *live -= 1ull << (4 * K); }
  bool operator==(const W &o) const { return x == o.x; }
  bool operator<(const W &o) const { return x < o.x; }
};
typedef nanostl::variant<W<0>, W<1>, W<2>, W<3>, W<4>, W<5>, W<6>, W<7>, W<8>, W<9>, W<10>, W<11>, W<12>, W<13>, W<14>, W<15> > V;
#define MOVE(T, x) (static_cast<T &&>(x))
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)

static inline void put(V &v, u32 k, u32 x, u64 *live) {
  switch (k) {
#define X(K) case K: v = W<K>(x, live); break;
    ALL(X)
#undef X
  }
}
static inline bool holds(const V &v, u32 k, u32 x) {
  if (v.index() != k || v.valueless_by_exception()) return false;
  switch (k) {
#define X(K) case K: return nanostl::get_if<K>(&v) != nullptr && nanostl::get<K>(v).x == x && nanostl::get<W<K> >(v).x == x && nonstd::holds_alternative<W<K> >(v);
    ALL(X)
#undef X
  }
  return false;
}
static inline u64 one(u32 k) { return 1ull << (4 * (k & 15)); }

CONTRACT(C17_wide_assign_value, (u32 k, u32 x, u32 y, bool same)) {
  k &= 15;
  u32 l = same ? k : (k + 1) & 15;
  u64 live = 0;
  {
    V v(W<0>(5, &live));
    put(v, k, x, &live);
    ENSURES("a variant holds the alternative put in", holds(v, k, x) && live == one(k));
    put(v, l, y, &live);
    ENSURES("assigning a value destroys the old object and holds the new one", holds(v, l, y) && live == one(l));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_wide_copy, (u32 k, u32 x)) {
  k &= 15;
  u64 live = 0;
  {
    V v(W<0>(5, &live));
    put(v, k, x, &live);
    V c(v);
    ENSURES("a copy holds the same alternative and value, the source is left alone", holds(c, k, x) && holds(v, k, x) && live == 2 * one(k));
    V m(MOVE(V, c));
    ENSURES("a moved-to variant holds the alternative and value", holds(m, k, x) && live == 3 * one(k));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_wide_assign, (u32 k, u32 x, u32 y, bool same, bool move)) {
  k &= 15;
  u32 l = same ? k : (k + 1) & 15;
  u64 live = 0;
  {
    V a(W<0>(5, &live)), b(W<0>(5, &live));
    put(a, k, x, &live);
    put(b, l, y, &live);
    if (move) a = MOVE(V, b);
    else a = b;
    ENSURES("assignment takes alternative and value", holds(a, l, y) && live == 2 * one(l));
    if (!move) ENSURES("assignment leaves the source alone", holds(b, l, y));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_wide_swap, (u32 k, u32 x, u32 y, bool same)) {
  k &= 15;
  u32 l = same ? k : (k + 1) & 15;
  u64 live = 0;
  {
    V a(W<0>(5, &live)), b(W<0>(5, &live));
    put(a, k, x, &live);
    put(b, l, y, &live);
    a.swap(b);
    ENSURES("swap exchanges alternatives and values", holds(a, l, y) && holds(b, k, x) && live == one(k) + one(l));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_wide_compare, (u32 k, u32 x, u32 y, bool same)) {
  k &= 15;
  u32 l = same ? k : (k + 1) & 15;
  u64 live = 0;
  V a(W<0>(5, &live)), b(W<0>(5, &live));
  put(a, k, x, &live);
  put(b, l, y, &live);
  ENSURES("== compares alternatives, then values", (a == b) == (k == l && x == y));
  ENSURES("< orders by alternative, then value", (a < b) == (k == l ? x < y : k < l));
}
struct Show {
  typedef u64 result_type;
  template <int K>
  u64 operator()(const W<K> &w) const { return (u64)w.x << 8 | K; }
};
CONTRACT(C17_wide_visit, (u32 k, u32 x)) {
  k &= 15;
  u64 live = 0;
  V v(W<0>(5, &live));
  put(v, k, x, &live);
  ENSURES("visit passes the alternative held to the visitor", nonstd::visit(Show(), v) == ((u64)x << 8 | k));
}
