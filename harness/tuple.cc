#include "vp.h"
#include "nanoutility.h"
#include "nanolimits.h"
#include "nanoalgorithm.h"
#include "nanotuple.h"
#include "own.h"
using tao::get;
typedef nanostl::tuple<int, char, u64> T3;
struct Empty {
  bool operator==(const Empty &) const { return true; }
  bool operator<(const Empty &) const { return false; }
};
template <class A, class B>
struct Same { enum { v = 0 }; };
template <class A>
struct Same<A, A> { enum { v = 1 }; };

static bool is(const T3 &t, int a, char b, u64 c) { return get<0>(t) == a && get<1>(t) == b && get<2>(t) == c; }

CONTRACT(C21_default, ()) {
  T3 t;
  ENSURES("a default tuple has value-initialised elements", is(t, 0, 0, 0));
  nanostl::tuple<> u, v;
  u.swap(v);
  ENSURES("empty tuples are equal", u == v && !(u < v) && !(u != v) && u <= v && u >= v);
}
CONTRACT(C21_values, (int a, char b, u64 c, int x)) {
  T3 t(a, b, c);
  const T3 &r = t;
  ENSURES("the elements are the values given, in order", is(t, a, b, c) && get<0>(r) == a && get<1>(r) == b && get<2>(r) == c);
  get<0>(t) = x;
  ENSURES("get designates the element", is(t, x, b, c));
  get<2>(t) = a;
  ENSURES("get designates the element and no other", is(t, x, b, (u64)a));
  ENSURES("get by type designates the element of that type", &get<int>(t) == &get<0>(t) && &get<char>(t) == &get<1>(t) && &get<u64>(r) == &get<2>(t));
  ENSURES("tuple_size counts the elements", tao::tuple_size<T3>::value == 3 && tao::tuple_size<const nanostl::tuple<> >::value == 0);
  ENSURES("tuple_element is the type of the element", (Same<tao::tuple_element<0, T3>::type, int>::v && Same<tao::tuple_element<1, T3>::type, char>::v && Same<tao::tuple_element<2, const T3>::type, u64>::v));
  ENSURES("elements do not overlap", (char *)&get<0>(t) + sizeof(int) <= (char *)&t + sizeof(t) && (void *)&get<0>(t) != (void *)&get<1>(t) && (void *)&get<1>(t) != (void *)&get<2>(t));
}
CONTRACT(C21_copy, (int a, char b, u64 c, int x, char y, u64 z)) {
  T3 t(a, b, c), u(t), v(x, y, z), w(static_cast<T3 &&>(u));
  ENSURES("a copy has equal elements", is(w, a, b, c) && is(t, a, b, c));
  get<1>(w) = y;
  ENSURES("copies are independent", is(w, a, y, c) && is(t, a, b, c));
  v = t;
  ENSURES("assignment copies every element", is(v, a, b, c) && is(t, a, b, c));
  get<0>(v) = x;
  ENSURES("assigned tuples are independent", is(v, x, b, c) && is(t, a, b, c));
  t = t;
  ENSURES("self assignment changes nothing", is(t, a, b, c));
  t = static_cast<T3 &&>(v);
  ENSURES("move assignment moves every element", is(t, x, b, c));
}
CONTRACT(C21_swap, (int a, char b, u64 c, int x, char y, u64 z)) {
  T3 t(a, b, c), u(x, y, z);
  t.swap(u);
  ENSURES("swap exchanges every element", is(t, x, y, z) && is(u, a, b, c));
  swap(t, u);
  ENSURES("the free swap too", is(t, a, b, c) && is(u, x, y, z));
  t.swap(t);
  ENSURES("swapping with itself changes nothing", is(t, a, b, c));
}
CONTRACT(C21_convert, (int a, char b, u32 c, int x, char y, u64 z)) {
  nanostl::tuple<int, char, u32> n(a, b, c);
  T3 t(x, y, z);
  t = n;
  ENSURES("assignment from a tuple of other types converts every element", is(t, a, b, (u64)c) && get<0>(n) == a && get<1>(n) == b && get<2>(n) == c);
  t = static_cast<nanostl::tuple<int, char, u32> &&>(n);
  ENSURES("move assignment too", is(t, a, b, (u64)c));
}
CONTRACT(C21_compare, (int a, char b, u64 c, int x, char y, u64 z)) {
  T3 t(a, b, c), u(x, y, z);
  bool eq = a == x && b == y && c == z;
  bool lt = a < x || (a == x && (b < y || (b == y && c < z)));
  bool gt = a > x || (a == x && (b > y || (b == y && c > z)));
  ENSURES("== compares every element", (t == u) == eq && (t != u) == !eq);
  ENSURES("< is the lexicographic order", (t < u) == lt && (t > u) == gt && (t <= u) == !gt && (t >= u) == !lt);
  ENSURES("comparing changes nothing", is(t, a, b, c) && is(u, x, y, z));
}
CONTRACT(C21_compare_mixed, (int a, u8 b, int x, int y)) {
  nanostl::tuple<int, u8> t(a, b);
  nanostl::tuple<i64, int> u(x, y);
  ENSURES("== compares element by element", (t == u) == (a == x && b == y) && (u != t) == !(a == x && b == y));
  ENSURES("< is the lexicographic order", (t < u) == (a < x || (a == x && b < y)) && (u < t) == (x < a || (a == x && y < b)));
}
CONTRACT(C21_make, (int a, char b, u64 c)) {
  auto t = tao::make_tuple(a, b, c);
  ENSURES("make_tuple makes a tuple of its arguments", get<0>(t) == a && get<1>(t) == b && get<2>(t) == c);
  auto u = tao::make_tuple(c, a);
  int a0 = a;
  get<1>(u) = 3;
  ENSURES("of copies of them", get<0>(u) == c && a == a0 && get<0>(t) == a0 && get<1>(u) == 3);
  auto f = tao::forward_as_tuple(a, static_cast<char &&>(b));
  ENSURES("forward_as_tuple refers to its arguments", &get<0>(f) == &a && &get<1>(f) == &b);
}
CONTRACT(C21_tie, (int a, char b, u64 c, int x, char y, u64 z)) {
  T3 t(a, b, c);
  tao::tie(x, y, z) = t;
  ENSURES("assigning to a tie assigns every variable", x == a && y == b && z == c && is(t, a, b, c));
  get<2>(tao::tie(x, y, z)) = 7;
  ENSURES("a tie refers to the variables", z == 7 && x == a && y == b);
  x = 5;
  ENSURES("ties compare their variables", (tao::tie(x, y) < tao::tie(get<0>(t), b)) == (5 < a));
}
CONTRACT(C21_cat, (int a, char b, u64 c, int x, char y)) {
  T3 t(a, b, c);
  nanostl::tuple<int, char> u(x, y);
  nanostl::tuple<> e;
  auto r = tao::tuple_cat(t, e, u, nanostl::tuple<u64>(c + 1));
  ENSURES("tuple_cat gives all elements in order", tao::tuple_size<decltype(r)>::value == 6 && get<0>(r) == a && get<1>(r) == b && get<2>(r) == c && get<3>(r) == x && get<4>(r) == y &&
                                                 get<5>(r) == c + 1);
  ENSURES("of their types", (Same<decltype(r), nanostl::tuple<int, char, u64, int, char, u64> >::v));
  get<0>(r) = 1;
  get<4>(r) = 1;
  ENSURES("as copies", is(t, a, b, c) && get<0>(u) == x && get<1>(u) == y);
  auto s = tao::tuple_cat(u, t);
  ENSURES("tuple_cat of two", get<0>(s) == x && get<1>(s) == y && get<2>(s) == a && get<3>(s) == b && get<4>(s) == c);
}
CONTRACT(C21_empty_element, (int a, int b)) {
  nanostl::tuple<Empty, int, Empty> t(Empty(), a, Empty()), u(Empty(), b, Empty());
  ENSURES("empty elements do not disturb the others", get<1>(t) == a && get<1>(u) == b && (t == u) == (a == b) && (t < u) == (a < b));
  u = t;
  ENSURES("copied", get<1>(u) == a);
}
CONTRACT(C21_own, (int a, int b, int c, int x)) {
  UNROLL(64);
  RECORDS();
  typedef nanostl::tuple<Own, int, Own> TO;
  TO t(Own(a), b, Own(c));
  TO u(t);
  ENSURES("elements are copied, not shared", get<0>(u).is(a) && get<1>(u) == b && get<2>(u).is(c) && get<0>(u).p != get<0>(t).p && get<2>(u).p != get<2>(t).p);
  get<0>(u) = Own(x);
  ENSURES("copies are independent", get<0>(t).is(a) && get<0>(u).is(x));
  t.swap(u);
  ENSURES("swap exchanges the elements", get<0>(t).is(x) && get<0>(u).is(a) && get<2>(t).is(c) && get<2>(u).is(c));
  u = t;
  ENSURES("assignment copies the elements", get<0>(u).is(x) && get<0>(u).p != get<0>(t).p);
  auto r = tao::tuple_cat(t, tao::make_tuple(Own(b)));
  ENSURES("concatenation copies the elements", get<0>(r).is(x) && get<2>(r).is(c) && get<3>(r).is(b) && get<0>(r).p != get<0>(t).p && get<0>(t).is(x));
}
struct Tag { int id; };
struct First {  // uses an allocator, passed first
  typedef Tag allocator_type;
  int v, al;
  First() : v(0), al(-1) {}
  First(int x) : v(x), al(-1) {}
  First(nanostl::allocator_arg_t, const Tag &t) : v(0), al(t.id) {}
  First(nanostl::allocator_arg_t, const Tag &t, int x) : v(x), al(t.id) {}
};
struct Last {  // uses an allocator, passed last
  typedef Tag allocator_type;
  int v, al;
  Last() : v(0), al(-1) {}
  Last(int x) : v(x), al(-1) {}
  Last(const Tag &t) : v(0), al(t.id) {}
  Last(int x, const Tag &t) : v(x), al(t.id) {}
};
CONTRACT(C21_allocator, (int a, int b, int c, int id)) {
  Tag g;
  g.id = id;
  typedef nanostl::tuple<int, First, Last> TA;
  TA t(nanostl::allocator_arg_t(), g, a, b, c);
  ENSURES("allocator-extended construction gives the values", get<0>(t) == a && get<1>(t).v == b && get<2>(t).v == c);
  ENSURES("and the allocator to the elements that use one", get<1>(t).al == id && get<2>(t).al == id);
  TA u(a, b, c);
  ENSURES("plain construction gives none", get<0>(u) == a && get<1>(u).v == b && get<2>(u).v == c && get<1>(u).al == -1 && get<2>(u).al == -1);
}
struct Mv {  // a value that knows whether it was copied or moved from
  int v, copies, moved;
  Mv(int x) : v(x), copies(0), moved(0) {}
  Mv(const Mv &o) : v(o.v), copies(o.copies + 1), moved(0) {}
  Mv(Mv &&o) : v(o.v), copies(o.copies), moved(0) { o.moved = 1; }
  Mv &operator=(const Mv &o) { v = o.v; copies = o.copies + 1; moved = 0; return *this; }
  Mv &operator=(Mv &&o) { int m = o.v, c = o.copies; o.moved = 1; v = m; copies = c; moved = 0; return *this; }
};
#define MOVE(T, x) (static_cast<T &&>(x))
typedef nanostl::tuple<Mv, int, Mv> TM;
static bool whole(const TM &t, int a, int b, int c) { return get<0>(t).v == a && get<1>(t) == b && get<2>(t).v == c && !get<0>(t).moved && !get<2>(t).moved; }
CONTRACT(C21_move, (int a, int b, int c, int x)) {
  Mv m(a);
  TM t(m, b, Mv(c));
  ENSURES("lvalues are copied into the tuple, rvalues moved", whole(t, a, b, c) && get<0>(t).copies == 1 && get<2>(t).copies == 0 && !m.moved);
  TM u(t);
  ENSURES("copying copies", whole(t, a, b, c) && whole(u, a, b, c) && get<0>(u).copies == 2 && get<2>(u).copies == 1);
  TM w(MOVE(TM, u));
  ENSURES("moving moves every element", whole(w, a, b, c) && get<0>(w).copies == 2 && get<2>(w).copies == 1 && get<0>(u).moved && get<2>(u).moved);
  TM y(Mv(x), x, Mv(x));
  y = w;
  ENSURES("assignment copies every element", whole(y, a, b, c) && whole(w, a, b, c));
  y = MOVE(TM, t);
  ENSURES("move assignment moves every element", whole(y, a, b, c) && get<0>(y).copies == 1 && get<2>(y).copies == 0 && get<0>(t).moved && get<2>(t).moved);
  Mv g(get<0>(MOVE(TM, y)));
  ENSURES("get of an expiring tuple gives an expiring element", g.v == a && g.copies == 1 && get<0>(y).moved && !get<2>(y).moved);
  Mv h(get<2>(w));
  ENSURES("get of another gives the element itself", h.v == c && h.copies == 2 && !get<2>(w).moved);
  auto f = tao::forward_as_tuple(m, MOVE(Mv, h));
  Mv k(get<1>(MOVE(decltype(f), f)));
  ENSURES("forward_as_tuple keeps the value category", k.v == c && h.moved && !m.moved);
  auto r = tao::tuple_cat(w, nanostl::tuple<int>(x));
  ENSURES("tuple_cat copies from lasting tuples", get<0>(r).v == a && get<1>(r) == b && get<2>(r).v == c && get<3>(r) == x && whole(w, a, b, c));
}
CONTRACT(C21_by_type, (int a, char b, u64 c, char y)) {
  nanostl::tuple<char, u64, int> t(b, c, a);
  const nanostl::tuple<char, u64, int> &k = t;
  ENSURES("get by type finds the element of the type", get<int>(t) == a && get<char>(k) == b && get<u64>(t) == c && get<int>(MOVE(decltype(t), t)) == a);
  get<char>(t) = y;
  ENSURES("and designates it", get<0>(k) == y && get<1>(k) == c && get<2>(k) == a);
}
CONTRACT(C21_nested, (int a, int b, int c, int x, int y, int z)) {
  typedef nanostl::tuple<nanostl::tuple<int, int>, int> N;
  N t(nanostl::tuple<int, int>(a, b), c), u(nanostl::tuple<int, int>(x, y), z);
  ENSURES("nested tuples keep their elements", get<0>(get<0>(t)) == a && get<1>(get<0>(t)) == b && get<1>(t) == c);
  ENSURES("nested comparison is lexicographic", (t < u) == (a < x || (a == x && (b < y || (b == y && c < z)))) && (t == u) == (a == x && b == y && c == z));
  t.swap(u);
  ENSURES("nested swap exchanges all", get<0>(get<0>(u)) == a && get<1>(get<0>(u)) == b && get<1>(u) == c && get<0>(get<0>(t)) == x && get<1>(t) == z);
}
