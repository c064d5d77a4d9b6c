#include "vp.h"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
#include "nanooptional.h"
using nanostl::optional;

// a value that owns storage and whose live instances are counted: using one that was not constructed or was destroyed
// touches storage that is not live
struct Val {
  int x;
  int *live;
  int *own;
  Val(int x_, int *l) : x(x_), live(l), own(new int(x_)) { ++*live; }
  Val(const Val &o) : x(o.x), live(o.live), own(new int(*o.own)) { ++*live; }
  Val &operator=(const Val &o) { x = o.x; live = o.live; *own = *o.own; return *this; }
  ~Val() { --*live; delete own; }
  bool operator==(const Val &o) const { return x == o.x; }
  bool operator<(const Val &o) const { return x < o.x; }
};
typedef optional<Val> OV;
#define MOVE(T, x) (static_cast<T &&>(x))

// any state of an optional: empty, or holding a value, possibly after an earlier one
static inline void put(OV &o, bool has, int x, int *live) {
  if (has) o = Val(x, live);
}
static inline bool holds(const OV &o, bool has, int x) {
  if (!has) return !o.has_value() && !(bool)o;
  return o.has_value() && (bool)o && (*o).x == x && o->x == x && o.value().x == x && &*o == o.operator->();
}

CONTRACT(C17_opt_default, (int x)) {
  optional<int> a, b(nonstd::nullopt);
  ENSURES("a default-constructed optional is empty", !a.has_value() && !a);
  ENSURES("an optional made from nullopt is empty", !b.has_value() && b == nonstd::nullopt);
  optional<int> c(x);
  ENSURES("an optional made from a value holds it", c.has_value() && *c == x && c.value() == x && c != nonstd::nullopt);
}
CONTRACT(C17_opt_assign_value, (bool h, int x, int y)) {
  int live = 0;
  {
    OV o;
    put(o, h, x, &live);
    o = Val(y, &live);
    ENSURES("assigning a value makes the optional hold it", holds(o, true, y));
    ENSURES("the optional holds exactly one object", live == 1);
  }
  ENSURES("the object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_assign_lvalue, (bool h, int x, int y)) {
  int live = 0;
  {
    OV o;
    put(o, h, x, &live);
    Val v(y, &live);
    o = v;
    ENSURES("assigning a value makes the optional hold a copy", holds(o, true, y) && &*o != &v);
    ENSURES("the value assigned from is unchanged", v.x == y && live == 2);
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_reset, (bool h, int x)) {
  int live = 0;
  OV o;
  put(o, h, x, &live);
  ENSURES("an optional holds what was put in", holds(o, h, x) && live == (h ? 1 : 0));
  o.reset();
  ENSURES("reset empties the optional", holds(o, false, 0));
  ENSURES("reset destroys the object exactly once", live == 0);
  put(o, h, x, &live);
  o = nonstd::nullopt;
  ENSURES("assigning nullopt empties the optional", holds(o, false, 0) && live == 0);
}
CONTRACT(C17_opt_copy, (bool h, int x)) {
  int live = 0;
  {
    OV o;
    put(o, h, x, &live);
    OV c(o);
    ENSURES("a copy holds the same value", holds(c, h, x));
    ENSURES("copying leaves the source alone", holds(o, h, x) && live == (h ? 2 : 0));
    c.reset();
    ENSURES("a copy is independent", holds(o, h, x));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_move, (bool h, int x)) {
  int live = 0;
  {
    OV o;
    put(o, h, x, &live);
    OV c(MOVE(OV, o));
    ENSURES("a moved-to optional holds the value", holds(c, h, x));
    ENSURES("moving keeps the source's engagement", o.has_value() == h && live == (h ? 2 : 0));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_copy_assign, (bool h, int x, bool g, int y)) {
  int live = 0;
  {
    OV a, b;
    put(a, h, x, &live);
    put(b, g, y, &live);
    OV &r = (a = b);
    ENSURES("copy assignment returns the target", &r == &a);
    ENSURES("copy assignment takes the state of the source", holds(a, g, y));
    ENSURES("copy assignment leaves the source alone", holds(b, g, y) && live == (g ? 2 : 0));
    const OV &s = a;
    a = s;
    ENSURES("self-assignment changes nothing", holds(a, g, y) && live == (g ? 2 : 0));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_move_assign, (bool h, int x, bool g, int y)) {
  int live = 0;
  {
    OV a, b;
    put(a, h, x, &live);
    put(b, g, y, &live);
    a = MOVE(OV, b);
    ENSURES("move assignment takes the state of the source", holds(a, g, y));
    ENSURES("move assignment keeps the source's engagement", b.has_value() == g && live == (g ? 2 : 0));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_swap, (bool h, int x, bool g, int y)) {
  int live = 0;
  {
    OV a, b;
    put(a, h, x, &live);
    put(b, g, y, &live);
    a.swap(b);
    ENSURES("swap exchanges the states", holds(a, g, y) && holds(b, h, x));
    ENSURES("swap neither duplicates nor loses an object", live == (h ? 1 : 0) + (g ? 1 : 0));
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_emplace, (bool h, int x, int y)) {
  int live = 0;
  {
    OV o;
    put(o, h, x, &live);
    Val &r = o.emplace(y, &live);
    ENSURES("emplace makes the optional hold the new value", holds(o, true, y) && &r == &*o);
    ENSURES("emplace replaces the old object", live == 1);
  }
  ENSURES("every object is destroyed exactly once", live == 0);
}
CONTRACT(C17_opt_write, (int x, int y)) {
  optional<int> o(x);
  *o = y;
  ENSURES("writing through * is seen by every accessor", o.value() == y && *o == y && *o.operator->() == y);
  o.value() = x;
  ENSURES("writing through value() is seen by every accessor", *o == x);
}
CONTRACT(C17_opt_value_or, (bool h, int x, int y)) {
  optional<int> o;
  if (h) o = optional<int>(x);
  ENSURES("value_or gives the value held, or the default", o.value_or(y) == (h ? x : y));
}
CONTRACT(C17_opt_compare, (bool h, int x, bool g, int y)) {
  optional<int> a, b;
  if (h) a = optional<int>(x);
  if (g) b = optional<int>(y);
  ENSURES("== compares engagement, then values", (a == b) == (h == g && (!h || x == y)));
  ENSURES("!= is the negation of ==", (a != b) == !(a == b));
  ENSURES("< puts the empty optional first", (a < b) == (g && (!h || x < y)));
  ENSURES("> is < with the operands exchanged", (a > b) == (b < a));
  ENSURES("<= and >= are the negations of > and <", (a <= b) == !(b < a) && (a >= b) == !(a < b));
}
CONTRACT(C17_opt_compare_value, (bool h, int x, int y)) {
  optional<int> a;
  if (h) a = optional<int>(x);
  ENSURES("comparing with a value: equal exactly when that value is held", (a == y) == (h && x == y) && (y == a) == (h && x == y));
  ENSURES("comparing with a value: !=", (a != y) == !(h && x == y) && (y != a) == !(h && x == y));
  ENSURES("comparing with a value: an empty optional is less", (a < y) == (!h || x < y) && (y < a) == (h && y < x));
  ENSURES("comparing with nullopt tests for emptiness", (a == nonstd::nullopt) == !h && (nonstd::nullopt != a) == h);
}
