#include "vp.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
using nanostl::unique_ptr;

// an object that counts its destructions
struct Obj {
  int *c;
  int v;
  Obj(int *c_, int v_) : c(c_), v(v_) {}
  ~Obj() { ++*c; }
};
typedef unique_ptr<Obj> UP;
#define MOVE(x) (static_cast<UP &&>(x))

CONTRACT(C16_destroy, (int v)) {
  int c = 0;
  {
    Obj *o = new Obj(&c, v);
    UP p(o);
    ENSURES("get, -> and * designate the owned object", p.get() == o && p.operator->() == o && &*p == o && p->v == v);
    ENSURES("a unique_ptr to an object is true", (bool)p);
    ENSURES("the object lives as long as its unique_ptr", c == 0);
  }
  ENSURES("destruction releases the object exactly once", c == 1);
}
CONTRACT(C16_empty, (int v)) {
  UP p, q(nullptr);
  ENSURES("a default-constructed unique_ptr is empty", p.get() == nullptr && !p);
  ENSURES("a unique_ptr made from nullptr is empty", q.get() == nullptr && !q);
  ENSURES("empty unique_ptrs equal nullptr and each other", p == nullptr && nullptr == q && p == q && !(p != nullptr));
  ENSURES("release of an empty unique_ptr gives null", p.release() == nullptr);
}
CONTRACT(C16_release, (int v)) {
  int c = 0;
  Obj *o = new Obj(&c, v);
  Obj *r;
  {
    UP p(o);
    r = p.release();
    ENSURES("release empties the unique_ptr", p.get() == nullptr && !p);
  }
  ENSURES("release gives up the object without destroying it", r == o && c == 0 && r->v == v);
  delete r;
}
CONTRACT(C16_reset, (int v, int w, bool null)) {
  int c = 0, d = 0;
  {
    UP p(new Obj(&c, v));
    Obj *o = null ? nullptr : new Obj(&d, w);
    p.reset(o);
    ENSURES("reset releases the old object exactly once", c == 1);
    ENSURES("reset takes the new object without releasing it", p.get() == o && d == 0);
    ENSURES("a unique_ptr is true exactly when it owns an object", (bool)p == !null);
  }
  ENSURES("destruction releases the object last taken exactly once", c == 1 && d == (null ? 0 : 1));
}
CONTRACT(C16_reset_default, (int v)) {
  int c = 0;
  UP p(new Obj(&c, v));
  p.reset();
  ENSURES("reset() releases the object and empties the unique_ptr", c == 1 && p.get() == nullptr);
  p.reset();
  ENSURES("reset() of an empty unique_ptr does nothing", c == 1 && p.get() == nullptr);
}
CONTRACT(C16_assign_null, (int v)) {
  int c = 0;
  UP p(new Obj(&c, v));
  UP &r = (p = nullptr);
  ENSURES("assigning nullptr releases the object and empties the unique_ptr", &r == &p && c == 1 && p.get() == nullptr);
}
CONTRACT(C16_move_construct, (int v, bool null)) {
  int c = 0;
  {
    Obj *o = null ? nullptr : new Obj(&c, v);
    UP p(o);
    {
      UP q(MOVE(p));
      ENSURES("move construction transfers the object", q.get() == o);
      ENSURES("move construction leaves the source empty", p.get() == nullptr);
      ENSURES("move construction destroys nothing", c == 0);
    }
    ENSURES("the new owner releases the object", c == (null ? 0 : 1));
  }
  ENSURES("the object is released exactly once", c == (null ? 0 : 1));
}
CONTRACT(C16_move_assign, (int v, int w, bool vn, bool wn)) {
  int c = 0, d = 0;
  {
    Obj *o = wn ? nullptr : new Obj(&d, w);
    UP p(vn ? nullptr : new Obj(&c, v)), q(o);
    UP &r = (p = MOVE(q));
    ENSURES("move assignment returns the target", &r == &p);
    ENSURES("move assignment releases the target's object exactly once", c == (vn ? 0 : 1));
    ENSURES("move assignment transfers the object", p.get() == o && d == 0);
    ENSURES("move assignment leaves the source empty", q.get() == nullptr);
  }
  ENSURES("each object is released exactly once", c == (vn ? 0 : 1) && d == (wn ? 0 : 1));
}
CONTRACT(C16_self_move, (int v)) {
  int c = 0;
  {
    Obj *o = new Obj(&c, v);
    UP p(o);
    UP &r = p;
    p = MOVE(r);
    ENSURES("self-move keeps the object", p.get() == o && c == 0);
  }
  ENSURES("the object is released exactly once", c == 1);
}
CONTRACT(C16_swap, (int v, int w)) {
  int c = 0, d = 0;
  {
    Obj *a = new Obj(&c, v), *b = new Obj(&d, w);
    UP p(a), q(b);
    p.swap(q);
    ENSURES("swap exchanges the objects", p.get() == b && q.get() == a);
    nanostl::swap(p, q);
    ENSURES("the free swap exchanges the objects", p.get() == a && q.get() == b);
    ENSURES("swap destroys nothing", c == 0 && d == 0);
  }
  ENSURES("each object is released exactly once", c == 1 && d == 1);
}
CONTRACT(C16_compare, (int v, int w)) {
  int c = 0;
  Obj *a = new Obj(&c, v), *b = new Obj(&c, w);
  UP p(a), q(b);
  ENSURES("== compares the owned pointers", !(p == q) && p == p);
  ENSURES("!= compares the owned pointers", p != q && !(p != p));
  ENSURES("owning unique_ptrs differ from nullptr", p != nullptr && nullptr != p && !(p == nullptr));
}
struct Keep { void operator()(int *) const {} };
CONTRACT(C16_order, (Arr<int> &a, u64 i, u64 j)) {
  REQUIRES(i <= a.n && j <= a.n);
  unique_ptr<int, Keep> p(a.p + i), q(a.p + j);
  ENSURES("unique_ptrs order as their pointers", (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j) && (p == q) == (i == j));
}

// a stateful deleter: it travels with the object
struct Del {
  int *count;
  int *sum;
  int id;
  void operator()(int *p) {
    ++*count;
    *sum += id;
    delete p;
  }
};
typedef unique_ptr<int, Del> UD;
CONTRACT(C16_deleter, (int v)) {
  int c = 0, s = 0;
  {
    Del d = {&c, &s, 5};
    int *o = new int(v);
    UD p(o, d);
    ENSURES("get_deleter designates the stored deleter", p.get_deleter().id == 5 && p.get_deleter().count == &c);
    UD q(static_cast<UD &&>(p));
    ENSURES("the deleter moves with the object", q.get_deleter().id == 5 && q.get() == o && *q == v && p.get() == nullptr);
  }
  ENSURES("the deleter is called exactly once", c == 1 && s == 5);
}
CONTRACT(C16_deleter_assign, (int v, int w)) {
  int c = 0, s = 0;
  {
    Del d = {&c, &s, 1}, e = {&c, &s, 16};
    UD p(new int(v), d), q(new int(w), e);
    p = static_cast<UD &&>(q);
    ENSURES("the old object is released by its own deleter", c == 1 && s == 1);
    ENSURES("the deleter moves with the object", p.get_deleter().id == 16 && *p == w && !q);
  }
  ENSURES("each object is released once by its own deleter", c == 2 && s == 17);
}
CONTRACT(C16_deleter_swap, (int v, int w)) {
  int c = 0, s = 0;
  {
    Del d = {&c, &s, 1}, e = {&c, &s, 16};
    UD p(new int(v), d), q(new int(w), e);
    p.swap(q);
    ENSURES("swap exchanges objects and deleters", *p == w && *q == v && p.get_deleter().id == 16 && q.get_deleter().id == 1);
    q.reset();
    ENSURES("the object is released by its own deleter", c == 1 && s == 1);
  }
  ENSURES("each object is released once by its own deleter", c == 2 && s == 17);
}
CONTRACT(C16_array, (int v, u64 n, u64 k)) {
  REQUIRES(n >= 1 && n <= VP_MAX && k < n);
  int *o = new int[n];
  unique_ptr<int[]> p(o);
  p[k] = v;
  ENSURES("operator[] designates the elements", &p[k] == o + k && o[k] == v && p.get() == o && (bool)p);
  unique_ptr<int[]> q(static_cast<unique_ptr<int[]> &&>(p));
  ENSURES("moving an array transfers it", q.get() == o && p.get() == nullptr && q[k] == v);
  int *m = new int[n];
  q.reset(m);
  ENSURES("reset takes the new array", q.get() == m);
  p = static_cast<unique_ptr<int[]> &&>(q);
  ENSURES("move assignment transfers the array", p.get() == m && q.get() == nullptr);
  int *r = p.release();
  ENSURES("release gives up the array", r == m && !p);
  p.reset(r);
}
struct Base { int *c; Base(int *c_) : c(c_) {} virtual ~Base() { ++*c; } };
struct Derived : Base { int *d; Derived(int *c_, int *d_) : Base(c_), d(d_) {} ~Derived() { ++*d; } };
CONTRACT(C16_convert, (bool b)) {
  int c = 0, d = 0;
  {
    unique_ptr<Derived> p(new Derived(&c, &d));
    Derived *o = p.get();
    unique_ptr<Base> q(static_cast<unique_ptr<Derived> &&>(p));
    ENSURES("conversion transfers the object", q.get() == o && p.get() == nullptr && c == 0 && d == 0);
  }
  ENSURES("the converted object is released exactly once, through its own destructor", c == 1 && d == 1);
}

// arrays whose deleter counts its calls and sums the weights of what it releases
struct ADel {
  int *count;
  int *sum;
  int id;
  void operator()(int *p) {
    ++*count;
    *sum += id * p[0];
    delete[] p;
  }
};
typedef unique_ptr<int[], ADel> UA;
inline int *arr(int v, bool null) {
  if (null) return nullptr;
  int *p = new int[2];
  p[0] = v;
  p[1] = 0;
  return p;
}
CONTRACT(C16_array_empty, (int v)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 3};
    unique_ptr<int[]> p, q(nullptr);
    UA r(nullptr, d);
    ENSURES("default-constructed and null array unique_ptrs are empty", p.get() == nullptr && !p && q.get() == nullptr && !q && r.get() == nullptr && !r);
    ENSURES("an empty one keeps its deleter", r.get_deleter().id == 3 && r.get_deleter().count == &c);
    ENSURES("release of an empty one gives null", p.release() == nullptr && r.release() == nullptr);
    ENSURES("== compares with nullptr", p == nullptr && nullptr == q && !(r != nullptr) && p == q);
  }
  ENSURES("nothing is released", c == 0);
}
CONTRACT(C16_array_destroy, (bool v)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 1};
    UA p(arr(5, v), d);
    const UA &cp = p;
    ENSURES("the array lives as long as its unique_ptr", c == 0 && (bool)p == !v && cp.get_deleter().id == 1);
  }
  ENSURES("destruction releases the array exactly once", c == (v ? 0 : 1) && s == (v ? 0 : 5));
}
CONTRACT(C16_array_reset, (bool vn, bool wn)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 1};
    UA p(arr(5, vn), d);
    int *o = arr(7, wn);
    p.reset(o);
    ENSURES("reset releases the old array exactly once", c == (vn ? 0 : 1) && s == (vn ? 0 : 5));
    ENSURES("reset takes the new array without releasing it", p.get() == o && (bool)p == !wn);
    p.reset();
    ENSURES("reset() releases the array", p.get() == nullptr && c == (vn ? 0 : 1) + (wn ? 0 : 1));
    p.reset(nullptr);
    p = nullptr;
    ENSURES("resetting an empty one releases nothing", c == (vn ? 0 : 1) + (wn ? 0 : 1));
  }
  ENSURES("each array is released exactly once", c == (vn ? 0 : 1) + (wn ? 0 : 1) && s == (vn ? 0 : 5) + (wn ? 0 : 7));
}
CONTRACT(C16_array_assign_null, (bool vn)) {
  int c = 0, s = 0;
  ADel d = {&c, &s, 1};
  UA p(arr(5, vn), d);
  UA &r = (p = nullptr);
  ENSURES("assigning nullptr releases the array and empties the unique_ptr", &r == &p && p.get() == nullptr && c == (vn ? 0 : 1));
}
CONTRACT(C16_array_move_construct, (bool vn)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 4};
    int *o = arr(5, vn);
    UA p(o, d);
    {
      UA q(static_cast<UA &&>(p));
      ENSURES("move construction transfers the array with its deleter", q.get() == o && p.get() == nullptr && c == 0 && q.get_deleter().id == 4);
    }
    ENSURES("the new owner releases the array", c == (vn ? 0 : 1));
  }
  ENSURES("the array is released exactly once", c == (vn ? 0 : 1) && s == (vn ? 0 : 20));
}
CONTRACT(C16_array_move_assign, (bool vn, bool wn)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 1}, e = {&c, &s, 16};
    int *o = arr(7, wn);
    UA p(arr(5, vn), d), q(o, e);
    UA &r = (p = static_cast<UA &&>(q));
    ENSURES("move assignment returns the target", &r == &p);
    ENSURES("the target's array is released exactly once by its own deleter", c == (vn ? 0 : 1) && s == (vn ? 0 : 5));
    ENSURES("move assignment transfers the array with its deleter", p.get() == o && q.get() == nullptr && p.get_deleter().id == 16);
  }
  ENSURES("each array is released exactly once by its own deleter", c == (vn ? 0 : 1) + (wn ? 0 : 1) && s == (vn ? 0 : 5) + (wn ? 0 : 112));
}
CONTRACT(C16_array_self_move, (bool vn)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 1};
    int *o = arr(5, vn);
    UA p(o, d);
    UA &r = p;
    p = static_cast<UA &&>(r);
    ENSURES("self-move keeps the array", p.get() == o && c == 0);
  }
  ENSURES("the array is released exactly once", c == (vn ? 0 : 1));
}
CONTRACT(C16_array_swap, (bool vn, bool wn)) {
  int c = 0, s = 0;
  {
    ADel d = {&c, &s, 1}, e = {&c, &s, 16};
    int *a = arr(5, vn), *b = arr(7, wn);
    UA p(a, d), q(b, e);
    p.swap(q);
    ENSURES("swap exchanges arrays and deleters", p.get() == b && q.get() == a && p.get_deleter().id == 16 && q.get_deleter().id == 1);
    nanostl::swap(p, q);
    ENSURES("the free swap exchanges arrays and deleters", p.get() == a && q.get() == b && p.get_deleter().id == 1 && q.get_deleter().id == 16);
    ENSURES("swap releases nothing", c == 0);
    int *r = q.release();
    ENSURES("release gives up the array", r == b && q.get() == nullptr && c == 0);
    q.reset(r);
  }
  ENSURES("each array is released exactly once by its own deleter", c == (vn ? 0 : 1) + (wn ? 0 : 1) && s == (vn ? 0 : 5) + (wn ? 0 : 112));
}

// an object that looks at its owner while it is destroyed
struct Node;
typedef unique_ptr<Node> UN;
struct Node {
  UN *owner;
  int *dead;
  int *seen;
  Node(UN *o, int *d, int *s) : owner(o), dead(d), seen(s) {}
  ~Node();
};
inline Node::~Node() {
  ++*dead;
  if (owner->get() == this) ++*seen;
}
CONTRACT(C16_reenter_reset, (bool other)) {
  int dead = 0, seen = 0, dead2 = 0;
  UN q, p;
  p.reset(new Node(&p, &dead, &seen));
  Node *n = other ? new Node(&q, &dead2, &seen) : nullptr;
  p.reset(n);
  ENSURES("while an object is destroyed its unique_ptr does not designate it any more", dead == 1 && seen == 0 && p.get() == n);
}
CONTRACT(C16_reenter_assign, (bool other)) {
  int dead = 0, seen = 0, dead2 = 0;
  UN q, p;
  p.reset(new Node(&p, &dead, &seen));
  if (other) q.reset(new Node(&q, &dead2, &seen));
  Node *n = q.get();
  p = static_cast<UN &&>(q);
  ENSURES("move assignment gives up the old object before it is destroyed", dead == 1 && seen == 0 && p.get() == n && dead2 == 0);
  p = nullptr;
  ENSURES("assigning nullptr too", seen == 0 && p.get() == nullptr && dead2 == (other ? 1 : 0));
}
// a chain: destroying the head destroys every link once
struct Link {
  unique_ptr<Link> next;
  int *dead;
  Link(int *d) : dead(d) {}
  ~Link() { ++*dead; }
};
CONTRACT(C16_chain, (bool longer)) {
  UNROLL(8);
  int dead = 0;
  {
    unique_ptr<Link> h(new Link(&dead));
    h->next.reset(new Link(&dead));
    if (longer) h->next->next.reset(new Link(&dead));
    h = static_cast<unique_ptr<Link> &&>(h->next);
    ENSURES("advancing the head destroys exactly the old head", dead == 1 && (bool)h && (bool)h->next == longer);
  }
  ENSURES("every link is destroyed exactly once", dead == (longer ? 3 : 2));
}
// deleters held by reference, and rvalue deleters
CONTRACT(C16_deleter_ref, (int v)) {
  int c = 0, s = 0;
  Del d = {&c, &s, 3};
  {
    unique_ptr<int, Del &> p(new int(v), d);
    ENSURES("a deleter held by reference is the one given", &p.get_deleter() == &d && *p == v);
    unique_ptr<int, Del &> q(static_cast<unique_ptr<int, Del &> &&>(p));
    ENSURES("moving hands on the reference", &q.get_deleter() == &d && !p && *q == v);
    d.id = 9;
  }
  ENSURES("the referenced deleter is called exactly once", c == 1 && s == 9);
  {
    unique_ptr<int, Del> r(new int(v), static_cast<Del &&>(d));
    ENSURES("an rvalue deleter is stored", r.get_deleter().id == 9 && c == 1);
  }
  ENSURES("the stored deleter is called exactly once", c == 2 && s == 18);
}
CONTRACT(C16_convert_assign, (bool vn, bool wn)) {
  int c = 0, d = 0, e = 0;
  {
    unique_ptr<Base> q(vn ? nullptr : new Base(&e));
    unique_ptr<Derived> p(wn ? nullptr : new Derived(&c, &d));
    Derived *o = p.get();
    unique_ptr<Base> &r = (q = static_cast<unique_ptr<Derived> &&>(p));
    ENSURES("converting assignment transfers the object and releases the old one", &r == &q && q.get() == o && p.get() == nullptr && e == (vn ? 0 : 1) && c == 0);
  }
  ENSURES("each object is released exactly once", c == (wn ? 0 : 1) && d == (wn ? 0 : 1) && e == (vn ? 0 : 1));
}
CONTRACT(C16_compare_null, (bool n, int v)) {
  unique_ptr<int> p(n ? nullptr : new int(v));
  bool e = n;
  ENSURES("== and != nullptr", (p == nullptr) == e && (nullptr == p) == e && (p != nullptr) == !e && (nullptr != p) == !e);
  ENSURES("a unique_ptr orders against nullptr as its pointer", (p < nullptr) == false && (nullptr < p) == !e && (p > nullptr) == !e && (nullptr > p) == false);
  ENSURES("a unique_ptr orders against nullptr as its pointer (or equal)", (p <= nullptr) == e && (nullptr <= p) == true && (p >= nullptr) == true && (nullptr >= p) == e);
}
CONTRACT(C16_default_delete, (int v)) {
  int c = 0;
  nanostl::default_delete<Obj> d;
  Obj *o = new Obj(&c, v);
  d(o);
  ENSURES("default_delete destroys the object", c == 1);
  nanostl::default_delete<int[]> a;
  a(new int[3]);
}
