// Native side of the contracts: builds concrete parameters (from tokens or from a random generator with a constant
// dictionary), runs the contract body against the real code under ASan/UBSan, reports the first failed clause.
#ifndef VP_NATIVE_H_
#define VP_NATIVE_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <csignal>
#include <unistd.h>
#include <new>

namespace nanostl {
template <class T> class allocator;
template <class T, class A> class vector;
template <class T, class A> class valarray;
template <class C> class basic_string;
}
template <class T> struct Arr;
struct CStr;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));

namespace vp {
struct Reject {};
typedef unsigned long long U;

struct Rng {
  U s;
  U next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  U below(U n) { return n ? next() % n : 0; }
};
inline std::vector<U> &dict() { static std::vector<U> d; return d; }
inline bool &in_setup() { static bool b = false; return b; }

inline U gen_num(Rng &r) {
  static const U base[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu,
                           0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  switch (r.below(8)) {
    case 0: case 1: case 2: return r.below(9);
    case 3: return base[r.below(sizeof(base) / sizeof(base[0]))] + r.below(5) - 2;
    case 4: if (!dict().empty()) return dict()[r.below(dict().size())] + (r.below(2) ? 0 : r.below(5) - 2);
    case 5: return r.next() >> r.below(64);
    case 6: return 0 - r.below(9);
    default: return r.next() >> r.below(64);
  }
}
inline U gen_fp(Rng &r, int w) {
  if (w == 32) {
    static const unsigned b[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u,
                                 0x00000001u, 0x80000001u, 0x007fffffu, 0x00800000u, 0x7f7fffffu, 0xff7fffffu, 0x3f000000u,
                                 0xbf000000u, 0x4b000000u, 0x4b800000u, 0x4f000000u, 0xcf000000u, 0x5f000000u, 0x3effffffu,
                                 0xbeffffffu, 0x33800000u, 0x4effffffu, 0x3fffffffu, 0x7fffffffu, 0xffc00000u};
    switch (r.below(5)) {
      case 0: return b[r.below(sizeof(b) / sizeof(b[0]))];
      case 1: return (b[r.below(sizeof(b) / sizeof(b[0]))] + (unsigned)r.below(7) - 3) & 0xffffffffu;
      case 2: { float f = (float)(long long)(r.next() >> (40 + r.below(24))) * (r.below(2) ? 1.f : -1.f) / (float)(1 << r.below(8)); unsigned u; memcpy(&u, &f, 4); return u; }
      case 3: if (!dict().empty()) return (dict()[r.below(dict().size())] + r.below(3) - 1) & 0xffffffffu;
      default: return r.next() & 0xffffffffu;
    }
  }
  static const U b[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff0000000000000ull,
                        0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 1, 0x8000000000000001ull,
                        0x000fffffffffffffull, 0x0010000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull,
                        0x3fe0000000000000ull, 0xbfe0000000000000ull, 0x4330000000000000ull, 0x4340000000000000ull,
                        0x41e0000000000000ull, 0xc1e0000000000000ull, 0x43e0000000000000ull, 0x3fdfffffffffffffull,
                        0x4320000000000000ull, 0xc330000000000000ull, 0x7fffffffffffffffull, 0xfff8000000000000ull};
  switch (r.below(5)) {
    case 0: return b[r.below(sizeof(b) / sizeof(b[0]))];
    case 1: return b[r.below(sizeof(b) / sizeof(b[0]))] + r.below(7) - 3;
    case 2: { double f = (double)(long long)(r.next() >> (10 + r.below(54))) * (r.below(2) ? 1. : -1.) / (double)(1 << r.below(16)); U u; memcpy(&u, &f, 8); return u; }
    case 3: if (!dict().empty()) return dict()[r.below(dict().size())] + r.below(3) - 1;
    default: return r.next();
  }
}
inline U gen_len(Rng &r) {
  U k = r.below(40);
  if (k < 30) return r.below(7);
  if (k < 36) return r.below(20);
  if (k < 38) return r.below(70);
  // lengths around the constants of the code
  static std::vector<U> ds;
  static bool init = false;
  if (!init) { init = true; for (size_t i = 0; i < dict().size(); i++) if (dict()[i] >= 5 && dict()[i] < 5000) ds.push_back(dict()[i]); }
  if (!ds.empty() && r.below(4)) return ds[r.below(ds.size())] + r.below(3);
  return r.below(1200);
}

// concrete description of one parameter
struct Spec {
  bool seq;
  U n, cap;
  std::vector<U> a;
  int tail;  // 1: the last element is a string's terminator
  Spec() : seq(false), n(0), cap(0), tail(0) {}
  void print(FILE *f) const {
    if (!seq) { fprintf(f, " n:%llu", n); return; }
    fprintf(f, " v:%llu:%llu:", n, cap);
    for (size_t i = 0; i < a.size(); i++) fprintf(f, "%s%llu", i ? "," : "", a[i]);
  }
  void parse(const char *s) {
    if (s[0] == 'n') { seq = false; n = strtoull(s + 2, 0, 10); return; }
    seq = true;
    char *e;
    n = strtoull(s + 2, &e, 10);
    cap = strtoull(e + 1, &e, 10);
    const char *p = e + 1;
    while (*p) { a.push_back(strtoull(p, &e, 10)); p = *e ? e + 1 : e; }
    while (a.size() < n) a.push_back(0);
  }
};
inline void gen_seq(Rng &r, Spec &s, int fpw) {
  s.seq = true;
  s.n = gen_len(r);
  s.cap = s.n + (r.below(2) ? 0 : r.below(4));
  U mode = r.below(4);
  for (U i = 0; i < s.n; i++) {
    U x = fpw ? gen_fp(r, fpw) : mode == 0 ? r.below(3) : mode == 1 ? i : gen_num(r);
    s.a.push_back(x);
  }
}

template <class T> struct IsFp { enum { w = 0 }; };
template <> struct IsFp<float> { enum { w = 32 }; };
template <> struct IsFp<double> { enum { w = 64 }; };
template <class T> inline T from_u(U x) { T t; if (IsFp<T>::w) { memcpy(&t, &x, sizeof(T)); return t; } return (T)x; }

template <class D> struct Hold {  // scalars
  D v;
  void gen(Rng &r, Spec &s) { s.seq = false; s.n = IsFp<D>::w ? gen_fp(r, IsFp<D>::w) : (sizeof(D) == 1 ? (U)(D)gen_num(r) : gen_num(r)); }
  void build(const Spec &s) { v = from_u<D>(s.n); }
  D &get() { return v; }
  void drop() {}
};
template <> inline void Hold<bool>::build(const Spec &s) { v = s.n & 1; }
template <class C, class T> struct HoldSeq {
  C *c;
  void gen(Rng &r, Spec &s) { gen_seq(r, s, IsFp<T>::w); }
  void build(const Spec &s) {
    c = new C();
    if (s.cap > s.n && s.cap < (1ull << 28)) c->resize(s.cap);
    c->clear();
    if (s.n) c->resize(s.n);
    for (U i = 0; i < s.n; i++) (*c)[i] = from_u<T>(s.a[i]);
  }
  C &get() { return *c; }
  void drop() { delete c; }
};
template <class T, class A> struct Hold<nanostl::vector<T, A> > : HoldSeq<nanostl::vector<T, A>, T> {};
template <class T, class A> struct Hold<nanostl::valarray<T, A> > : HoldSeq<nanostl::valarray<T, A>, T> {};
template <class T> struct Hold<Arr<T> > {
  Arr<T> a;
  void gen(Rng &r, Spec &s) { gen_seq(r, s, IsFp<T>::w); s.cap = s.n; }
  void build(const Spec &s) { a.n = s.n; a.p = new T[s.n]; for (U i = 0; i < s.n; i++) a.p[i] = from_u<T>(s.a[i]); }
  Arr<T> &get() { return a; }
  void drop() { delete[] a.p; }
};
template <class CS> struct HoldCStr {
  CS a;
  char *b;
  void gen(Rng &r, Spec &s) { gen_seq(r, s, 0); s.cap = s.n; for (U i = 0; i < s.n; i++) { s.a[i] &= 255; if (!s.a[i]) s.a[i] = 'a' + i % 3; } }
  void build(const Spec &s) { b = new char[s.n + 1]; for (U i = 0; i < s.n; i++) { b[i] = (char)s.a[i]; if (!b[i]) b[i] = 'a'; } b[s.n] = 0; a.p = b; a.n = s.n; }
  CS &get() { return a; }
  void drop() { delete[] b; }
};
template <> struct Hold<CStr> : HoldCStr<CStr> {};
// strings are described by their visible characters plus the terminator (as the verifier models them)
template <class S> struct HoldStr {
  S *c;
  void gen(Rng &r, Spec &s) { gen_seq(r, s, 0); for (U i = 0; i < s.n; i++) { s.a[i] &= 255; if (!s.a[i] && r.below(4)) s.a[i] = 'a' + i % 3; } s.n++; s.cap++; s.a.push_back(0); s.tail = 1; }
  void build(const Spec &s) {
    std::string t;
    for (U i = 0; i + 1 < s.n; i++) t.push_back((char)s.a[i]);
    c = new S(t.data(), (U)t.size());
  }
  S &get() { return *c; }
  void drop() { delete c; }
};
template <class C> struct Hold<nanostl::basic_string<C> > : HoldStr<nanostl::basic_string<C> > {};

template <class T> struct Decay { typedef T type; };
template <class T> struct Decay<T &> { typedef T type; };
template <class T> struct Decay<const T &> { typedef T type; };
template <class T> struct Decay<const T> { typedef T type; };

struct Fn {
  virtual int arity() = 0;
  virtual void gen(Rng &r, std::vector<Spec> &s) = 0;
  virtual void run(const std::vector<Spec> &s) = 0;
  virtual ~Fn() {}
};
template <int... I> struct Seq {};
template <int N, int... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <int... I> struct Mk<0, I...> { typedef Seq<I...> type; };
template <int I, class T> struct Leaf { Hold<T> h; };
template <class S, class... A> struct Pack;
template <int... I, class... A> struct Pack<Seq<I...>, A...> : Leaf<I, typename Decay<A>::type>... {
  void gen(Rng &r, std::vector<Spec> &s) { int d[] = {0, (Leaf<I, typename Decay<A>::type>::h.gen(r, s[I]), 0)...}; (void)d; }
  void build(const std::vector<Spec> &s) { int d[] = {0, (Leaf<I, typename Decay<A>::type>::h.build(s[I]), 0)...}; (void)d; }
  void call(void (*f)(A...)) { f(Leaf<I, typename Decay<A>::type>::h.get()...); }
  void drop() { int d[] = {0, (Leaf<I, typename Decay<A>::type>::h.drop(), 0)...}; (void)d; }
};
extern long live_allocs;
void fail(const char *what);
template <class... A> struct FnT : Fn {
  typedef Pack<typename Mk<sizeof...(A)>::type, A...> P;
  void (*f)(A...);
  FnT(void (*g)(A...)) : f(g) {}
  int arity() { return sizeof...(A); }
  void gen(Rng &r, std::vector<Spec> &s) {
    s.assign(arity(), Spec());
    P p;
    p.gen(r, s);
    // related sequences: the same elements, a prefix, or one element changed
    for (size_t i = 1; i < s.size(); i++)
      if (s[i].seq && s[i - 1].seq && r.below(2)) {
        s[i].a.assign(s[i - 1].a.begin(), s[i - 1].a.end() - s[i - 1].tail);
        if (r.below(3) == 0 && !s[i].a.empty()) s[i].a.resize(r.below(s[i].a.size() + 1));
        if (r.below(3) == 0 && !s[i].a.empty()) { U &x = s[i].a[r.below(s[i].a.size())]; x = x & 127 ? x ^ 128 : 129; }
        if (r.below(4) == 0) s[i].a.push_back(r.below(256) | 1);
        if (s[i].tail) s[i].a.push_back(0);
        s[i].n = s[i].a.size();
        s[i].cap = s[i].n + (s[i].cap ? r.below(3) : 0);
      }
    U m = 0;
    bool any = false;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].seq) { any = true; if (s[i].n > m) m = s[i].n; }
    if (any)
      for (size_t i = 0; i < s.size(); i++)
        if (!s[i].seq && r.below(4)) s[i].n = r.below(3) ? r.below(m + 2) : m - r.below(m < 4 ? m + 1 : 5);
  }
  void run(const std::vector<Spec> &s) {
    long before = live_allocs;
    bool rejected = false;
    {
      P p;
      p.build(s);
      try { p.call(f); } catch (const Reject &) { rejected = true; }
      p.drop();
    }
    if (rejected) throw Reject();
    if (live_allocs != before) fail("leak: storage obtained during the call is not released");
  }
};
template <class... A> Fn *wrap(void (*g)(A...)) { return new FnT<A...>(g); }
struct Reg {
  const char *name;
  Fn *fn;
  Reg *next;
  static Reg *&head() { static Reg *h = 0; return h; }
  Reg(const char *n, Fn *f) : name(n), fn(f), next(head()) { head() = this; }
};
}  // namespace vp
#endif
