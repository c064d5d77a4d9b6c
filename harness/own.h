#ifndef OWN_H_
#define OWN_H_
// an element that owns storage: a bitwise copy of it is not a copy
struct Own {
  int *p;
  Own() : p(0) {}
  explicit Own(int x) : p(new int(x)) {}
  Own(const Own &o) : p(o.p ? new int(*o.p) : 0) {}
  Own &operator=(const Own &o) {
    if (this == &o) return *this;
    int *q = o.p ? new int(*o.p) : 0;
    delete p;
    p = q;
    return *this;
  }
  ~Own() { delete p; }
  bool is(int x) const { return p && *p == x; }
};
#endif
