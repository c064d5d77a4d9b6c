#include "vp.h"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanoutility.h"
#include "nanovector.h"
#include "nanovalarray.h"
#include "nanostring.h"
#include "nanomap.h"
#include "own.h"
using nanostl::vector;

typedef vector<Own> VO;

CONTRACT(C01_class_push, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  v.push_back(Own(c));
  ENSURES("the elements are the values appended", v.size() == 3 && v[0].is(a) && v[1].is(b) && v[2].is(c));
}
CONTRACT(C01_class_push_own, (int a, int b)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  v.push_back(v[0]);
  ENSURES("an element of the vector itself is appended", v.size() == 3 && v[0].is(a) && v[1].is(b) && v[2].is(a) && v[0].p != v[2].p);
}
CONTRACT(C01_class_copy, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  VO w(v);
  w[0] = Own(c);
  ENSURES("a copy has copies of the elements", w.size() == 2 && w[0].is(c) && w[1].is(b) && v[0].is(a) && v[1].is(b) && w[1].p != v[1].p);
}
CONTRACT(C01_class_assign, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v, w;
  v.push_back(Own(a));
  v.push_back(Own(b));
  w.push_back(Own(c));
  w = v;
  v[1] = Own(c);
  ENSURES("assignment copies the elements", w.size() == 2 && w[0].is(a) && w[1].is(b) && v[0].is(a) && v[1].is(c) && w[0].p != v[0].p);
}
CONTRACT(C01_class_erase, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  v.push_back(Own(c));
  v.erase(v.begin());
  ENSURES("the first element is removed, the others move up", v.size() == 2 && v[0].is(b) && v[1].is(c) && v[0].p != v[1].p);
  v.erase(v.begin() + 1);
  ENSURES("the last element is removed", v.size() == 1 && v[0].is(b));
}
CONTRACT(C01_class_resize, (int a, int b)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  v.resize(4);
  ENSURES("resize keeps the elements and appends new ones", v.size() == 4 && v[0].is(a) && v[1].is(b) && !v[2].p && !v[3].p);
  v.resize(1);
  ENSURES("resize drops elements at the end", v.size() == 1 && v[0].is(a));
}
CONTRACT(C01_class_range, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(c));
  Own x[2];
  x[0] = Own(a);
  x[1] = Own(b);
  v.assign(x, x + 2);
  ENSURES("assign makes copies of the range", v.size() == 2 && v[0].is(a) && v[1].is(b) && x[0].is(a) && v[0].p != x[0].p && v[1].p != x[1].p);
}
CONTRACT(C01_class_swap, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v, w;
  v.push_back(Own(a));
  v.push_back(Own(b));
  w.push_back(Own(c));
  v.swap(w);
  v.push_back(Own(b));
  ENSURES("swap exchanges the elements", v.size() == 2 && v[0].is(c) && v[1].is(b) && w.size() == 2 && w[0].is(a) && w[1].is(b));
}
CONTRACT(C01_class_nested, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  vector<vector<int> > v;
  vector<int> r;
  r.push_back(a);
  v.push_back(r);
  r.push_back(b);
  v.push_back(r);
  v[0].push_back(c);
  ENSURES("rows are independent", v.size() == 2 && v[0].size() == 2 && v[0][0] == a && v[0][1] == c && v[1].size() == 2 && v[1][0] == a && v[1][1] == b && r.size() == 2 && r[1] == b);
}

// valarray
typedef nanostl::valarray<Own> AO;
CONTRACT(C03_class_resize, (int a, int b)) {
  UNROLL(64);
  RECORDS();
  AO v(2);
  v[0] = Own(a);
  v[1] = Own(b);
  v.resize(5);
  ENSURES("resize keeps the elements and appends new ones", v.size() == 5 && v[0].is(a) && v[1].is(b) && !v[2].p && !v[3].p && !v[4].p);
  v.resize(1);
  ENSURES("resize drops elements at the end", v.size() == 1 && v[0].is(a));
}
CONTRACT(C03_class_copy, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  AO v(2), u;
  v[0] = Own(a);
  v[1] = Own(b);
  AO w(v);
  u = v;
  w[0] = Own(c);
  u[1] = Own(c);
  ENSURES("copies have copies of the elements", w.size() == 2 && u.size() == 2 && w[0].is(c) && w[1].is(b) && u[0].is(a) && u[1].is(c) && v[0].is(a) && v[1].is(b));
  ENSURES("which are other objects", w[1].p != v[1].p && u[0].p != v[0].p);
}
CONTRACT(C03_class_erase_swap, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  AO v(3), w(1);
  v[0] = Own(a);
  v[1] = Own(b);
  v[2] = Own(c);
  w[0] = Own(c);
  v.erase(v.begin());
  ENSURES("the first element is removed, the others move up", v.size() == 2 && v[0].is(b) && v[1].is(c));
  v.swap(w);
  ENSURES("swap exchanges the elements", v.size() == 1 && v[0].is(c) && w.size() == 2 && w[0].is(b) && w[1].is(c));
}

// strings as elements and as keys
typedef nanostl::string S;
static S mk(char a, char b) {
  char x[2] = {a, b};
  return S(x, x + 2);
}
CONTRACT(C04_class_vector, (char a, char b, char c)) {
  UNROLL(64);
  RECORDS();
  vector<S> v;
  v.push_back(mk(a, b));
  v.push_back(mk(b, c));
  v.push_back(v[0]);
  v[0] = mk(c, c);
  ENSURES("strings in a vector keep their characters", v.size() == 3 && v[0].size() == 2 && v[0][0] == c && v[0][1] == c && v[1].size() == 2 && v[1][0] == b && v[1][1] == c &&
                                                       v[2].size() == 2 && v[2][0] == a && v[2][1] == b);
}
CONTRACT(C07_class_value, (int k, int l, int x, int y)) {
  UNROLL(64);
  RECORDS();
  nanostl::map<int, Own> m;
  m[k] = Own(x);
  m[l] = Own(y);
  ENSURES("each key has the value last assigned", m[l].is(y) && (k == l || m[k].is(x)));
  nanostl::map<int, Own> n(m);
  n[k] = Own(3);
  ENSURES("a copy of the map has copies of the values", n[k].is(3) && m[l].is(y) && (k == l || (m[k].is(x) && n[l].is(y))));
  nanostl::map<int, Own> o;
  o[l] = Own(x);
  o = m;
  ENSURES("assignment copies the values", o[l].is(y) && (k == l || o[k].is(x)) && o[l].p != m[l].p);
}
CONTRACT(C07_class_key, (char a, char b, char c, int x, int y)) {
  UNROLL(64);
  RECORDS();
  nanostl::map<S, int> m;
  m[mk(a, b)] = x;
  m[mk(a, c)] = y;
  ENSURES("each key has the value last assigned", m[mk(a, c)] == y && m[mk(a, b)] == (b == c ? y : x));
  ENSURES("other keys are not held", (m.find(mk(b, a)) == m.end()) == !(b == a));
}
CONTRACT(C08_class_key, (char a, char b, char c, int x, int y)) {
  UNROLL(64);
  RECORDS();
  nanostl::map<S, int> m;
  m[mk(a, b)] = x;
  m[mk(a, c)] = y;
  nanostl::map<S, int>::iterator it = m.begin();
  bool lt = (u8)b < (u8)c;
  ENSURES("iteration begins with the least key", it->first == (b == c || lt ? mk(a, b) : mk(a, c)));
  ++it;
  ENSURES("goes on with the next one", (it == m.end()) == (b == c) && (b == c || it->first == (lt ? mk(a, c) : mk(a, b))));
}
// algorithms
CONTRACT(C09_class_fill, (int a, int b)) {
  UNROLL(64);
  RECORDS();
  Own x[3];
  x[0] = Own(b);
  nanostl::fill(x, x + 2, Own(a));
  ENSURES("every element of the range is a copy of the value", x[0].is(a) && x[1].is(a) && !x[2].p && x[0].p != x[1].p);
}
CONTRACT(C09_class_swap, (int a, int b)) {
  UNROLL(64);
  RECORDS();
  Own x(a), y(b);
  nanostl::swap(x, y);
  ENSURES("swap exchanges the values", x.is(b) && y.is(a));
}
// everything is released
CONTRACT(C02_class_vector, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  {
    VO v, w;
    v.push_back(Own(a));
    v.push_back(Own(b));
    v.push_back(Own(c));
    w = v;
    v.pop_back();
    v.erase(v.begin());
    w.clear();
    w.push_back(v[0]);
    v.resize(6);
    VO u(v);
    u.swap(w);
    ENSURES("the elements are those put in", v.size() == 6 && v[0].is(b) && u.size() == 1 && u[0].is(b) && w.size() == 6 && w[0].is(b));
  }
}
CONTRACT(C02_class_strings, (char a, char b)) {
  UNROLL(64);
  RECORDS();
  vector<S> v;
  v.push_back(mk(a, b));
  v.push_back(mk(b, a));
  vector<S> w(v);
  v.resize(3);
  v.erase(v.begin());
  w = v;
  ENSURES("the elements are those put in", v.size() == 2 && v[0][0] == b && w.size() == 2 && w[0][1] == a && w[1].size() == 0);
}
CONTRACT(C02_class_map, (int k, int l, int x, int y)) {
  UNROLL(64);
  RECORDS();
  nanostl::map<int, vector<int> > m;
  m[k].push_back(x);
  m[l].push_back(y);
  nanostl::map<int, vector<int> > n(m);
  m = m;
  m[k].push_back(y);
  n = m;
  ENSURES("the values are those put in", n[k].size() == (k == l ? 3 : 2) && n[k][0] == x && (k == l || (n[l].size() == 1 && n[l][0] == y)));
}
CONTRACT(C01_class_alias, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  VO v;
  v.push_back(Own(a));
  v.push_back(Own(b));
  v.push_back(Own(c));
  v = v;
  ENSURES("self assignment changes nothing", v.size() == 3 && v[0].is(a) && v[1].is(b) && v[2].is(c));
  v.assign(v.begin() + 1, v.end());
  ENSURES("a range of the vector itself may be assigned", v.size() == 2 && v[0].is(b) && v[1].is(c));
  v.push_back(v[1]);
  v.push_back(v[0]);
  v.push_back(v[2]);
  ENSURES("its elements may be appended", v.size() == 5 && v[0].is(b) && v[1].is(c) && v[2].is(c) && v[3].is(b) && v[4].is(c));
  v.pop_back();
  v.clear();
  ENSURES("a cleared vector is empty", v.size() == 0 && v.empty());
  v.push_back(Own(a));
  v.resize(3);
  ENSURES("elements made by resize after clear are new", v.size() == 3 && v[0].is(a) && !v[1].p && !v[2].p);
}
CONTRACT(C03_class_alias, (int a, int b, int c)) {
  UNROLL(64);
  RECORDS();
  AO v(3);
  v[0] = Own(a);
  v[1] = Own(b);
  v[2] = Own(c);
  v = v;
  ENSURES("self assignment changes nothing", v.size() == 3 && v[0].is(a) && v[1].is(b) && v[2].is(c));
  Own x[2];
  x[1] = Own(b);
  v.assign(x, x + 2);
  ENSURES("assign copies the range", v.size() == 2 && !v[0].p && v[1].is(b) && x[1].is(b) && v[1].p != x[1].p);
  v.clear();
  v.resize(2);
  ENSURES("elements made by resize after clear are new", v.size() == 2 && !v[0].p && !v[1].p);
}
CONTRACT(C07_class_insert, (int k, int l, int x, int y)) {
  UNROLL(64);
  RECORDS();
  typedef nanostl::map<int, Own> M;
  M m;
  bool n1 = m.insert(M::value_type(k, Own(x))).second;
  M::pair_iterator_bool r = m.insert(M::value_type(l, Own(y)));
  ENSURES("insert reports whether the key was new", n1 && r.second == (k != l));
  ENSURES("an existing entry keeps its value, a new one has a copy of the given value", r.first->first == l && r.first->second.is(k == l ? x : y));
  m = m;
  ENSURES("self assignment changes nothing", m.find(k)->second.is(x) && m.find(l)->second.is(k == l ? x : y));
  m[7];
  ENSURES("a missing key is added with a value-initialised value", k == 7 || l == 7 || !m[7].p);
}
CONTRACT(C09_class_pair, (int a, int b, char c, char d)) {
  UNROLL(64);
  RECORDS();
  nanostl::pair<Own, int> p(Own(a), b), q = nanostl::make_pair(Own(b), a);
  ENSURES("a pair holds copies of its values", p.first.is(a) && p.second == b && q.first.is(b) && q.second == a);
  q = p;
  ENSURES("assignment copies both", q.first.is(a) && q.second == b && q.first.p != p.first.p);
  nanostl::pair<S, int> s(mk(c, d), a), t(mk(d, c), b);
  ENSURES("pairs of strings are ordered lexicographically", (s < t) == ((u8)c < (u8)d || (c == d && a < b)) && (s == t) == (c == d && a == b));
}
