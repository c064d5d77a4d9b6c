#include "vp.h"
#include "nanoutility.h"
#include "nanomap.h"

#include "tmap.h"
typedef nanostl::map<int, int> Map;
typedef Map::value_type Val;
#define AMAP TMap<int, int>

CONTRACT(C07_default, (int k)) {
  Map m;
  ENSURES("a default-constructed map is empty", m.empty() && m.begin() == m.end());
  ENSURES("no key is found in it", m.find(k) == m.end());
}
CONTRACT(C07_find, (AMAP &t, int k)) {
  Map::iterator it = t.m.find(k);
  ENSURES("find succeeds exactly for the keys held", (it == t.m.end()) == !t.has(k) && (it != t.m.end()) == t.has(k) && it.isEnd() == !t.has(k));
  if (t.has(k)) {
    ENSURES("find designates the entry of the key", it->first == k && it->second == t.val(k));
    ENSURES("* and -> designate the same entry", &*it == &*(it.operator->()) && (*it).second == t.val(k));
  }
}
CONTRACT(C07_find_const, (const AMAP &t, int k, int j)) {
  const Map &c = t.m;
  bool e = c.find(k) == c.end();
  ENSURES("find on a const map succeeds exactly for the keys held", e == !t.has(k));
  if (t.has(k)) ENSURES("find on a const map gives the value", c.find(k)->second == t.val(k));
  ENSURES("finding changes nothing", (c.find(j) != c.end()) == t.has(j) && (!t.has(j) || c.find(j)->second == t.val(j)));
}
CONTRACT(C07_empty, (AMAP &t, int k)) {
  bool e = t.m.empty();
  ENSURES("empty() means that no key is held", !e || !t.has(k));
  ENSURES("empty() is false when a key is held", e == (t.m.begin() == t.m.end()));
}
CONTRACT(C07_insert, (AMAP &t, int k, int v, int j)) {
  Map::pair_iterator_bool r = t.m.insert(Val(k, v));
  ENSURES("insert reports whether the key was new", r.second == !t.has(k));
  ENSURES("insert designates the entry of the key", r.first != t.m.end() && r.first->first == k);
  ENSURES("an existing entry keeps its value, a new one takes the given value", r.first->second == (t.has(k) ? t.val(k) : v));
  Map::iterator f = t.m.find(j);
  ENSURES("the keys held are the old ones and the inserted one", (f != t.m.end()) == (t.has(j) || j == k));
  if (f != t.m.end()) ENSURES("every entry has its value", f->first == j && f->second == (t.has(j) ? t.val(j) : v));
  ENSURES("the map is not empty afterwards", !t.m.empty());
}
CONTRACT(C07_insert2, (AMAP &t, int a, int x, int b, int y, int j)) {
  bool na = t.m.insert(Val(a, x)).second;
  bool nb = t.m.insert(Val(b, y)).second;
  bool again = t.m.insert(Val(a, y)).second;
  ENSURES("insert reports whether the key was new, also after other insertions", na == !t.has(a) && nb == !(t.has(b) || a == b) && !again);
  Map::iterator f = t.m.find(j);
  ENSURES("the keys held are exactly those inserted", (f != t.m.end()) == (t.has(j) || j == a || j == b));
  if (f != t.m.end()) ENSURES("every entry has the value first given", f->second == (t.has(j) ? t.val(j) : j == a ? x : y));
}
CONTRACT(C07_index, (AMAP &t, int k, int j)) {
  int x = t.m[k];
  ENSURES("[] gives the value of the key, or a new zero entry", x == (t.has(k) ? t.val(k) : 0));
  Map::iterator f = t.m.find(j);
  ENSURES("[] adds the key if it is missing and no other", (f != t.m.end()) == (t.has(j) || j == k));
  if (f != t.m.end()) ENSURES("[] leaves every entry alone", f->second == (t.has(j) ? t.val(j) : 0));
}
CONTRACT(C07_index_write, (AMAP &t, int k, int v, int j)) {
  t.m[k] = v;
  Map::iterator f = t.m.find(j);
  ENSURES("writing through [] adds at most the key", (f != t.m.end()) == (t.has(j) || j == k));
  if (f != t.m.end()) ENSURES("writing through [] changes exactly the entry of the key", f->second == (j == k ? v : t.val(j)));
  ENSURES("the last value written is read back", t.m[k] == v);
}
CONTRACT(C07_iterator_write, (AMAP &t, int k, int v, int j)) {
  REQUIRES(t.has(k));
  Map::iterator it = t.m.find(k);
  it->second = v;
  Map::iterator f = t.m.find(j);
  ENSURES("writing through an iterator adds no key", (f != t.m.end()) == t.has(j));
  if (f != t.m.end()) ENSURES("writing through an iterator changes exactly that entry", f->second == (j == k ? v : t.val(j)));
}
CONTRACT(C07_stable, (AMAP &t, int a, int b, int v)) {
  REQUIRES(a != b && t.has(a));
  int &r = t.m[a];
  Map::iterator it = t.m.find(a);
  int *p = &it->second;
  t.m[b] = v;
  ENSURES("references and iterators stay valid when other keys are inserted", r == t.val(a) && it->second == r && p == &r);
  ENSURES("they still designate the entry of the key", it->first == a && &t.m[a] == &r && t.m.find(a) == it);
  r = v;
  ENSURES("writing through the reference changes the entry", t.m.find(a)->second == v && t.m[b] == v);
}
CONTRACT(C07_iterator_equal, (AMAP &t, int a, int b)) {
  Map::iterator x = t.m.find(a), y = t.m.find(b);
  bool same = (!t.has(a) && !t.has(b)) || (t.has(a) && t.has(b) && a == b);
  ENSURES("iterators are equal exactly when they designate the same entry or the end", (x == y) == same && (x != y) == !same);
}
CONTRACT(C07_copy, (AMAP &t, int k, int v, int j)) {
  Map c(t.m);
  Map::iterator f = c.find(j);
  ENSURES("a copy holds the same keys", (f != c.end()) == t.has(j));
  if (f != c.end()) ENSURES("a copy holds the same values", f->second == t.val(j));
  ENSURES("copying leaves the source alone", (t.m.find(j) != t.m.end()) == t.has(j) && (!t.has(j) || t.m.find(j)->second == t.val(j)));
  c[k] = v;
  ENSURES("writing to a copy leaves the source alone", (t.m.find(j) != t.m.end()) == t.has(j) && (!t.has(j) || t.m.find(j)->second == t.val(j)));
}
CONTRACT(C07_assign, (AMAP &t, AMAP &s, int k, int v, int j)) {
  Map &r = (t.m = s.m);
  ENSURES("assignment returns the target", &r == &t.m);
  Map::iterator f = t.m.find(j);
  ENSURES("assignment takes the keys of the source", (f != t.m.end()) == s.has(j));
  if (f != t.m.end()) ENSURES("assignment takes the values of the source", f->second == s.val(j));
  t.m[k] = v;
  ENSURES("assignment leaves the source alone and independent", (s.m.find(j) != s.m.end()) == s.has(j) && (!s.has(j) || s.m.find(j)->second == s.val(j)));
}
CONTRACT(C07_self_assign, (AMAP &t, int j)) {
  const Map &c = t.m;
  t.m = c;
  ENSURES("self-assignment changes nothing", (t.m.find(j) != t.m.end()) == t.has(j) && (!t.has(j) || t.m.find(j)->second == t.val(j)));
}
CONTRACT(C07_destroy, (AMAP &t, int k, int v)) {
  {
    Map c(t.m);
    c[k] = v;
  }
  ENSURES("destroying a copy leaves the original usable", (t.m.find(k) != t.m.end()) == t.has(k));
}

CONTRACT(C08_begin, (AMAP &t, int k)) {
  Map::iterator b = t.m.begin();
  ENSURES("begin is the end only of an empty map", (b == t.m.end()) == t.m.empty() && (b != t.m.end() || !t.has(k)));
  if (b != t.m.end()) {
    ENSURES("begin designates an entry", t.has(b->first) && b->second == t.val(b->first));
    ENSURES("begin designates the smallest key", !t.has(k) || b->first <= k);
  }
}
CONTRACT(C08_next, (AMAP &t, int a, int k)) {
  REQUIRES(t.has(a));
  Map::iterator it = t.m.find(a);
  Map::iterator &r = ++it;
  ENSURES("++ returns the iterator", &r == &it);
  if (it == t.m.end()) {
    ENSURES("++ reaches the end only from the largest key", !t.has(k) || k <= a);
  } else {
    ENSURES("++ designates an entry of a larger key", t.has(it->first) && it->first > a && it->second == t.val(it->first));
    ENSURES("++ skips no key", !t.has(k) || k <= a || it->first <= k);
  }
}
CONTRACT(C08_upper_bound, (AMAP &t, int a, int k)) {
  Map::iterator it = t.m.upper_bound(a);
  if (it == t.m.end()) {
    ENSURES("upper_bound is the end only when no key is larger", !t.has(k) || k <= a);
  } else {
    ENSURES("upper_bound designates an entry of a larger key", t.has(it->first) && it->first > a && it->second == t.val(it->first));
    ENSURES("upper_bound designates the first such key", !t.has(k) || k <= a || it->first <= k);
  }
}
CONTRACT(C08_upper_bound_const, (const AMAP &t, int a, int k)) {
  const Map &c = t.m;
  Map::iterator it = c.upper_bound(a);
  ENSURES("upper_bound on a const map is the end only when no key is larger", it != c.end() || !t.has(k) || k <= a);
  if (it != c.end())
    ENSURES("upper_bound on a const map designates the first larger key", t.has(it->first) && it->first > a && (!t.has(k) || k <= a || it->first <= k));
}
CONTRACT(C08_order_after_insert, (AMAP &t, int x, int v, int a, int k)) {
  t.m.insert(Val(x, v));
  Map::iterator b = t.m.begin();
  ENSURES("after an insertion begin designates the smallest key", b != t.m.end() && b->first <= x && (t.has(b->first) || b->first == x) && (!t.has(k) || b->first <= k));
  Map::iterator it = t.m.find(a);
  if (it != t.m.end()) {
    ++it;
    bool hk = t.has(k) || k == x;
    if (it == t.m.end())
      ENSURES("after an insertion ++ reaches the end only from the largest key", !hk || k <= a);
    else
      ENSURES("after an insertion ++ designates the next key", it->first > a && (t.has(it->first) || it->first == x) && (!hk || k <= a || it->first <= k));
  }
}
CONTRACT(C08_first_steps, (AMAP &t, int k)) {
  Map::iterator it = t.m.begin();
  if (it != t.m.end()) {
    int a = it->first;
    ++it;
    if (it != t.m.end()) {
      int b = it->first;
      ENSURES("the second key visited is the second smallest", b > a && (!t.has(k) || k == a || b <= k));
      ++it;
      ENSURES("the third key visited is larger again", it == t.m.end() || (it->first > b && (!t.has(k) || k <= b || it->first <= k)));
    }
  }
}
// wide unsigned keys, narrow values
#define UMAP TMap<unsigned long long, unsigned char>
typedef nanostl::map<unsigned long long, unsigned char> MapU;
CONTRACT(C07_insert_unsigned, (UMAP &t, u64 k, u8 v, u64 j)) {
  MapU::pair_iterator_bool r = t.m.insert(MapU::value_type(k, v));
  ENSURES("insert reports whether the key was new and designates its entry", r.second == !t.has(k) && r.first->first == k && r.first->second == (t.has(k) ? t.val(k) : v));
  MapU::iterator f = t.m.find(j);
  ENSURES("the keys held are the old ones and the inserted one", (f != t.m.end()) == (t.has(j) || j == k));
  if (f != t.m.end()) ENSURES("every entry has its value", f->first == j && f->second == (t.has(j) ? t.val(j) : v));
}
CONTRACT(C07_write_unsigned, (UMAP &t, u64 k, u8 v, u64 j)) {
  t.m[k] = v;
  MapU c(t.m);
  MapU::iterator f = c.find(j);
  ENSURES("writing through [] changes exactly the entry of the key", (f != c.end()) == (t.has(j) || j == k) && (f == c.end() || f->second == (j == k ? v : t.val(j))));
}
CONTRACT(C08_order_unsigned, (UMAP &t, u64 x, u8 v, u64 k)) {
  t.m[x] = v;
  MapU::iterator b = t.m.begin();
  ENSURES("begin designates the smallest key", b != t.m.end() && b->first <= x && (t.has(b->first) || b->first == x) && (!t.has(k) || b->first <= k));
  MapU::iterator it = t.m.find(x);
  ++it;
  ENSURES("++ designates the next key", it == t.m.end() ? !t.has(k) || k <= x : it->first > x && t.has(it->first) && (!t.has(k) || k <= x || it->first <= k));
}
