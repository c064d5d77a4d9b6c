// an arbitrary map together with its abstract value when the contract starts: has(k), val(k)
template <class K, class T>
struct TMap {
  nanostl::map<K, T> m;
  bool has(K k) const;
  T val(K k) const;
#ifndef VP_SYM
  std::vector<K> ks;
  std::vector<T> vs;
#endif
};
#ifndef VP_SYM
template <class K, class T> bool TMap<K, T>::has(K k) const {
  for (size_t i = 0; i < ks.size(); i++)
    if (ks[i] == k) return true;
  return false;
}
template <class K, class T> T TMap<K, T>::val(K k) const {
  for (size_t i = 0; i < ks.size(); i++)
    if (ks[i] == k) return vs[i];
  return T();
}
namespace vp {
template <class K, class T> struct Hold<TMap<K, T> > {
  TMap<K, T> *c;
  void gen(Rng &r, Spec &s) { gen_seq(r, s, 0); s.cap = s.n; if (r.below(2)) for (U i = 0; i < s.n; i++) s.a[i] = r.below(2 * s.n); }
  void build(const Spec &s) {
    c = new TMap<K, T>();
    for (U i = 0; i < s.n; i++) {
      K k = (K)s.a[i];
      T v = (T)(s.a[i] * 7 + i);
      if (c->has(k)) continue;
      c->ks.push_back(k);
      c->vs.push_back(v);
      c->m[k] = v;
    }
  }
  TMap<K, T> &get() { return *c; }
  void drop() { delete c; }
};
}
#endif
