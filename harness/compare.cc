#include "vp.h"
#include "nanolimits.h"
#include "nanostring.h"
typedef nanostl::string S;

static inline int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

// specification: lexicographic order of the characters taken as unsigned bytes, a proper prefix comes first
template <class A, class B>
static inline int lex(const A &a, u64 n, const B &b, u64 m) {
  u64 i = 0;
  while (i < n && i < m && a[i] == b[i]) i++;
  if (i == n || i == m) return n < m ? -1 : n > m ? 1 : 0;
  return (u8)a[i] < (u8)b[i] ? -1 : 1;
}

CONTRACT(C05_compare, (S &a, S &b)) {
  int want = lex(a, a.size(), b, b.size());
  ENSURES("compare() orders strings lexicographically by unsigned characters", sgn(a.compare(b)) == want);
}
CONTRACT(C05_compare_self, (S &a)) {
  ENSURES("a string equals itself", a.compare(a) == 0 && a == a && !(a != a) && !(a < a) && !(a > a));
}
CONTRACT(C05_eq, (S &a, S &b)) {
  int want = lex(a, a.size(), b, b.size());
  ENSURES("== holds exactly for equal length and equal characters", (a == b) == (want == 0));
}
CONTRACT(C05_ne, (S &a, S &b)) {
  int want = lex(a, a.size(), b, b.size());
  ENSURES("!= is the negation of ==", (a != b) == (want != 0));
}
CONTRACT(C05_lt, (S &a, S &b)) {
  int want = lex(a, a.size(), b, b.size());
  ENSURES("< is the lexicographic order", (a < b) == (want < 0));
}
CONTRACT(C05_gt, (S &a, S &b)) {
  int want = lex(a, a.size(), b, b.size());
  ENSURES("> is the reverse order", (a > b) == (want > 0));
}
CONTRACT(C05_antisymmetric, (S &a, S &b)) {
  ENSURES("comparing the other way round gives the opposite sign", sgn(a.compare(b)) == -sgn(b.compare(a)));
}
CONTRACT_THOROUGH(C05_transitive, (S &a, S &b, S &c)) {
  REQUIRES(a.compare(b) <= 0);
  REQUIRES(b.compare(c) <= 0);
  ENSURES("the order is transitive", a.compare(c) <= 0);
}
CONTRACT(C05_equal_all, (S &a, S &b, u64 k)) {
  REQUIRES(a == b);
  ENSURES("equal strings have equal lengths", a.size() == b.size());
  if (k < a.size()) ENSURES("equal strings have equal characters", a[k] == b[k]);
}
CONTRACT(C05_readonly, (S &a, S &b, u64 k)) {
  u64 n = a.size();
  REQUIRES(k < n);
  char x = a[k];
  a.compare(b);
  ENSURES("comparing changes nothing", a.size() == n && a[k] == x);
}
CONTRACT(C05_cstr_compare, (S &a, CStr &c)) {
  int want = lex(a, a.size(), c.p, c.n);
  ENSURES("compare(const char*) compares with the string the pointer denotes", sgn(a.compare(c.p)) == want);
}
CONTRACT(C05_cstr_eq, (S &a, CStr &c)) {
  int want = lex(a, a.size(), c.p, c.n);
  ENSURES("== with a C string", (a == c.p) == (want == 0));
}
CONTRACT(C05_cstr_ne, (S &a, CStr &c)) {
  int want = lex(a, a.size(), c.p, c.n);
  ENSURES("!= with a C string", (a != c.p) == (want != 0));
}
CONTRACT(C05_cstr_lt, (S &a, CStr &c)) {
  int want = lex(a, a.size(), c.p, c.n);
  ENSURES("< with a C string", (a < c.p) == (want < 0));
}
CONTRACT(C05_cstr_gt, (S &a, CStr &c)) {
  int want = lex(a, a.size(), c.p, c.n);
  ENSURES("> with a C string", (a > c.p) == (want > 0));
}
