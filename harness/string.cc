#include "vp.h"
#include "nanolimits.h"
#include "nanostring.h"
typedef nanostl::string S;

CONTRACT(C04_default, (u64 dummy)) {
  S s;
  ENSURES("a default-constructed string is empty", s.size() == 0 && s.length() == 0 && s.empty());
  ENSURES("c_str() of the empty string is \"\"", s.c_str()[0] == 0);
}

CONTRACT(C04_from_cstr, (CStr &c, u64 k)) {
  S s(c.p);
  ENSURES("a string made from a C string has its length", s.size() == c.n && s.length() == c.n);
  ENSURES("empty() says size()==0", s.empty() == (c.n == 0));
  if (k <= c.n) ENSURES("a string made from a C string has its characters and terminator", s.c_str()[k] == c.p[k]);
}

CONTRACT(C04_from_null, (u64 dummy)) {
  S s((const char *)0);
  ENSURES("a string made from a null pointer is empty", s.size() == 0 && s.c_str()[0] == 0);
}

CONTRACT(C04_from_count, (Arr<char> &a, u64 n, u64 k)) {
  REQUIRES(n <= a.n);
  S s(a.p, n);
  ENSURES("string(p, n) has n characters", s.size() == n && s.empty() == (n == 0));
  if (k < n) ENSURES("string(p, n) has those characters", s[k] == a.p[k]);
  ENSURES("string(p, n) is NUL-terminated", s.c_str()[n] == 0);
}

CONTRACT(C04_from_range, (Arr<char> &a, u64 i, u64 j, u64 k)) {
  REQUIRES(i <= j && j <= a.n);
  S s((const char *)a.p + i, (const char *)a.p + j);
  ENSURES("string(first, last) has last-first characters", s.size() == j - i);
  if (k < j - i) ENSURES("string(first, last) has those characters", s[k] == a.p[i + k]);
  ENSURES("string(first, last) is NUL-terminated", s.c_str()[j - i] == 0);
}

CONTRACT(C04_access, (S &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(k <= n);
  const S &cs = s;
  ENSURES("length() is size()", s.length() == n);
  ENSURES("empty() says size()==0", s.empty() == (n == 0));
  ENSURES("c_str() is NUL-terminated at size()", s.c_str()[n] == 0);
  ENSURES("operator[] designates character k of c_str()", &s[k] == s.c_str() + k && &cs[k] == s.c_str() + k);
  ENSURES("at designates character k of c_str()", &s.at(k) == s.c_str() + k && &cs.at(k) == s.c_str() + k);
}

CONTRACT(C04_write, (S &s, u64 k, u64 j, char x)) {
  u64 n = s.size();
  REQUIRES(k < n && j < n);
  char old = s[j];
  s[k] = x;
  ENSURES("writing a character changes that character only", s[j] == (j == k ? x : old));
  ENSURES("writing a character keeps the size and terminator", s.size() == n && s.c_str()[n] == 0);
}

CONTRACT(C04_clear, (S &s)) {
  s.clear();
  ENSURES("clear leaves the empty string", s.size() == 0 && s.empty() && s.c_str()[0] == 0);
}

CONTRACT(C04_copy, (S &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX && k <= n);
  char old = s[k];
  S d(s);
  ENSURES("a copy has the same length", d.size() == n && s.size() == n);
  ENSURES("a copy has the same characters", d[k] == old && s[k] == old);
  if (k < n) {
    d[k] = old ^ 1;
    ENSURES("a copy does not share storage", s[k] == old);
  }
}

CONTRACT(C04_copy_assign, (S &d, S &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX && k <= n);
  char old = s[k];
  S &r = (d = s);
  ENSURES("operator= returns the target", &r == &d);
  ENSURES("operator= takes the length", d.size() == n && s.size() == n);
  ENSURES("operator= copies the characters", d[k] == old && s[k] == old);
  if (k < n) {
    d[k] = old ^ 1;
    ENSURES("operator= does not share storage", s[k] == old);
  }
}

CONTRACT(C04_self_assign, (S &s, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX && k <= n);
  char old = s[k];
  S &r = s;
  s = r;
  ENSURES("self-assignment keeps the string", s.size() == n && s[k] == old);
}

CONTRACT(C04_append, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k <= n + m);
  char e = k < n ? a[k] : b[k - n];
  S &r = (a += b);
  ENSURES("operator+= returns the target", &r == &a);
  ENSURES("operator+= adds the lengths", a.size() == n + m && b.size() == m);
  ENSURES("operator+= appends the characters, NUL-terminated", a[k] == e);
}

CONTRACT(C04_append_keeps_source, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k <= m);
  char e = b[k];
  a += b;
  ENSURES("operator+= leaves the source alone", b.size() == m && b[k] == e);
}

CONTRACT(C04_append_self, (S &a, u64 k)) {
  u64 n = a.size();
  REQUIRES(n <= VP_MAX && k < n);
  char e = a[k];
  a += a;
  ENSURES("s += s doubles the length", a.size() == 2 * n);
  ENSURES("s += s repeats the characters", a[k] == e && a[n + k] == e);
  ENSURES("s += s is NUL-terminated", a.c_str()[2 * n] == 0);
}

CONTRACT(C04_concat, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k <= n + m);
  char e = k < n ? a[k] : b[k - n];
  S r = a + b;
  ENSURES("a + b adds the lengths", r.size() == n + m);
  ENSURES("a + b is a's characters followed by b's, NUL-terminated", r[k] == e);
  ENSURES("a + b leaves its operands' lengths alone", a.size() == n && b.size() == m);
  ENSURES("a + b leaves its operands' characters alone", k < n ? a[k] == e : b[k - n] == e);
}

CONTRACT(C04_concat_self, (S &a, u64 k)) {
  u64 n = a.size();
  REQUIRES(n <= VP_MAX && k < n);
  char e = a[k];
  S r = a + a;
  ENSURES("a + a doubles the length", r.size() == 2 * n && a.size() == n);
  ENSURES("a + a repeats the characters", r[k] == e && r[n + k] == e && a[k] == e);
}

CONTRACT(C04_erase, (S &s, u64 i, u64 k)) {
  u64 n = s.size();
  REQUIRES(n <= VP_MAX && i < n && k < n);
  char e = k < i ? s[k] : s[k + 1];
  char *r = s.erase(&s[0] + i);
  ENSURES("erase removes one character", s.size() == n - 1);
  ENSURES("erase keeps the other characters in order, NUL-terminated", s[k] == e);
  ENSURES("erase returns the position after the removed character", r == &s[0] + i);
}
