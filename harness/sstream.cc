#include "vp.h"
#include "nanolimits.h"
#include "nanosstream.h"
typedef nanostl::string S;
typedef nanostl::stringstream SS;

// an arbitrary prior text is put in through str(), the only way a stream's whole history shows
CONTRACT(C18_default, (u64 dummy)) {
  SS ss;
  ENSURES("a new stringstream holds no text", ss.str().size() == 0 && ss.str().c_str()[0] == 0);
}
CONTRACT(C18_insert, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k <= n + m);
  char e = k < n ? a[k] : b[k - n];
  SS ss;
  ss.str() = a;
  SS &r = (ss << b);
  ENSURES("operator<< returns the stream", &r == &ss);
  ENSURES("operator<< adds the length of the string", ss.str().size() == n + m);
  ENSURES("operator<< appends the characters after those already there, NUL-terminated", ss.str()[k] == e);
  ENSURES("operator<< leaves its operand alone", b.size() == m && (k < n || b[k - n] == e));
}
CONTRACT(C18_chain, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k <= n + m);
  char e = k < n ? a[k] : b[k - n];
  SS ss;
  ss << a << b;
  ENSURES("chained insertions accumulate in order", ss.str().size() == n + m && ss.str()[k] == e);
}
CONTRACT(C18_clear, (S &a)) {
  REQUIRES(a.size() <= VP_MAX);
  SS ss;
  ss.str() = a;
  ss.clear();
  ENSURES("clear empties the stream", ss.str().size() == 0 && ss.str().c_str()[0] == 0);
}
CONTRACT(C18_clear_insert, (S &a, S &b, u64 k)) {
  u64 m = b.size();
  REQUIRES(a.size() <= VP_MAX && m <= VP_MAX && k <= m);
  char e = b[k];
  SS ss;
  ss.str() = a;
  ss.clear();
  ss << b;
  ENSURES("only what was streamed since the last clear is held", ss.str().size() == m && ss.str()[k] == e);
}
CONTRACT(C18_move, (S &a, S &b, u64 k)) {
  u64 n = a.size();
  REQUIRES(n <= VP_MAX && b.size() <= VP_MAX && k <= n);
  char e = a[k];
  SS x, y;
  x.str() = a;
  y.str() = b;
  SS &r = (y = static_cast<SS &&>(x));
  ENSURES("move assignment returns the target", &r == &y);
  ENSURES("move assignment transfers the text", y.str().size() == n && y.str()[k] == e);
  ENSURES("move assignment empties the source", x.str().size() == 0 && x.str().c_str()[0] == 0);
}
CONTRACT(C18_move_separate, (S &a, S &b, u64 k)) {
  u64 n = a.size(), m = b.size();
  REQUIRES(n <= VP_MAX && m <= VP_MAX && k < n);
  char e = a[k];
  SS x, y;
  x.str() = a;
  y = static_cast<SS &&>(x);
  x << b;
  ENSURES("the source of a move can be used again without touching the target", y.str().size() == n && y.str()[k] == e && x.str().size() == m);
}
CONTRACT(C18_insert_self, (S &a, u64 k)) {
  u64 n = a.size();
  REQUIRES(n <= VP_MAX && k < n);
  char e = a[k];
  SS ss;
  ss.str() = a;
  ss << ss.str();
  ENSURES("streaming a stream's own text doubles it", ss.str().size() == 2 * n && ss.str()[k] == e && ss.str()[n + k] == e && ss.str().c_str()[2 * n] == 0);
}
