#include "vp.h"
#include "nanomath.h"
namespace N = nanostl;

static inline u32 bits(float x) { u32 u; __builtin_memcpy(&u, &x, 4); return u; }
static inline float flt(u32 u) { float f; __builtin_memcpy(&f, &u, 4); return f; }
static const float INF = __builtin_inff();
static const float MINN = 1.17549435e-38f, MAXF = 3.40282347e+38f;

// r is within tol (relative to the exact value where that is greater than 1, absolute below) of the exact value
static inline bool near(double r, double ref, double tol) {
  double m = ref < 0 ? -ref : ref;
  if (m < 1) m = 1;
  double e = r - ref;
  return e <= tol * m && e >= -tol * m;
}
// relative error
static inline bool rel(double r, double ref, double tol) {
  double m = ref < 0 ? -ref : ref, e = r - ref;
  return e <= tol * m && e >= -tol * m;
}

CONTRACT(C13_sqrt, (float x)) {
  INTERVALS();
  float r = N::sqrt(x);
  if (x == 0) ENSURES("sqrt of a zero is that zero", bits(r) == bits(x));
  else if (x == INF) ENSURES("sqrt of infinity is infinity", r == INF);
  else if (x < 0) ENSURES("sqrt of a negative number is NaN", r != r);
  else if (x != x) ENSURES("sqrt of NaN is NaN", r != r);
  else {
    ENSURES("sqrt of a positive number is positive and finite", r > 0 && r <= MAXF);
    if (x == 1) ENSURES("sqrt(1) is 1", r == 1);
    if (x >= MINN) ENSURES("sqrt is accurate to 0.2 %", rel(r, __vp_ref_sqrt(x), 0.002));
  }
}
CONTRACT(C13_exp, (float x)) {
  INTERVALS();
  float r = N::exp(x);
  ENSURES("exp is positive and finite for every argument", r > 0 && r <= MAXF);
  if (x == 0) ENSURES("exp(0) is 1", r == 1);
  if (x >= -87.33f && x <= 87.33f) ENSURES("exp is accurate to 3e-5 within its range", rel(r, __vp_ref_exp(x), 3e-5));
  if (x > 87.33f) ENSURES("exp saturates above its range", r >= 8e37f);
  if (x < -87.33f) ENSURES("exp saturates below its range", r <= 1.2e-38f);
}
CONTRACT(C13_log, (float x)) {
  INTERVALS();
  float r = N::log(x);
  if (x == 0) ENSURES("log of a zero is -infinity", r == -INF);
  else if (x < 0 || x != x) ENSURES("log of a negative number or NaN is NaN", r != r);
  else if (x == INF) ENSURES("log of infinity is infinity", r == INF);
  else if (x == 1) ENSURES("log(1) is +0", bits(r) == 0);
  else if (x >= MINN) ENSURES("log is accurate to 2e-6", near(r, __vp_ref_log(x), 2e-6));
  else ENSURES("log of a subnormal is at most that of the smallest normal number", r <= -87.3f && r >= -INF);
}
CONTRACT(C13_log10, (float x)) {
  INTERVALS();
  float r = N::log10(x);
  if (x == 0) ENSURES("log10 of a zero is -infinity", r == -INF);
  else if (x < 0 || x != x) ENSURES("log10 of a negative number or NaN is NaN", r != r);
  else if (x == INF) ENSURES("log10 of infinity is infinity", r == INF);
  else if (x == 1) ENSURES("log10(1) is +0", bits(r) == 0);
  else if (x >= MINN) ENSURES("log10 is accurate to 1e-6", near(r, __vp_ref_log10(x), 1e-6));
  else ENSURES("log10 of a subnormal is at most that of the smallest normal number", r <= -37.9f && r >= -INF);
}
CONTRACT(C13_sin, (float x)) {
  INTERVALS();
  float r = N::sin(x);
  if (x == x) ENSURES("sin is between -1 and 1", r >= -1 && r <= 1);
  if (x >= -8192.f && x <= 8192.f) ENSURES("sin is accurate to 1e-6 up to 8192", near(r, __vp_ref_sin(x), 1e-6));
  else if (x >= -262000.f && x <= 262000.f) ENSURES("sin is accurate to 1e-5 up to 262000", near(r, __vp_ref_sin(x), 1e-5));
}
CONTRACT(C13_cos, (float x)) {
  INTERVALS();
  float r = N::cos(x);
  if (x == x) ENSURES("cos is between -1 and 1", r >= -1 && r <= 1);
  if (x >= -8192.f && x <= 8192.f) ENSURES("cos is accurate to 1e-6 up to 8192", near(r, __vp_ref_cos(x), 1e-6));
  else if (x >= -262000.f && x <= 262000.f) ENSURES("cos is accurate to 1e-5 up to 262000", near(r, __vp_ref_cos(x), 1e-5));
}
CONTRACT(C13_tan, (float x)) {
  INTERVALS();
  float r = N::tan(x);
  if (x >= -8192.f && x <= 8192.f) ENSURES("tan is accurate to 1e-6 up to 8192", near(r, __vp_ref_tan(x), 1e-6));
  if (x == 0) ENSURES("tan(0) is 0", r == 0);
}
CONTRACT(C13_sinh, (float x)) {
  INTERVALS();
  float r = N::sinh(x);
  if (x == x) ENSURES("sinh is finite for every number", r >= -MAXF && r <= MAXF);
  if (x == x) ENSURES("sinh has the sign of its argument", (bits(r) >> 31) == (bits(x) >> 31));
  if (x >= -87.33f && x <= 87.33f) ENSURES("sinh is accurate to 2e-5 within its range", near(r, __vp_ref_sinh(x), 2e-5));
}
CONTRACT(C13_cosh, (float x)) {
  INTERVALS();
  float r = N::cosh(x);
  ENSURES("cosh is positive and finite for every argument", r > 0 && r <= MAXF);
  if (x >= -87.33f && x <= 87.33f) ENSURES("cosh is accurate to 2e-5 within its range", near(r, __vp_ref_cosh(x), 2e-5));
}
CONTRACT(C13_tanh, (float x)) {
  INTERVALS();
  float r = N::tanh(x);
  if (x == x) {
    ENSURES("tanh is between -1 and 1", r >= -1 && r <= 1);
    ENSURES("tanh has the sign of its argument", (bits(r) >> 31) == (bits(x) >> 31));
    ENSURES("tanh is accurate to 4e-6", near(r, __vp_ref_tanh(x), 4e-6));
  }
}
CONTRACT(C13_erf, (float x)) {
  INTERVALS();
  float r = N::erf(x);
  if (x == x) {
    ENSURES("erf is between -1 and 1", r >= -1 && r <= 1);
    ENSURES("erf has the sign of its argument", (bits(r) >> 31) == (bits(x) >> 31));
    ENSURES("erf is accurate to 2.5e-6", near(r, __vp_ref_erf(x), 2.5e-6));
  } else ENSURES("erf of NaN is NaN", r != r);
}
CONTRACT(C13_erfc, (float x)) {
  INTERVALS();
  float r = N::erfc(x);
  if (x == x) {
    ENSURES("erfc is between 0 and 2", r >= 0 && r <= 2);
    ENSURES("erfc is accurate to 2.5e-6", near(r, __vp_ref_erfc(x), 2.5e-6));
  } else ENSURES("erfc of NaN is NaN", r != r);
}
CONTRACT(C13_ierf, (float x)) {
  INTERVALS();
  float r = N::ierf(x);
  if (x > -1 && x < 1) {
    ENSURES("erf of ierf is the argument up to 3e-5", near(__vp_ref_erf(r), x, 3e-5));
    ENSURES("ierf has the sign of its argument", x < 0 ? r <= 0 : r >= 0);
  }
}
CONTRACT(C13_cbrt, (float x)) {
  INTERVALS();
  float r = N::cbrt(x);
  if (x == 0) ENSURES("cbrt of a zero is that zero", bits(r) == bits(x));
  else if (x >= -MAXF && x <= MAXF) {
    ENSURES("cbrt has the sign of its argument", (bits(r) >> 31) == (bits(x) >> 31));
    if (x >= MINN || x <= -MINN) ENSURES("cbrt is accurate to 2e-6", rel(r, __vp_ref_cbrt(x), 2e-6));
    else ENSURES("cbrt of a subnormal is below that of any normal number", r <= 2.3e-13f && r >= -2.3e-13f);
  }
}

// base and exponent
CONTRACT(C13_pow_zeroth, (float x)) {
  INTERVALS();
  ENSURES("x to the 0th is 1", N::pow(x, 0.0f) == 1 && N::pow(x, -0.0f) == 1);
}
CONTRACT(C13_pow_first, (float x)) {
  INTERVALS();
  float r = N::pow(x, 1.0f);
  if (x == x) ENSURES("x to the 1st is x", r == x);
}
CONTRACT(C13_pow_second, (float x)) {
  INTERVALS();
  float r = N::pow(x, 2.0f), e = x * x;
  if (x == x) ENSURES("x squared is exact, at most the greatest number", r == (e <= MAXF ? e : MAXF));
}
CONTRACT(C13_pow_of_zero, (float y)) {
  INTERVALS();
  if (!(y == 0)) ENSURES("0 to a power other than 0 is 0", N::pow(0.0f, y) == 0 && N::pow(-0.0f, y) == 0);
}
CONTRACT(C13_pow_positive, (float x, float y)) {
  INTERVALS();
  REQUIRES(x > 0 && x <= MAXF && y >= -MAXF && y <= MAXF && y != 1 && y != 2);
  float r = N::pow(x, y);
  ENSURES("powers of a positive number are positive and finite", r > 0 && r <= MAXF);
}
CONTRACT(C13_pow_negative, (float x, float y)) {
  INTERVALS();
  REQUIRES(x < 0 && x >= -MAXF && y >= -MAXF && y <= MAXF && y != 1 && y != 2);
  float r = N::pow(x, y);
  ENSURES("powers of a negative number are finite", r >= -MAXF && r <= MAXF);
}
static inline void parity(float x, int k) {
  REQUIRES(x < 0 && x >= -MAXF);
  float r = N::pow(x, (float)k);
  if (k & 1) ENSURES("odd powers of a negative number are negative", r < 0);
  else ENSURES("even powers of a negative number are not negative", r >= 0);
}
CONTRACT(C13_pow_parity, (float x, int k)) {
  INTERVALS();
  REQUIRES(k >= -20000 && k <= 20000);
  parity(x, k);
}
// up to the last number that has odd neighbours
CONTRACT(C13_pow_parity_top, (float x, u8 d)) {
  INTERVALS();
  int k = 16777216 - d;
  parity(x, k);
}
CONTRACT(C13_pow_parity_bottom, (float x, u8 d)) {
  INTERVALS();
  int k = d - (8388608 + 128);
  parity(x, k);
}
CONTRACT(C13_pow_fraction, (float x, int k)) {
  INTERVALS();
  REQUIRES(x < 0 && x >= -MAXF && k >= -20000 && k <= 20000);
  ENSURES("a negative number to a power that is not integral is 0", N::pow(x, (float)k + 0.5f) == 0);
}
template <int P, int Q>
static inline void power(float x) {
  INTERVALS();
  const double y = (double)P / Q;
  REQUIRES(x >= MINN && x <= MAXF);
  double e = y * __vp_ref_log(x);
  REQUIRES(e >= -87 && e <= 87);
  ENSURES("pow is accurate to 3e-5", rel(N::pow(x, (float)P / Q), __vp_ref_exp(e), 3e-5));
}
CONTRACT(C13_pow_half, (float x)) { power<1, 2>(x); }
CONTRACT(C13_pow_inverse, (float x)) { power<-1, 1>(x); }
CONTRACT(C13_pow_cube, (float x)) { power<3, 1>(x); }
CONTRACT(C13_pow_quarter, (float x)) { power<-9, 4>(x); }
CONTRACT(C13_pow_large, (float x)) { power<25, 1>(x); }
