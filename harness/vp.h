// Specification primitives shared by the contract files.
//
// Every CONTRACT(name, (params)) { ... } in harness/*.cc is one verified contract of the public API in /repo/include:
// the parameters are universally quantified (an arbitrary well-formed object, an arbitrary array, an arbitrary number),
// REQUIRES is its precondition, the statements between call the real code, ENSURES is its postcondition.
//   VP_SYM     : compiled to LLVM IR for the deductive verifier (dv/)
//   otherwise  : compiled natively (ASan+UBSan) to replay a counterexample or evaluate the contract on concrete inputs
#ifndef VP_H_
#define VP_H_

typedef unsigned long long u64;
typedef unsigned int u32;
typedef unsigned char u8;
typedef long long i64;
typedef decltype(nullptr) nullptr_t;

// a contract that only the thorough tier decides (too slow for every change)
#define CONTRACT_THOROUGH CONTRACT

#ifdef VP_SYM
#define VP_MAX (1ull << 40)  // containers and arrays of up to 2^40 elements
#else
#define VP_MAX (1ull << 22)  // what a concrete evaluation can allocate
#endif

// the mathematical functions (dv/fbox.py bounds them; natively libm in double precision)
extern "C" {
double __vp_ref_sin(double); double __vp_ref_cos(double); double __vp_ref_tan(double); double __vp_ref_exp(double); double __vp_ref_log(double);
double __vp_ref_log10(double); double __vp_ref_erf(double); double __vp_ref_erfc(double); double __vp_ref_sqrt(double); double __vp_ref_cbrt(double);
double __vp_ref_sinh(double); double __vp_ref_cosh(double); double __vp_ref_tanh(double);
}

// an arbitrary array of n elements (never null)
template <class T>
struct Arr {
  T *p;
  u64 n;
};
// an arbitrary NUL-terminated string: p[n] == 0 and p[k] != 0 for k < n
struct CStr {
  const char *p;
  u64 n;
};

#ifdef VP_SYM
extern "C" void __vp_require(bool);
extern "C" void __vp_unroll(int);
#define UNROLL(n) __vp_unroll(n)
extern "C" void __vp_records(void);
#define RECORDS() __vp_records()
extern "C" void __vp_recurrences(void);
#define RECURRENCES() __vp_recurrences()
extern "C" void __vp_intervals(void);
#define INTERVALS() __vp_intervals()
extern "C" void __vp_ensure(bool, const char *);
#define REQUIRES(c) __vp_require(c)
#define ENSURES(n, c) __vp_ensure((c), n)
#define CONTRACT(name, params) void name params
typedef __SIZE_TYPE__ vp_size_t;
inline void *operator new(vp_size_t, void *p) noexcept { return p; }
#else
#define UNROLL(n) ((void)0)
#define RECORDS() ((void)0)
#define RECURRENCES() ((void)0)
#define INTERVALS() ((void)0)
extern "C" void vp_require(bool);
extern "C" void vp_ensure(bool, const char *);
#define REQUIRES(c) vp_require(c)
#define ENSURES(n, c) vp_ensure((c), n)
#define CONTRACT(name, params)                                      \
  void name params;                                                 \
  static vp::Reg reg_##name(#name, vp::wrap(&name)); \
  void name params
#include "vp_native.h"
#endif

#endif
