// driver (included once at the end of each natively compiled contract file)
namespace vp {
long live_allocs = 0;
static void on_malloc(const volatile void *, size_t) { live_allocs++; }
static void on_free(const volatile void *p) { if (p) live_allocs--; }
static const std::vector<Spec> *current = 0;
static const char *curname = "";
static void print_input() {
  if (!current) return;
  printf("INPUT %s", curname);
  for (size_t i = 0; i < current->size(); i++) (*current)[i].print(stdout);
  printf("\n");
  fflush(stdout);
}
void fail(const char *what) {
  printf("FAILED %s\n", what);
  print_input();
  _exit(1);
}
static void death() { printf("FAILED sanitizer\n"); print_input(); }
static void on_alarm(int) { printf("FAILED hang: no answer within the time limit\n"); print_input(); _exit(1); }
}
extern "C" void vp_require(bool c) { if (!c) throw vp::Reject(); }
extern "C" void vp_ensure(bool c, const char *what) { if (!c) vp::fail(what); }
extern "C" {
double __vp_ref_sin(double x) { return __builtin_sin(x); }
double __vp_ref_cos(double x) { return __builtin_cos(x); }
double __vp_ref_tan(double x) { return __builtin_tan(x); }
double __vp_ref_exp(double x) { return __builtin_exp(x); }
double __vp_ref_log(double x) { return __builtin_log(x); }
double __vp_ref_log10(double x) { return __builtin_log10(x); }
double __vp_ref_erf(double x) { return __builtin_erf(x); }
double __vp_ref_erfc(double x) { return __builtin_erfc(x); }
double __vp_ref_sqrt(double x) { return __builtin_sqrt(x); }
double __vp_ref_cbrt(double x) { return __builtin_cbrt(x); }
double __vp_ref_sinh(double x) { return __builtin_sinh(x); }
double __vp_ref_cosh(double x) { return __builtin_cosh(x); }
double __vp_ref_tanh(double x) { return __builtin_tanh(x); }
}
int main(int argc, char **argv) {
  using namespace vp;
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  __sanitizer_set_death_callback(death);
  signal(SIGALRM, on_alarm);
  if (const char *d = getenv("VP_DICT")) {
    if (FILE *f = fopen(d, "r")) { unsigned long long x; while (fscanf(f, "%llu", &x) == 1) dict().push_back(x); fclose(f); }
  }
  if (argc >= 3 && !strcmp(argv[1], "run")) {
    for (Reg *r = Reg::head(); r; r = r->next)
      if (!strcmp(r->name, argv[2])) {
        curname = r->name;
        std::vector<Spec> s(r->fn->arity());
        if (argc - 3 != r->fn->arity()) { printf("ARITY\n"); return 2; }
        for (int i = 0; i + 3 < argc; i++) s[i].parse(argv[i + 3]);
        current = &s;
        alarm(60);
        try { r->fn->run(s); } catch (const Reject &) { printf("REJECTED precondition is false on this input\n"); return 77; }
        printf("OK\n");
        return 0;
      }
    return 2;
  }
  if (argc >= 5 && !strcmp(argv[1], "search")) {
    for (Reg *r = Reg::head(); r; r = r->next) {
      if (strcmp(r->name, argv[2])) continue;
      curname = r->name;
      Rng g;
      g.s = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 0x1234567;
      for (const char *q = r->name; *q; q++) g.s = g.s * 131 + *q;
      if (!g.s) g.s = 1;
      unsigned long long ok = 0, rej = 0;
      double lim = atof(argv[4]);
      unsigned long long maxit = argc > 5 ? strtoull(argv[5], 0, 10) : ~0ull;
      struct timespec t0, t1;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      std::vector<Spec> s;
      for (unsigned long long it = 0; it < maxit; it++) {
        r->fn->gen(g, s);
        current = &s;
        if (it % 256 == 0) alarm(30);
        try { r->fn->run(s); ok++; } catch (const Reject &) { rej++; }
        if (it % 64 == 0) {
          clock_gettime(CLOCK_MONOTONIC, &t1);
          if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > lim) break;
        }
      }
      printf("CLEAN %llu rejected %llu\n", ok, rej);
      return 0;
    }
    return 2;
  }
  if (argc >= 2 && !strcmp(argv[1], "list")) {
    for (Reg *r = Reg::head(); r; r = r->next) printf("%s\n", r->name);
    return 0;
  }
  return 2;
}
