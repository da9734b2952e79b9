/* Native counterpart of the symbolic primitives: replays one concrete counterexample. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <inttypes.h>
#include <complex.h>
typedef int INTx;
static FILE *f;
static int af_on, af_failed; static long af_count, af_target = -1; static long live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int failnow(void) { if (!af_on) return 0; long k = af_count++; if (k == af_target) { af_failed = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (n > 0x20000000UL || failnow()) return NULL; void *p = __real_malloc(n ? n : 1); if (p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if ((a && b > 0x20000000UL / a) || failnow()) return NULL; void *p = __real_calloc(a ? a : 1, b ? b : 1); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (failnow()) return NULL; void *p = __real_realloc(q, n); if (!q && p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
static void fail(const char *m) { printf("VF-FAIL: %s\n", m); fflush(stdout); _Exit(42); }
static char kind[32], name[256], val[64];
static void next(const char *k) {
  if (fscanf(f, "%31s %255s %63s", kind, name, val) != 3) { printf("VF-MISMATCH: out of inputs (%s)\n", k); fflush(stdout); _Exit(44); }
  if (strcmp(kind, k)) { printf("VF-MISMATCH: expected %s got %s %s\n", k, kind, name); fflush(stdout); _Exit(44); }
}
static double dval(void) { uint64_t u = strtoull(val, NULL, 16); double d; memcpy(&d, &u, 8); return d; }
int vf_choice(const char *n, int m) { (void)n; (void)m; next("choice"); return atoi(val); }
int vf_int(const char *n, int lo, int hi) { (void)n; (void)lo; (void)hi; next("int"); return (int)strtoul(val, NULL, 10); }
size_t vf_size(const char *n, size_t lo, size_t hi) { (void)n; (void)lo; (void)hi; next("int"); return strtoull(val, NULL, 10); }
double vf_double(const char *n, double lo, double hi) { (void)n; (void)lo; (void)hi; next("double"); return dval(); }
double vf_anydouble(const char *n) { (void)n; next("double"); return dval(); }
void vf_assume(int c) { if (!c) { printf("VF-ASSUME\n"); fflush(stdout); _Exit(43); } }
void vf_assert(int c, const char *m) { if (!c) fail(m); }
void vf_close(double a, double b, double tol, const char *m) {
  if (a == b || (isnan(a) && isnan(b) && 0)) return;
  double s = fmax(fabs(a), fabs(b)); double t = tol; if (s > 1 && tol > 0) t *= s;
  if (!(fabs(a - b) <= t)) { printf("VF-VALUES: %.17g vs %.17g\n", a, b); fail(m); } }
void vf_csqrt_hint(double a, double b) { (void)a; (void)b; }
void vf_hint(double a, double b) { (void)a; (void)b; }
void vf_allocfail(int on) { af_on = on; if (on) af_count = 0; }
int vf_alloc_failed(void) { return af_failed; }
long vf_heap_mark(void) { return live; }
void vf_leak(long m, const char *msg) { if (live > m) { printf("VF-VALUES: %ld objects leaked\n", live - m); fail(msg); } }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MS 1
#endif
#endif
void vf_init(const void *p, size_t n, const char *m) {
#ifdef MS
  if (n && __msan_test_shadow(p, n) >= 0) fail(m);
#else
  (void)p; (void)n; (void)m;
#endif
}
int vf_same(const void *p, const void *q, size_t n) { return memcmp(p, q, n) == 0; }
void vf_out(const char *n, double x) { uint64_t u; memcpy(&u, &x, 8); printf("VF-OUT %s %016" PRIx64 "\n", n, u); }
void vf_reach(const char *n) { (void)n; }
void vf_generic(int on) { (void)on; }
void vf_print(const char *n, double x) { printf("VF-PRINT %s %.17g\n", n, x); }
#ifndef VF_ENTRY
#define VF_ENTRY harness
#endif
void VF_ENTRY(void);
int main(int argc, char **argv) {
  if (argc < 2 || !(f = fopen(argv[1], "r"))) return 46;
  /* the failing allocation is listed in the file as "allocfail NAME INDEX" */
  { char k[32], nm[256], v[64]; FILE *g = fopen(argv[1], "r"), *h = tmpfile(); while (g && h && fscanf(g, "%31s %255s %63s", k, nm, v) == 3) { if (!strcmp(k, "allocfail")) af_target = atol(v); else fprintf(h, "%s %s %s\n", k, nm, v); } if (g) fclose(g); if (h) { rewind(h); fclose(f); f = h; } }
  live = 0;
  VF_ENTRY();
  printf("VF-DONE\n"); fflush(stdout); _Exit(0);
}
