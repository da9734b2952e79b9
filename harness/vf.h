/* Primitives shared by the symbolic engine (engine/fsym.cpp) and the native replay (vf_native.c). */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <complex.h>
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "fnft.h"
#define REAL_MODE 0
int vf_choice(const char *name, int n);                    /* arbitrary value 0..n-1, explored as separate paths */
int vf_int(const char *name, int lo, int hi);              /* symbolic int */
size_t vf_size(const char *name, size_t lo, size_t hi);    /* symbolic size */
double vf_double(const char *name, double lo, double hi);  /* symbolic double in [lo,hi] */
double vf_anydouble(const char *name);                     /* any double incl. NaN and infinities */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_close(double a, double b, double tol, const char *msg);
void vf_csqrt_hint(double re, double im);
void vf_hint(double re, double im);                        /* value a division, root or inverse function may have; used only if its defining equation is verified */
void vf_allocfail(int on);                                 /* from here on one allocation may fail */
int vf_alloc_failed(void);
long vf_heap_mark(void);
void vf_leak(long mark, const char *msg);
void vf_init(const void *p, size_t n, const char *msg);    /* the bytes have been written */
int vf_same(const void *p, const void *q, size_t n);
void vf_out(const char *name, double x);
void vf_reach(const char *name);
void vf_generic(int on);
void vf_print(const char *name, double x);
static inline double complex vf_cplx(const char *n, double lo, double hi) { double a = vf_double(n, lo, hi); double b = vf_double(n, lo, hi); double complex z; ((double *)&z)[0] = a; ((double *)&z)[1] = b; return z; }
static inline double complex vf_anycplx(const char *n) { double a = vf_anydouble(n); double b = vf_anydouble(n); double complex z; ((double *)&z)[0] = a; ((double *)&z)[1] = b; return z; }
static inline double complex vf_mk(double a, double b) { double complex z; ((double *)&z)[0] = a; ((double *)&z)[1] = b; return z; }
static inline void vf_cclose(double complex a, double complex b, double tol, const char *msg) { vf_close(creal(a), creal(b), tol, msg); vf_close(cimag(a), cimag(b), tol, msg); }
static inline void *vf_buf(size_t n) { void *p = malloc(n); if (!p) exit(45); return p; }
#endif
