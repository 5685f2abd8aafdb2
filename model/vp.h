/* Verification intrinsics: implemented symbolically by engine/, natively by native.cpp (replay). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int vp_sym_int(const char *name, int lo, int hi);   /* arbitrary value in [lo,hi] */
int vp_choice(const char *name, int lo, int hi);    /* like vp_sym_int, decided case by case */
int vp_split(int x);                                /* x, decided case by case over its feasible values */
void vp_branch_split(int on);                       /* this rank's symbolic branches are decided case by case from here on */
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_cover(int c, const char *msg);              /* must be reachable: vacuity guard */
int vp_param(const char *name, int dflt);           /* bound chosen by the driver */
int vp_rank(void);
int vp_symbolic(void);                              /* 1 in the engine, 0 in native replay */
void vp_run_ranks(int P, void (*fn)(int, void *), void *arg);
void vp_block(int (*cond)(void *), void *arg, int lazy);
int vp_uid(int cls);                                /* fresh number per class and call, from 1 */
int vp_exited(int rank);                            /* rank ended through exit(): 1, with status 0: 2 */
void vp_kill(void);
void vp_halt(void);                                 /* MPI_Abort */
int vp_halted(void);
void vp_stop(void);
double vp_tok(int code);                            /* opaque datum with identity code */
int vp_tok_code(double x);                          /* identity, or negative if x is not an untouched datum */
double vp_tok_mul(int code, double s);              /* the datum times a factor */
int vp_pair_code(double re, double im, int B);      /* complex datum with codes c and c+B: c, or negative */
double vp_pair_scale(double re, double im, int B);  /* and the factor both parts were multiplied by */
int vp_scale_is(double s, double want);
double vp_real(int i);                              /* i-th symbolic real in [-1,1] */
void vp_assert_close(double a, double b, double eps, const char *msg);
double vp_fresh_time(int lo, int hi);
int64_t vp_live_bytes(int rank);
int vp_live_blocks(int rank);
int vp_alive(void *p, int64_t n);
void *vp_malloc(size_t n);                          /* model memory, not counted as the library's */
void vp_debug(const char *s, int v);
#ifdef __cplusplus
}
#endif
#endif
