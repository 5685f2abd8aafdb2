// Native run time of the vp_* interface: replays one counterexample on the compiled code.
// Ranks are threads of which exactly one runs at a time (a baton is passed at blocking points).
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
#include <stdint.h>
#include "vp.h"
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#define MAXR 64
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void __real_exit(int);
void *__real__Znwm(size_t); void *__real__Znam(size_t); void __real__ZdlPv(void *); void __real__ZdaPv(void *); void __real__ZdlPvm(void *, size_t); void __real__ZdaPvm(void *, size_t);
}
// ---- inputs
struct Key { char name[96]; long *v; int n, pos; };
static Key keys[4000]; static int nkeys;
struct Par { char name[64]; long v; }; static Par pars[200]; static int npars;
static double reals[100000]; static int started;
static void die(const char *kind, const char *msg) { fflush(stdout); fprintf(stderr, "REPLAY-%s %s\n", kind, msg); fflush(stderr); _exit(!strcmp(kind, "VIOLATION") ? 1 : 3); }
// ---- scheduler
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn = -1, nr; static __thread int self = -1; static int isdone[MAXR], isblk[MAXR], islazy[MAXR], isexit[MAXR], halted; static long progress;
static void (*gfn)(int, void *); static void *garg; static long idle;
static void waitTurn(int who) { while (turn != who) pthread_cond_wait(&cv, &mu); }
// hand the baton to the next rank that may run; -1 when all are done
static void pass() {
  int from = turn;
  if (idle <= 2 * nr + 2) for (int k = 1; k <= nr; k++) { int i = (from + k) % nr; if (!isdone[i] && !(isblk[i] && islazy[i])) { turn = i; pthread_cond_broadcast(&cv); return; } }
  for (int k = 1; k <= nr; k++) { int i = (from + k) % nr; if (!isdone[i]) { turn = i; pthread_cond_broadcast(&cv); return; } }
  turn = -1; pthread_cond_broadcast(&cv);
}
static void endRank() { isdone[self] = 1; idle = 0; pass(); pthread_mutex_unlock(&mu); }
static void *rankMain(void *a) { self = (int)(intptr_t)a; pthread_mutex_lock(&mu); waitTurn(self); gfn(self, garg); endRank(); return 0; }
extern "C" {
void vp_run_ranks(int P, void (*fn)(int, void *), void *arg) {
  nr = P; gfn = fn; garg = arg; idle = 0; pthread_t t[MAXR]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
  pthread_mutex_lock(&mu); turn = -2;
  for (int i = 0; i < P; i++) { isdone[i] = isblk[i] = islazy[i] = 0; pthread_create(&t[i], &at, rankMain, (void *)(intptr_t)i); }
  turn = 0; pthread_cond_broadcast(&cv); waitTurn(-1); pthread_mutex_unlock(&mu);
  for (int i = 0; i < P; i++) pthread_join(t[i], 0);
}
// idle counts consecutive failed attempts; lazy blocks are woken only when every other rank is stuck
static int allLazyOrStuck() { return idle > 2 * nr + 2; }
void vp_block(int (*cond)(void *), void *arg, int lazy) {
  if (lazy) {
    isblk[self] = 1; islazy[self] = 1;
    // let everybody else run as far as possible
    int me_ = self; idle = 0;
    for (;;) {
      int others = 0; for (int i = 0; i < nr; i++) if (i != me_ && !isdone[i] && !(isblk[i] && islazy[i])) others = 1;
      if (!others || allLazyOrStuck()) break;
      pass(); waitTurn(me_);
    }
    islazy[me_] = 0; isblk[me_] = 0;
  }
  long tries = 0;
  while (!cond(arg)) {
    if (halted) { endRank(); pthread_exit(0); }
    isblk[self] = 1; idle++; if (++tries > 4000) die("VIOLATION", "deadlock: a process waits forever");
    pass(); waitTurn(self);
  }
  isblk[self] = 0; idle = 0;
  if (halted) { endRank(); pthread_exit(0); }
}
int vp_rank(void) { return self; }
int vp_symbolic(void) { return 0; }
int vp_exited(int r) { return isexit[r]; }
void vp_kill(void) { isexit[self] = 1; endRank(); pthread_exit(0); }
void vp_halt(void) { halted = 1; if (self < 0) __real_exit(0); endRank(); pthread_exit(0); }
void vp_stop(void) { if (self < 0) { fflush(stdout); _exit(0); } endRank(); pthread_exit(0); }
int vp_halted(void) { return halted; }
void __wrap_exit(int rc) { if (self < 0) __real_exit(rc); isexit[self] = rc ? 1 : 2; endRank(); pthread_exit(0); }
void __wrap_abort(void) { die("VIOLATION", "abort() called"); }
static long *next(const char *name) {
  char b[96]; snprintf(b, sizeof b, "%s@%d", name, self);
  for (int i = 0; i < nkeys; i++) if (!strcmp(keys[i].name, b)) { if (keys[i].pos < keys[i].n) return &keys[i].v[keys[i].pos++]; return 0; }
  return 0;
}
int vp_sym_int(const char *name, int lo, int hi) { long *v = next(name); if (!v) return lo; return (int)*v; }
int vp_choice(const char *name, int lo, int hi) { long *v = next(name); if (v) return (int)*v; for (int i = 0; i < npars; i++) if (!strcmp(pars[i].name, name)) return (int)pars[i].v; return lo; }
int vp_split(int x) { return x; }
void vp_branch_split(int) {}
void vp_assume(int c) { if (!c) die("ASSUME", "an assumption does not hold in this run"); }
void vp_assert(int c, const char *m) { if (!c) die("VIOLATION", m); }
void vp_cover(int, const char *) {}
int vp_param(const char *name, int d) { for (int i = 0; i < npars; i++) if (!strcmp(pars[i].name, name)) return (int)pars[i].v; return d; }
int vp_uid(int cls) { static int n[16]; return ++n[cls]; }
static const double TK = 64, TB = 17;
double vp_tok(int code) { return code * TK + TB; }
int vp_tok_code(double x) { double c = (x - TB) / TK; if (!(fabs(c) < 1e7) || floor(c) != c) return -1000; return (int)c; }
int vp_pair_code(double re, double im, int B) { double s = (im - re) / (TK * B); if (!(fabs(s) > 1e-30 && fabs(s) < 1e30)) return -1000; double c = (re / s - TB) / TK, r = rint(c); if (!(fabs(c) < 1e6) || fabs(c - r) > 0.02) return -1000; return (int)r; }
double vp_pair_scale(double re, double im, int B) { return (im - re) / (TK * B); }
double vp_tok_mul(int code, double s) { return (code * TK + TB) * s; }
int vp_scale_is(double s, double want) { return fabs(s - want) <= 1e-5 * fabs(want); }
double vp_real(int i) { return i < 100000 ? reals[i] : 0; }
void vp_assert_close(double a, double b, double eps, const char *m) { if (!(fabs(a - b) <= eps)) die("VIOLATION", m); }
double vp_fresh_time(int lo, int hi) { long *v = next("time"); return v ? (double)*v : (double)lo; }
void vp_debug(const char *s, int v) { fprintf(stderr, "DEBUG %s rank %d value %d\n", s, self, v); }
// ---- memory accounting
struct Blk { void *p; size_t n; int rank, mine; };
static Blk *blks; static int nblk, cblk;
static void note(void *p, size_t n, int mine) {
  if (!p) return;
  for (int i = 0; i < nblk; i++) if (!blks[i].p) { blks[i].p = p; blks[i].n = n; blks[i].rank = self; blks[i].mine = mine; return; }
  if (nblk == cblk) { cblk = cblk ? 2 * cblk : 4096; blks = (Blk *)__real_realloc(blks, cblk * sizeof(Blk)); }
  blks[nblk].p = p; blks[nblk].n = n; blks[nblk].rank = self; blks[nblk].mine = mine; nblk++;
}
static size_t forget(void *p) { if (!p) return 0; for (int i = nblk - 1; i >= 0; i--) if (blks[i].p == p) { blks[i].p = 0; return blks[i].n; } return 0; }
static void fill(void *p, size_t n) {
#if !__has_feature(memory_sanitizer)
  if (p) memset(p, 0xD4, n);
#endif
}
void *vp_malloc(size_t n) { void *p = __real_malloc(n ? n : 1); fill(p, n); note(p, n, 0); return p; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (started) { fill(p, n); note(p, n, 1); } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (started) note(p, a * b, 1); return p; }
void *__wrap_realloc(void *q, size_t n) { size_t o = forget(q); void *p = __real_realloc(q, n); if (started) { if (p && n > o) fill((char *)p + o, n - o); note(p, n, 1); } return p; }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r && started) { fill(*p, n); note(*p, n, 1); } return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (started) { fill(p, n); note(p, n, 1); } return p; }
void __wrap_free(void *p) { forget(p); __real_free(p); }
void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); if (started) { fill(p, n); note(p, n, 1); } return p; }
void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); if (started) { fill(p, n); note(p, n, 1); } return p; }
void __wrap__ZdlPv(void *p) { forget(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { forget(p); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { forget(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { forget(p); __real__ZdaPvm(p, n); }
int64_t vp_live_bytes(int r) { int64_t s = 0; for (int i = 0; i < nblk; i++) if (blks[i].p && blks[i].rank == r && blks[i].mine) s += blks[i].n; return s; }
int vp_live_blocks(int r) { int s = 0; for (int i = 0; i < nblk; i++) if (blks[i].p && blks[i].rank == r && blks[i].mine) s++; return s; }
int vp_alive(void *p, int64_t n) { for (int i = 0; i < nblk; i++) if (blks[i].p && (char *)p >= (char *)blks[i].p && (char *)p + n <= (char *)blks[i].p + blks[i].n) return 1; return 0; }
void vp_main(void);
}
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : 0; static char line[1 << 20];
  while (f && fgets(line, sizeof line, f)) {
    char *tok = strtok(line, " \n"); if (!tok) continue;
    if (!strcmp(tok, "param")) { char *n = strtok(0, " \n"), *v = strtok(0, " \n"); snprintf(pars[npars].name, 64, "%s", n); pars[npars++].v = atol(v); }
    else if (!strcmp(tok, "real")) { char *n = strtok(0, " \n"), *v = strtok(0, " \n"); int i = atoi(n); if (i >= 0 && i < 100000) reals[i] = atof(v); }
    else if (!strcmp(tok, "input")) { Key *k = &keys[nkeys++]; snprintf(k->name, 96, "%s", strtok(0, " \n")); k->v = (long *)__real_malloc(100000 * sizeof(long)); char *v; while ((v = strtok(0, " \n")) && k->n < 100000) k->v[k->n++] = atol(v); }
  }
  if (f) fclose(f);
  started = 1; vp_main(); fflush(stdout); fprintf(stderr, "REPLAY-OK\n"); _exit(0);
}
