// C13: set/get keywords of the C interface: every documented keyword reaches exactly its setting; unknown ones change nothing
#include <string.h>
#include "common.h"
#define API 1
#include "api.h"
#if DIM == 3
#include "remap3d.h"
#include "remap3d_wrap.h"
typedef Remap3d RemapT;
#define R_(x) remap3d_##x
#else
#include "remap2d.h"
#include "remap2d_wrap.h"
typedef Remap2d RemapT;
#define R_(x) remap2d_##x
#endif
static int same(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static void run_rank(int me, void *) {
  void *p = 0, *q = 0; W_(create)(MPI_COMM_WORLD, PREC, &p); FFT *f = (FFT *)p;
  vp_assert(p != 0, "create returns nothing");
  Box whole; Box *b0 = &whole; int n[3] = {4, 3, 2}; for (int d = 0; d < 3; d++) { whole.lo[d] = 0; whole.hi[d] = n[d] - 1; } int fs, ss, rs; if (vp_param("P", 1) > 1) { whole.lo[0] = me ? 2 : 0; whole.hi[0] = me ? 3 : 1; } x_setup(f, n, b0, b0, 0, fs, ss, rs);
  // set
  int *fld[6] = {&f->collective, &f->exchange, &f->packflag, &f->memoryflag, &f->scaled, &f->remaponly}; const char *key[6] = {"collective", "exchange", "pack", "memory", "scale", "remaponly"};
  static const char *bad[7] = {"", "collectiv", "collective ", "Pack", "packflag", "zzz", "memoryflag"};
  int was[6]; for (int i = 0; i < 6; i++) was[i] = *fld[i];
  for (int b = 0; b < 7; b++) { W_(set)(p, bad[b], vp_sym_int("ignored", -5, 5)); for (int i = 0; i < 6; i++) vp_assert(*fld[i] == was[i], "an unknown keyword changed a setting"); }
  for (int k = 0; k < 6; k++) {
    for (int i = 0; i < 6; i++) *fld[i] = was[i] = vp_sym_int("old", -1000000, 1000000);
    int v = vp_sym_int("value", -1000000, 1000000); W_(set)(p, key[k], v);
    for (int i = 0; i < 6; i++) vp_assert(*fld[i] == (i == k ? v : was[i]), i == k ? "set does not store the value" : "set changes another setting");
  }
  // get: every field holds an arbitrary value of its own
#if DIM == 3
  enum { NI = 17 }; int *gi[NI] = {&f->collective, &f->exchange, &f->packflag, &f->npfast1, &f->npfast2, &f->npfast3, &f->npmid1, &f->npmid2, &f->npmid3, &f->npslow1, &f->npslow2, &f->npslow3, &f->npbrick1, &f->npbrick2, &f->npbrick3, &f->ntrial, &f->npertrial};
  const char *gk[NI] = {"collective", "exchange", "pack", "npfast1", "npfast2", "npfast3", "npmid1", "npmid2", "npmid3", "npslow1", "npslow2", "npslow3", "npbrick1", "npbrick2", "npbrick3", "ntrial", "npertrial"};
  enum { ND = 7 }; double *gd[ND] = {f->tfft, f->t1d, f->tremap, f->tremap1, f->tremap2, f->tremap3, f->tremap4}; const char *dk[ND] = {"tfft", "t1d", "tremap", "tremap1", "tremap2", "tremap3", "tremap4"};
#else
  enum { NI = 11 }; int *gi[NI] = {&f->collective, &f->exchange, &f->packflag, &f->npfast1, &f->npfast2, &f->npslow1, &f->npslow2, &f->npbrick1, &f->npbrick2, &f->ntrial, &f->npertrial};
  const char *gk[NI] = {"collective", "exchange", "pack", "npfast1", "npfast2", "npslow1", "npslow2", "npbrick1", "npbrick2", "ntrial", "npertrial"};
  enum { ND = 6 }; double *gd[ND] = {f->tfft, f->t1d, f->tremap, f->tremap1, f->tremap2, f->tremap3}; const char *dk[ND] = {"tfft", "t1d", "tremap", "tremap1", "tremap2", "tremap3"};
#endif
  for (int i = 0; i < NI; i++) *gi[i] = was[0] = vp_sym_int("field", -1000000, 1000000);
  for (int i = 0; i < NI; i++) vp_assert(W_(get_int)(p, gk[i]) == *gi[i], "get_int returns another setting");
  vp_assert(W_(get_int)(p, "nosuchkey") == -1 && W_(get_int)(p, "") == -1, "get_int of an unknown keyword");
  f->memusage = (int64_t)vp_sym_int("memusage", 0, 2000000000) * 1000; vp_assert(W_(get_int64)(p, "memusage") == f->memusage, "get_int64 of memusage"); vp_assert(W_(get_int64)(p, "memory") == -1, "get_int64 of an unknown keyword");
  f->setuptime = vp_tok(5); vp_assert(vp_tok_code(W_(get_double)(p, "setuptime")) == 5, "get_double of setuptime"); vp_assert(W_(get_double)(p, "x") == -1.0, "get_double of an unknown keyword");
  int *vi[3] = {f->cflags, f->eflags, f->pflags}; const char *vk[3] = {"cflags", "eflags", "pflags"};
  for (int i = 0; i < 3; i++) { int len = -7; vp_assert(W_(get_int_vector)(p, vk[i], &len) == vi[i] && len == f->ntrial, "get_int_vector returns another vector or length"); }
  for (int i = 0; i < ND; i++) { int len = -7; vp_assert(W_(get_double_vector)(p, dk[i], &len) == gd[i] && len == f->ntrial, "get_double_vector returns another vector or length"); }
  int len = -7; vp_assert(W_(get_int_vector)(p, "tfft", &len) == 0 && W_(get_double_vector)(p, "cflags", &len) == 0, "a vector is returned for an unknown keyword");
  char *s = W_(get_string)(p, "precision", &len); vp_assert(s && same(s, PREC == 1 ? "single" : "double") && len == 6, "get_string of precision");
  len = -7; s = W_(get_string)(p, "fft1d", &len); vp_assert(s && s == f->fft1d && len == (int)strlen(f->fft1d), "get_string of fft1d"); vp_assert(W_(get_string)(p, "fft", &len) == 0, "get_string of an unknown keyword");
  f->memoryflag = 1; W_(destroy)(p);
  // Remap
  R_(create)(MPI_COMM_WORLD, &q); RemapT *r = (RemapT *)q; vp_assert(q != 0, "create returns nothing");
  int c0 = vp_sym_int("rc", 0, 1), p0 = vp_sym_int("rp", 0, 2), v = vp_sym_int("rv", -100, 100);
  r->collective = c0; r->packflag = p0; R_(set)(q, (char *)"collective", v); vp_assert(r->collective == v && r->packflag == p0, "Remap set of collective"); r->collective = c0; R_(set)(q, (char *)"pack", v); vp_assert(r->collective == c0 && r->packflag == v, "Remap set of pack");
  r->packflag = p0; R_(set)(q, (char *)"packs", v); R_(set)(q, (char *)"", v); vp_assert(r->collective == c0 && r->packflag == p0, "an unknown keyword changed a Remap setting");
  R_(destroy)(q);
  vp_assert(vp_live_blocks(me) == 0, "memory not released"); vp_assert(vpm_open_comms(me) == 0, "communicator not released");
}
extern "C" void vp_main(void) { int P = vp_param("P", 1); vpm_init(P); run_valid(P, run_rank, 0); vp_cover(1, "all keywords were used"); }
