// C10: what setup() and tune() accept, and calls out of order
#include "common.h"
#include "fftstub.h"
#include "api.h"
#if DIM == 3
#include "remap3d.h"
typedef Remap3d RemapT;
#else
#include "remap2d.h"
typedef Remap2d RemapT;
#endif
struct Cfg { int P, n[3], permute, memory, mode, prec, flag, niter, tflag, nops, ops[6]; double tmax; Box in[VP_MAXP], out[VP_MAXP]; int reached[VP_MAXP], good[VP_MAXP], expect_ok; };
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)(n > 0 ? n : 1) * sizeof(FFT_SCALAR)); }
static void fillbuf(FFT_SCALAR *a, int n) { for (int i = 0; i < n; i++) fs_put(a + 2 * i, 2990); }

static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; Box *bi = &c->in[me], *bo = &c->out[me]; int fs = 0, ss = 0, rs = 0;
  if (c->mode == 4) { FFT *f = new FFT(MPI_COMM_WORLD, c->prec); c->reached[me] = 1; delete f; return; }
  if (c->mode == 5) { RemapT *r = new RemapT(MPI_COMM_WORLD); r->collective = c->flag; FFT_SCALAR *a = scalars(64); for (int i = 0; i < 64; i++) a[i] = 0; r->remap(a, a, 0, 0); c->reached[me] = 1; delete r; return; }
  FFT *f = new FFT(MPI_COMM_WORLD, PREC); f->memoryflag = c->memory; vp_fft.mode[me] = FS_ANY;
  if (c->mode <= 1) { f->setup(SIZES(c->n), TILES(bi, bo, 0), c->permute, fs, ss, rs); c->reached[me] = 1; delete f; return; }
  if (c->mode == 3) { f->tune(SIZES(c->n), TILES(bi, bo, 0), c->permute, fs, ss, rs, c->flag, c->niter, c->tmax, c->tflag); c->reached[me] = 1; delete f; return; }
  // mode 2: a sequence of calls; good[] counts those that returned
  FFT_SCALAR *a = scalars(2 * 128), *b = scalars(2 * 128); fillbuf(a, 128); fillbuf(b, 128); FFT_SCALAR *sb = scalars(512), *rb = scalars(512); for (int i = 0; i < 512; i++) sb[i] = rb[i] = 0;
  for (int o = 0; o < c->nops; o++) {
    int op = c->ops[o];
    if (op == 0) f->setup(SIZES(c->n), TILES(bi, bo, 0), c->permute, fs, ss, rs);
    else if (op == 1) f->setup_memory(sb, rb);
    else if (op == 2) f->compute(a, b, 1);
    else if (op == 3) f->only_1d_ffts(a, -1);
    else if (op == 4) f->only_remaps(a, a, -1);
    else if (op == 5) f->only_one_remap(a, a, 1, 1);
    else if (op == 6) f->tune(SIZES(c->n), TILES(bi, bo, 0), c->permute, fs, ss, rs, 1, 1, 0.0, 0);
    c->good[me]++;
  }
  c->reached[me] = 1; delete f; // may also be destroyed at any point
}
// products of 2, 3, 5 up to the bound
static int smooth(int n, int max) { int ok = 0; for (long a = 1; a <= max; a *= 2) for (long b = a; b <= max; b *= 3) for (long c = b; c <= max; c *= 5) ok = ok | (n == (int)c); return ok & (n >= 2); }
static int tile_ok(const Box *b, const int *n) { int ok = 1; for (int d = 0; d < DIM; d++) ok = ok & (b->lo[d] >= 0) & (b->hi[d] < n[d]) & (b->lo[d] <= b->hi[d] + 1); return ok; }
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); c->P = vp_param("P", 2); vpm_init(c->P); vp_mpi.anymode = 1; c->mode = vp_param("MODE", 1);
  c->n[0] = vp_param("NX", 2); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1; for (int d = 0; d < 3; d++) vp_fft.n[d] = c->n[d];
  c->permute = 0; c->memory = vp_param("MEM", 1); c->prec = PREC; c->flag = c->tflag = 0; c->niter = 1; c->tmax = 0; c->nops = 0;
  for (int p = 0; p < VP_MAXP; p++) c->reached[p] = c->good[p] = 0;
  int ok = 1, R = vp_param("RANGE", 1);
  for (int p = 0; p < c->P; p++) for (int d = 0; d < 3; d++) { c->in[p].lo[d] = 0; c->in[p].hi[d] = c->n[d] - 1; if (d == 0) { c->in[p].lo[0] = p * c->n[0] / c->P; c->in[p].hi[0] = (p + 1) * c->n[0] / c->P - 1; } }
  if (c->mode == 0) { // any grid dimensions
    int mx = vp_param("NMAX", 100), which = vp_choice("axis", 0, DIM); // one dimension arbitrary, or (which = DIM) all of them below 2
    for (int d = 0; d < DIM; d++) if (which == d || which == DIM) { c->n[d] = vp_sym_int("n", vp_param("NMIN", -5), mx); ok = ok & (which == DIM ? (c->n[d] >= 2) & smooth(c->n[d], 8) : smooth(c->n[d], mx)); if (which == DIM) vp_assume(c->n[d] <= 8); }
    ok = vp_split(ok);
    for (int p = 0; p < c->P; p++) for (int d = 0; d < DIM; d++) { c->in[p].lo[d] = p ? c->n[d] : 0; c->in[p].hi[d] = c->n[d] - 1; } // everything on process 0
    if (c->P > 1 && !ok) for (int p = 0; p < c->P; p++) for (int d = 0; d < DIM; d++) { c->in[p].lo[d] = 0; c->in[p].hi[d] = p ? -1 : c->n[d] - 1; }
    if (ok) for (int d = 0; d < DIM; d++) { c->n[d] = vp_split(c->n[d]); for (int p = 0; p < c->P; p++) { c->in[p].lo[d] = p ? c->n[d] : 0; c->in[p].hi[d] = c->n[d] - 1; } }
  } else if (c->mode == 1) { // any indices on every process
    int vol = 0;
    for (int p = 0; p < c->P; p++) {
      for (int d = 0; d < DIM; d++) { c->in[p].lo[d] = vp_sym_int("lo", -R, c->n[d] - 1 + R); c->in[p].hi[d] = vp_sym_int("hi", -1 - R, c->n[d] - 1 + R); }
      int t = tile_ok(&c->in[p], c->n); ok = ok & t; vol = vol + (t ? box_vol(&c->in[p]) : 0);
    }
    ok = ok & (vol == c->n[0] * c->n[1] * c->n[2]);
    int overlap = 0; for (int p = 0; p < c->P; p++) for (int q = 0; q < p; q++) { int x = 1; for (int d = 0; d < DIM; d++) x = x & (c->in[p].lo[d] <= c->in[q].hi[d]) & (c->in[q].lo[d] <= c->in[p].hi[d]) & (c->in[p].lo[d] <= c->in[p].hi[d]) & (c->in[q].lo[d] <= c->in[q].hi[d]); overlap = overlap | x; }
    vp_assume(!(ok & overlap)); // tiles that overlap although their sizes add up: not a tiling, left out
    ok = vp_split(ok);
    if (ok) for (int p = 0; p < c->P; p++) for (int d = 0; d < DIM; d++) { c->in[p].lo[d] = vp_split(c->in[p].lo[d]); c->in[p].hi[d] = vp_split(c->in[p].hi[d]); }
  } else if (c->mode == 2) {
    c->nops = vp_param("NOPS", 3); c->memory = vp_choice("memory", 0, 1); int set = 0, mem = 0; ok = 1;
    for (int o = 0; o < c->nops; o++) { int op = c->ops[o] = vp_choice("call", 0, 6), good;
      if (op == 1 && c->memory) { vp_assume(!set); } // user buffers although the library provides them: left out
      if (op == 0 || op == 6) { good = !set; set = 1; if (c->memory) mem = 1; }
      else if (op == 1) { good = set; mem = 1; }
      else if (op == 3) good = set;
      else good = set && mem;
      ok = ok && good; }
  } else if (c->mode == 3) {
    c->flag = vp_sym_int("flag", -1000, 1000); c->niter = vp_sym_int("niter", -1000, 2); c->tflag = vp_sym_int("tflag", -1000, 1000); int t = vp_sym_int("tmax", -3, 0); c->tmax = t;
    ok = vp_split((c->flag >= -1) & (c->flag <= 1) & (c->niter > 0) & (t >= 0) & ((c->tflag == 0) | (c->tflag == 1)));
    t = vp_split(t); c->tmax = t; if (ok) { c->flag = vp_split(c->flag); c->niter = vp_split(c->niter); c->tflag = vp_split(c->tflag); }
  } else if (c->mode == 4) { c->prec = vp_sym_int("precision", -1000000, 1000000); ok = vp_split(c->prec == PREC); }
  else { c->flag = vp_choice("collective", 0, 1); ok = 0; }
  for (int p = 0; p < c->P; p++) c->out[p] = c->in[p];
  vp_run_ranks(c->P, run_rank, c);
  for (int p = 0; p < c->P; p++) {
    if (ok) vp_assert(c->reached[p] == 1 && !vp_exited(p) && !vp_halted(), "valid use is rejected");
    else vp_assert(c->reached[p] == 0 && (vp_exited(p) == 1 || vp_halted()), "invalid use is not rejected on every process");
  }
  if (c->mode != 5) vp_cover(ok, "valid use"); vp_cover(!ok, "invalid use");
}
