// C09: process grids and internal layouts that setup() derives, for any process count and grid
#include "common.h"
#include "fftstub.h"
#include "api.h"
struct Cfg { int P, n[3], permute, coll, exch, layout; Box in[VP_MAXP], out[VP_MAXP]; int np[VP_MAXP][4][3]; int done[VP_MAXP]; };
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; Box *bi = &c->in[me], *bo = &c->out[me];
  FFT *f = x_create(MPI_COMM_WORLD); x_options(f, c->coll, c->exch, 2, 0, 1); int fs = -1, ss = -1, rs = -1;
  x_setup(f, c->n, bi, bo, c->permute, fs, ss, rs);
#if DIM == 3
  int g[4][3] = {{f->npfast1, f->npfast2, f->npfast3}, {f->npmid1, f->npmid2, f->npmid3}, {f->npslow1, f->npslow2, f->npslow3}, {f->npbrick1, f->npbrick2, f->npbrick3}};
#else
  int g[4][3] = {{f->npfast1, f->npfast2, 1}, {f->npslow1, f->npslow2, 1}, {1, 1, c->P}, {f->npbrick1, f->npbrick2, 1}};
#endif
  for (int q = 0; q < 4; q++) {
    if (q == 3 && !c->exch) continue;
    vp_assert(g[q][0] >= 1 && g[q][1] >= 1 && g[q][2] >= 1 && g[q][0] <= c->P && g[q][1] <= c->P && g[q][2] <= c->P && g[q][0] * g[q][1] * g[q][2] == c->P, "a process grid does not multiply to the number of processes");
    for (int d = 0; d < 3; d++) c->np[me][q][d] = g[q][d];
  }
  vp_assert(g[0][0] == 1, "the fast axis is split in its pencil layout"); vp_assert(DIM == 3 ? g[1][1] == 1 && g[2][2] == 1 : g[1][1] == 1, "an axis is split in its pencil layout");
  vp_assert(fs >= box_vol(bi) && fs >= box_vol(bo) && ss >= 0 && rs >= 0, "sizes reported by setup");
  c->done[me] = 1;
  x_destroy(f);
}
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); int pmin = vp_param("PMIN", 1), pmax = vp_param("PMAX", 8); c->P = pmin == pmax ? pmin : vp_choice("nprocs", pmin, pmax); vpm_init(c->P); vp_mpi.anymode = 1;
  const char *nm[3] = {"NX", "NY", "NZ"}; c->n[2] = 1; int64_t N = 1;
  for (int d = 0; d < DIM; d++) {
    int v = vp_param(nm[d], 0);
    if (v <= 0) { // any supported length NMIN..NMAX
      int lo = vp_param("NMIN", 2), hi = vp_param("NMAX", 6); v = vp_sym_int("n", lo, hi); int ok = 0;
      for (long x = 1; x <= hi; x *= 2) for (long y = x; y <= hi; y *= 3) for (long z = y; z <= hi; z *= 5) if (z >= lo) ok = ok | (v == (int)z);
      vp_assume(ok); v = vp_split(v);
    }
    c->n[d] = v; N *= v; vp_fft.n[d] = v;
  }
  c->permute = vp_choice("permute", 0, DIM - 1); c->exch = vp_choice("exchange", 0, 1); c->coll = vp_param("COLL", 2); c->layout = vp_param("LAYOUT", -1); if (c->layout < 0) c->layout = vp_choice("layout", 0, DIM);
  for (int p = 0; p < c->P; p++) { c->done[p] = 0; for (int q = 0; q < 2; q++) { Box *b = q ? &c->out[p] : &c->in[p];
    if (c->layout == DIM) { int owner = q ? c->P - 1 : 0; for (int d = 0; d < 3; d++) { b->lo[d] = 0; b->hi[d] = c->n[d] - 1; if (p != owner) { b->lo[d] = d < DIM ? c->n[d] : 0; } } if (p != owner && DIM == 2) b->hi[2] = 0; }
    else { int a = (c->layout + q) % DIM; for (int d = 0; d < 3; d++) { b->lo[d] = 0; b->hi[d] = c->n[d] - 1; } b->lo[a] = (int)((int64_t)p * c->n[a] / c->P); b->hi[a] = (int)((int64_t)(p + 1) * c->n[a] / c->P - 1); }
  } }
  run_valid(c->P, run_rank, c);
  for (int p = 0; p < c->P; p++) { vp_assert(c->done[p], "setup fails on a valid grid"); for (int q = 0; q < (c->exch ? 4 : 3); q++) for (int d = 0; d < 3; d++) vp_assert(c->np[p][q][d] == c->np[0][q][d], "processes disagree on a process grid"); }
  // the 1d transforms planned: for each length and direction, together exactly the lines of the grid along the axes of that length
  for (int dir = 1; dir <= 2; dir++) for (int d = 0; d < DIM; d++) {
    int64_t got = 0, axes = 0; for (int e = 0; e < DIM; e++) if (c->n[e] == c->n[d]) axes++;
    for (int p = 0; p < c->P; p++) for (int q = 0; q < vp_fft.npl[p]; q++) if (vp_fft.pn[p][q] == c->n[d] && vp_fft.pdir[p][q] == dir) got += (int64_t)vp_fft.ph[p][q] * c->n[d];
    vp_assert(got == axes * N, "the internal layouts do not tile the grid");
  }
  for (int p = 0; p < c->P; p++) for (int q = 0; q < vp_fft.npl[p]; q++) { int any = 0; for (int d = 0; d < DIM; d++) any = any | (vp_fft.pn[p][q] == c->n[d]); vp_assert(any, "a 1d transform of a length that is no grid dimension"); }
  vp_cover(1, "setup succeeded");
}
