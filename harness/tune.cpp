// C12: tune() with arbitrary clocks on every process
#include "common.h"
#include "fftstub.h"
#include "api.h"
#define NREMAP (DIM + 1)
struct Out { int coll, exch, pack, cb, eb, pb, nt, nper, cf[10], ef[10], pf[10]; double best, t[10]; int fs, ss, rs; };
struct Cfg { int P, n[3], permute, coll, exch, pack, memory, flag, niter, tflag; double tmax; Box in[VP_MAXP], out[VP_MAXP]; Out o[VP_MAXP]; };
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }
static int le(double a, double b) { return a <= b; }
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; Box *bi = &c->in[me], *bo = &c->out[me]; Out *o = &c->o[me];
  int64_t base = vp_live_bytes(me); int blocks0 = vp_live_blocks(me);
  FFT *f = x_create(MPI_COMM_WORLD); x_options(f, c->coll, c->exch, c->pack, c->memory, 1);
  vp_fft.mode[me] = FS_ANY; int fs = -1, ss = -1, rs = -1;
  vp_branch_split(1);
  x_tune(f, c->n, bi, bo, c->permute, fs, ss, rs, c->flag, c->niter, c->tmax, c->tflag);
  vp_branch_split(0);
  o->coll = f->collective; o->exch = f->exchange; o->pack = f->packflag; o->cb = f->cbest; o->eb = f->ebest; o->pb = f->pbest; o->nt = f->ntrial; o->nper = f->npertrial; o->best = f->besttime; o->fs = fs; o->ss = ss; o->rs = rs;
  int nt = f->ntrial; vp_assert(nt >= 1 && nt <= 9, "number of recorded trials");
  for (int i = 0; i < nt && i < 10; i++) { o->cf[i] = f->cflags[i]; o->ef[i] = f->eflags[i]; o->pf[i] = f->pflags[i]; o->t[i] = f->tfft[i]; }
  vp_assert(f->memoryflag == c->memory, "tune changed who provides the buffers");
  vp_assert(o->coll == o->cb && o->exch == o->eb && o->pack == o->pb, "the settings in effect are not the best settings reported");
  vp_assert(f->npertrial >= 1 && f->npertrial <= c->niter, "number of transforms per trial");
  // the trials made and the choice among them
  int nce = nt == 9 ? 6 : nt, any = 0, ok = 1;
  int one = nt == 1 || (nt == 2 && f->exchange == 0 && o->cf[1] == 2 && !(o->cf[0] == 1 && o->ef[0] == 0 && o->pf[0] == 2)); // only the initial settings and the defaults tried
  if (nt == 1) { ok = o->cb == c->coll && o->eb == c->exch && o->pb == c->pack && o->cf[0] == c->coll && o->ef[0] == c->exch && o->pf[0] == c->pack; any = o->best == o->t[0]; }
  else if (one) { ok = o->cf[0] == c->coll && o->ef[0] == c->exch && o->pf[0] == c->pack && o->cf[1] == 2 && o->ef[1] == 0 && o->pf[1] == 2 && o->cb == 2 && o->eb == 0 && o->pb == 2; any = o->best == o->t[1]; }
  else {
    for (int i = 0; i < nce; i++) {
      int mine = (o->cf[i] == o->cb) & (o->ef[i] == o->eb), best = 1;
      for (int j = 0; j < nce; j++) { best = best & le(o->t[i], o->t[j]); if (j != i) ok = ok & !((o->cf[i] == o->cf[j]) & (o->ef[i] == o->ef[j])); }
      any = any | (mine & best); ok = ok & (o->pf[i] == 2);
      if (nt < 9) ok = ok & ((mine & best) ? o->best == o->t[i] : 1);
      ok = ok & (o->cf[i] >= (nt == 2 ? 1 : 0)) & (o->cf[i] <= 2) & (o->ef[i] >= 0) & (o->ef[i] <= (nt >= 6 ? 1 : 0));
    }
    ok = ok & ((nt == 9) | (nt == 6) | (nt == 3) | (nt == 2));
    if (nt == 9) { int anyp = 0;
      for (int i = 6; i < 9; i++) { int best = 1; for (int j = 6; j < 9; j++) { best = best & le(o->t[i], o->t[j]); if (j != i) ok = ok & (o->pf[i] != o->pf[j]); }
        ok = ok & (o->cf[i] == o->cb) & (o->ef[i] == o->eb) & (o->pf[i] >= 0) & (o->pf[i] <= 2); int h = best & (o->pf[i] == o->pb); anyp = anyp | h; ok = ok & (h ? o->best == o->t[i] : 1); }
      any = any & anyp;
    } else ok = ok & (o->pb == 2);
  }
  vp_assert(ok, "the trials recorded are not the documented ones"); vp_assert(any, "the settings chosen are not those of the fastest trial");
  if (c->tmax == 0) vp_assert(nt == 9, "fewer trials without a time limit");
  for (int i = 0; i < nt; i++) { double t1 = f->t1d[i], t2 = f->tremap[i]; if (!c->tflag) vp_assert(t1 == 0 && t2 == 0, "untimed operations report times"); vp_assert(o->t[i] >= 0 && t1 >= 0 && t2 >= 0 && f->tremap1[i] >= 0 && f->tremap2[i] >= 0 && f->tremap3[i] >= 0, "negative time reported"); }
  // the object is set up as if by setup() with these settings
  FFT *g = new FFT(MPI_COMM_WORLD, PREC); g->collective = f->collective; g->exchange = f->exchange; g->packflag = f->packflag; g->memoryflag = c->memory; int fs2, ss2, rs2; g->setup(SIZES(c->n), TILES(bi, bo, 0), c->permute, fs2, ss2, rs2);
  vp_assert(fs == fs2 && ss == ss2 && rs == rs2, "sizes returned by tune are not those of the chosen settings"); delete g;
  FFT_SCALAR *sb = 0, *rb = 0; if (!c->memory) { sb = scalars(ss); rb = scalars(rs); x_setup_memory(f, sb, rb); }
  for (int op = 1; op <= 2; op++) {
    int fwd = op == 1; Box *src = fwd ? bi : bo, *dst = fwd ? bo : bi; int ps = fwd ? 0 : c->permute, pd = fwd ? c->permute : 0;
    FFT_SCALAR *a = scalars(2 * (long)fs); vp_fft.mode[me] = FS_GRID; vp_fft.dir[me] = fwd ? 1 : 2;
    for (int i = 0; i < fs; i++) fs_put(a + 2 * i, 2990);
    for (int k = src->lo[2]; k <= src->hi[2]; k++) for (int j = src->lo[1]; j <= src->hi[1]; j++) for (int i = src->lo[0]; i <= src->hi[0]; i++) fs_put(a + 2 * box_index(src, i, j, k, ps), fs_code((k * c->n[1] + j) * c->n[0] + i, 0, 0));
    x_compute(f, a, a, fwd ? 1 : -1);
    for (int k = dst->lo[2]; k <= dst->hi[2]; k++) for (int j = dst->lo[1]; j <= dst->hi[1]; j++) for (int i = dst->lo[0]; i <= dst->hi[0]; i++) vp_assert(fs_get(a + 2 * box_index(dst, i, j, k, pd)) == fs_code((k * c->n[1] + j) * c->n[0] + i, DIM == 3 ? 7 : 3, fwd ? 1 : 2), "a transform after tune is wrong");
  }
  x_destroy(f);
  vp_assert(vpm_open_comms(me) == 0, "communicator not released"); vp_assert(vp_live_blocks(me) == blocks0 && vp_live_bytes(me) == base, "memory not released"); vp_assert(vp_fft.plans[me] == 0, "1d FFT plan not released");
}
static int pick(const char *par, const char *nm, int lo, int hi) { int v = vp_param(par, -1); return v >= 0 ? v : v == -1 ? vp_sym_int(nm, lo, hi) : vp_choice(nm, lo, hi); }
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); c->P = vp_param("P", 2); c->n[0] = vp_param("NX", 2); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1;
  for (int d = 0; d < 3; d++) vp_fft.n[d] = c->n[d];
  vpm_init(c->P); vp_mpi.anymode = 1; vp_mpi.timemode = 1; vp_mpi.timemin = vp_param("TMIN", 0); vp_mpi.timemax = vp_param("TICKS", 100);
  int lay = vp_param("LAYOUT", 0); // 0: both in slabs across the first and last axis, 1: all tilings
  if (lay) { sym_layout(c->in, c->P, c->n, c->n, "in", 0, 0); sym_layout(c->out, c->P, c->n, c->n, "out", 0, 0); }
  else for (int p = 0; p < c->P; p++) for (int q = 0; q < 2; q++) { Box *b = q ? &c->out[p] : &c->in[p]; int a = q ? DIM - 1 : 0; for (int d = 0; d < 3; d++) { b->lo[d] = 0; b->hi[d] = c->n[d] - 1; } b->lo[a] = p * c->n[a] / c->P; b->hi[a] = (p + 1) * c->n[a] / c->P - 1; }
  c->permute = pick("PERMUTE", "permute", 0, DIM - 1); c->coll = pick("COLL", "collective", 0, 2); c->exch = pick("EXCH", "exchange", 0, 1); c->pack = pick("PACK", "pack", 0, 2); c->memory = pick("MEM", "memory", 0, 1);
  c->flag = pick("FLAG", "direction", 0, 2) - 1; c->niter = pick("NITER", "niter", 1, 2); c->tflag = pick("TFLAG", "tflag", 0, 1); c->tmax = vp_param("TMAX", 0);
  run_valid(c->P, run_rank, c);
  for (int p = 1; p < c->P; p++) { Out *a = &c->o[0], *b = &c->o[p];
    vp_assert(a->coll == b->coll && a->exch == b->exch && a->pack == b->pack, "processes end tuning with different settings");
    vp_assert(a->nt == b->nt && a->nper == b->nper, "processes recorded different trials"); if (a->nt == b->nt) for (int i = 0; i < a->nt; i++) vp_assert(a->cf[i] == b->cf[i] && a->ef[i] == b->ef[i] && a->pf[i] == b->pf[i], "processes recorded different trials"); }
  vp_assert(vpm_unmatched() == 0, "unreceived contribution");
  vp_cover(c->o[0].coll == 1, "tuning chose all-to-all communication");
}
