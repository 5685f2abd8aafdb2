// C11, C16: several FFT and Remap objects on one communicator, each destroyed at any point of its life
#include "common.h"
#include "fftstub.h"
#include "api.h"
#if DIM == 3
#include "remap3d.h"
typedef Remap3d RemapT;
#else
#include "remap2d.h"
typedef Remap2d RemapT;
#endif
#ifdef FFT_KISS
#define TOKENS 0
#else
#define TOKENS 1
#endif
struct Obj { int stage, coll, exch, pack, memory, permute, swap; };
struct Cfg { int P, n[3], order, rstage, rmem, rcoll, nf; Obj o[3]; Box in[VP_MAXP], out[VP_MAXP]; };
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }
struct Live { FFT *f; FFT_SCALAR *sb, *rb; int fs, ss, rs; Box *bi, *bo; Obj *o; };
static void transform(Live *l, Cfg *c, int me, int fwd) {
  Box *src = fwd ? l->bi : l->bo, *dst = fwd ? l->bo : l->bi; int ps = fwd ? 0 : l->o->permute, pd = fwd ? l->o->permute : 0;
  FFT_SCALAR *a = scalars(2 * (long)l->fs);
  if (!TOKENS) { for (int i = 0; i < 2 * l->fs; i++) a[i] = 0; l->f->compute(a, a, fwd ? 1 : -1); for (int i = 0; i < 2 * box_vol(dst); i++) vp_assert(a[i] == 0, "a transform is wrong"); return; }
  vp_fft.mode[me] = FS_GRID; vp_fft.dir[me] = fwd ? 1 : 2;
  for (int i = 0; i < l->fs; i++) fs_put(a + 2 * i, 2990);
  for (int k = src->lo[2]; k <= src->hi[2]; k++) for (int j = src->lo[1]; j <= src->hi[1]; j++) for (int i = src->lo[0]; i <= src->hi[0]; i++) fs_put(a + 2 * box_index(src, i, j, k, ps), fs_code((k * c->n[1] + j) * c->n[0] + i, 0, 0));
  l->f->compute(a, a, fwd ? 1 : -1);
  for (int k = dst->lo[2]; k <= dst->hi[2]; k++) for (int j = dst->lo[1]; j <= dst->hi[1]; j++) for (int i = dst->lo[0]; i <= dst->hi[0]; i++) vp_assert(fs_get(a + 2 * box_index(dst, i, j, k, pd)) == fs_code((k * c->n[1] + j) * c->n[0] + i, DIM == 3 ? 7 : 3, fwd ? 1 : 2), "a transform is wrong");
}
static void advance(Live *l, Cfg *c, int me, int part) { // part 0: up to setup, 1: the rest
  int st = l->o->stage; FFT *f = l->f;
  if (part == 0) {
    if (st >= 1 && st <= 4) f->setup(SIZES(c->n), TILES(l->bi, l->bo, 0), l->o->permute, l->fs, l->ss, l->rs);
    if (st >= 5) { vp_fft.mode[me] = FS_ANY; f->tune(SIZES(c->n), TILES(l->bi, l->bo, 0), l->o->permute, l->fs, l->ss, l->rs, 0, 1, 0.0, st == 6); }
    return;
  }
  if (st >= 2 && st != 5 && !l->o->memory) { l->sb = scalars(l->ss); l->rb = scalars(l->rs); f->setup_memory(l->sb, l->rb); }
  if (st >= 3 && st != 5) transform(l, c, me, 1);
  if (st == 4) { transform(l, c, me, 0); f->remaponly = 1; FFT_SCALAR *a = scalars(2 * (long)l->fs); for (int i = 0; i < l->fs; i++) fs_put(a + 2 * i, 2990); vp_fft.mode[me] = FS_ANY; f->compute(a, a, 1); f->remaponly = 0; f->only_remaps(a, a, -1); f->only_1d_ffts(a, 1); transform(l, c, me, 1); }
}
static void kill(Live *l) { if (!l->f) return; if (l->o->stage < 5) vp_assert(l->f->ntrial == 0 && l->f->npertrial == 0, "an FFT that was not tuned reports tuning trials"); delete l->f; l->f = 0; if (l->sb) vp_assert(vp_alive(l->sb, 0) && vp_alive(l->rb, 0), "memory of the user was released"); }
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; Live l[3]; RemapT *r = 0; FFT_SCALAR *rsb = 0, *rrb = 0, *ra = 0;
  for (int i = 0; i < c->nf; i++) { Live *x = &l[i]; x->o = &c->o[i]; x->sb = x->rb = 0; x->fs = x->ss = x->rs = -1; x->bi = x->o->swap ? &c->out[me] : &c->in[me]; x->bo = x->o->swap ? &c->in[me] : &c->out[me];
    x->f = new FFT(MPI_COMM_WORLD, PREC); x->f->collective = x->o->coll; x->f->exchange = x->o->exch; x->f->packflag = x->o->pack; x->f->memoryflag = x->o->memory;
    if (i == 0) advance(x, c, me, 0); }
  if (c->rstage) { r = new RemapT(MPI_COMM_WORLD); r->collective = c->rcoll; }
  for (int i = 1; i < c->nf; i++) advance(&l[i], c, me, 0);
  if (c->rstage > 1) { int ss, rs; r->setup(TILES((&c->in[me]), (&c->out[me]), 0), 1, 0, c->rmem, ss, rs); if (!c->rmem) { rsb = scalars(ss); rrb = scalars(rs); } int nb = box_vol(&c->in[me]), no = box_vol(&c->out[me]); if (no > nb) nb = no; ra = scalars(nb); for (int i = 0; i < nb; i++) ra[i] = 0; }
  advance(&l[0], c, me, 1);
  if (c->rstage > 2) r->remap(ra, ra, rsb, rrb);
  if (c->order == 0) kill(&l[0]);
  for (int i = 1; i < c->nf; i++) advance(&l[i], c, me, 1);
  if (c->order == 1) kill(&l[0]);
  if (c->order == 2) { for (int i = c->nf - 1; i > 0; i--) kill(&l[i]); if (r) { delete r; r = 0; } }
  for (int i = 0; i < c->nf; i++) if (l[i].f && ((l[i].o->stage >= 3 && l[i].o->stage != 5) || (l[i].o->stage >= 3 && l[i].o->memory))) transform(&l[i], c, me, i & 1);
  if (r && c->rstage > 2) r->remap(ra, ra, rsb, rrb);
  if (r) delete r;
  if (rsb) vp_assert(vp_alive(rsb, 0) && vp_alive(rrb, 0), "memory of the user was released");
  for (int i = 0; i < c->nf; i++) kill(&l[i]);
  vp_assert(vpm_open_comms(me) == 0, "communicator not released"); vp_assert(vpm_open_groups(me) == 0, "group not released");
  vp_assert(vp_live_blocks(me) == 0 && vp_live_bytes(me) == 0, "memory not released");
  if (TOKENS) vp_assert(vp_fft.plans[me] == 0, "1d FFT plan not released");
  vp_assert(vpm_open_requests(me) == 0, "messages outstanding");
}
static int pick(const char *par, const char *nm, int lo, int hi) { int v = vp_param(par, -2); return v >= 0 ? v : v == -1 ? vp_sym_int(nm, lo, hi) : vp_choice(nm, lo, hi); }
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); c->P = vp_param("P", 2); c->n[0] = vp_param("NX", 2); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1; vpm_init(c->P); vp_mpi.anymode = vp_param("ANY", 1);
  for (int d = 0; d < 3; d++) vp_fft.n[d] = c->n[d];
  if (vp_param("LAYOUT", 0)) { sym_layout(c->in, c->P, c->n, c->n, "in", 0, 0); sym_layout(c->out, c->P, c->n, c->n, "out", 0, 0); }
  else for (int p = 0; p < c->P; p++) for (int q = 0; q < 2; q++) { Box *b = q ? &c->out[p] : &c->in[p]; int a = q ? DIM - 1 : 0; for (int d = 0; d < 3; d++) { b->lo[d] = 0; b->hi[d] = c->n[d] - 1; } b->lo[a] = p * c->n[a] / c->P; b->hi[a] = (p + 1) * c->n[a] / c->P - 1; }
  c->nf = vp_param("NF", 1); c->order = c->nf > 1 || vp_param("RSTAGE", 0) ? pick("ORDER", "order", 0, 2) : 0;
  for (int i = 0; i < c->nf; i++) { Obj *o = &c->o[i]; o->stage = i ? pick("STAGE2", "stage", 0, 6) : pick("STAGE", "stage", 0, 6); o->coll = pick("COLL", "collective", 0, 2); o->exch = pick("EXCH", "exchange", 0, 1); o->pack = pick("PACK", "pack", 0, 2); o->memory = pick("MEM", "memory", 0, 1); o->permute = i ? 0 : pick("PERMUTE", "permute", 0, DIM - 1); o->swap = i & 1; }
  c->rstage = pick("RSTAGE", "rstage", 0, 3); c->rmem = c->rstage > 1 ? pick("RMEM", "rmem", 0, 1) : 0; c->rcoll = c->rstage > 1 ? pick("RCOLL", "rcoll", 0, 1) : 0;
  run_valid(c->P, run_rank, c);
  vp_assert(vpm_unmatched() == 0, "unreceived contribution"); vp_cover(1, "all objects destroyed");
}
