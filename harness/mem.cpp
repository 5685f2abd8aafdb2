// C16: reported memory usage of an FFT against the memory it holds
#include "common.h"
#include "fftstub.h"
#include "api.h"
struct Cfg { int P, n[3], permute, coll, exch, pack, first; Box in[VP_MAXP], out[VP_MAXP]; };
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }
static FFT *make(Cfg *c, int me, int mem, int tune, int *fs, int *ss, int *rs) {
  FFT *f = new FFT(MPI_COMM_WORLD, PREC); f->collective = c->coll; f->exchange = c->exch; f->packflag = c->pack; f->memoryflag = mem; Box *bi = &c->in[me], *bo = &c->out[me];
  if (tune) { vp_fft.mode[me] = FS_ANY; f->tune(SIZES(c->n), TILES(bi, bo, 0), c->permute, *fs, *ss, *rs, 0, 1, 0.0, 0); }
  else f->setup(SIZES(c->n), TILES(bi, bo, 0), c->permute, *fs, *ss, *rs);
  return f;
}
static void use(FFT *f, int me, int fs) { FFT_SCALAR *a = scalars(2 * (long)fs); for (int i = 0; i < fs; i++) fs_put(a + 2 * i, 2990); vp_fft.mode[me] = FS_ANY; f->compute(a, a, 1); f->compute(a, a, -1); f->only_remaps(a, a, 1); f->only_one_remap(a, a, -1, 1); f->only_1d_ffts(a, 1); }
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; int fs, ss, rs, fs2, ss2, rs2; int64_t base = vp_live_bytes(me);
  FFT *b = 0; FFT_SCALAR *sb, *rb;
  if (c->first) { b = make(c, me, 0, 0, &fs2, &ss2, &rs2); base = vp_live_bytes(me); } // the object with the user's buffers was made before
  FFT *a = make(c, me, 1, 0, &fs, &ss, &rs); int64_t held = vp_live_bytes(me) - base, use1 = a->memusage, buf = (int64_t)(ss + rs) * sizeof(FFT_SCALAR);
  vp_assert(use1 >= buf, "reported usage leaves out buffers the library allocated"); vp_assert(use1 <= held, "reported usage exceeds the memory the library holds");
  if (!b) b = make(c, me, 0, 0, &fs2, &ss2, &rs2);
  vp_assert(ss == ss2 && rs == rs2, "sizes depend on who provides the memory"); vp_assert(b->memusage == use1 - buf, "usage with the user's buffers is not smaller by exactly these buffers");
  int64_t use2 = b->memusage; sb = scalars(ss2); rb = scalars(rs2); b->setup_memory(sb, rb); use(b, me, fs2); vp_assert(b->memusage == use2, "usage changes with use"); use(a, me, fs); vp_assert(a->memusage == use1, "usage changes with use");
  delete a; delete b;
  if (vp_param("TUNE", 1)) {
    FFT *t = make(c, me, 1, 1, &fs, &ss, &rs); Cfg d = *c; d.coll = t->collective; d.exch = t->exchange; d.pack = t->packflag;
    FFT *s = make(&d, me, 1, 0, &fs2, &ss2, &rs2); vp_assert(t->memusage == s->memusage, "usage after tuning is not that of the settings in effect"); vp_assert(ss == ss2 && rs == rs2 && fs == fs2, "sizes after tuning are not those of the settings in effect");
    use(t, me, fs); vp_assert(t->memusage == s->memusage, "usage changes with use"); delete t; delete s;
  }
  vp_assert(vp_live_bytes(me) == 0, "memory not released");
}
static int pick(const char *par, const char *nm, int lo, int hi) { int v = vp_param(par, -2); return v >= 0 ? v : v == -1 ? vp_sym_int(nm, lo, hi) : vp_choice(nm, lo, hi); }
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); c->P = vp_param("P", 2); c->n[0] = vp_param("NX", 2); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1; vpm_init(c->P); vp_mpi.anymode = vp_param("ANY", 1);
  for (int d = 0; d < 3; d++) vp_fft.n[d] = c->n[d];
  sym_layout(c->in, c->P, c->n, c->n, "in", 0, vp_param("ALLFORMS", 0)); sym_layout(c->out, c->P, c->n, c->n, "out", 0, vp_param("ALLFORMS", 0));
  c->permute = pick("PERMUTE", "permute", 0, DIM - 1); c->coll = pick("COLL", "collective", 0, 2); c->exch = pick("EXCH", "exchange", 0, 1); c->pack = pick("PACK", "pack", 0, 2); c->first = pick("FIRST", "first", 0, 1);
  run_valid(c->P, run_rank, c); if (c->P > 1) vp_cover(box_vol(&c->in[0]) > 0 && box_vol(&c->in[1]) > 0, "two processes own data"); else vp_cover(1, "usage compared");
}
