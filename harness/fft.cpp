// C04..C07, C11, C14..C16: FFT3d / FFT2d with arbitrary tilings; 1d FFT library modelled (fftstub)
#include "common.h"
#include "fftstub.h"
#include "api.h"

struct Cfg {
  int P, n[3], permute, coll, exch, pack, memory, inplace, scaled, nops, ops[8], late, lcoll, lexch, lpack, lmem, two;
  Box in[VP_MAXP], out[VP_MAXP];
};
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }
static void fill_junk(FFT_SCALAR *a, int n) { for (int i = 0; i < n; i++) fs_put(a + 2 * i, 2990); }
// the data of box b (stored in axis order permute): point id, untransformed
static void fill(FFT_SCALAR *a, const Box *b, int permute, const int *n) {
  for (int k = b->lo[2]; k <= b->hi[2]; k++) for (int j = b->lo[1]; j <= b->hi[1]; j++) for (int i = b->lo[0]; i <= b->hi[0]; i++)
    fs_put(a + 2 * box_index(b, i, j, k, permute), fs_code((k * n[1] + j) * n[0] + i, 0, 0));
}
static void expect(const FFT_SCALAR *a, const Box *b, int permute, const int *n, int mask, int dir, double scale, const char *what, const char *swhat) {
  for (int k = b->lo[2]; k <= b->hi[2]; k++) for (int j = b->lo[1]; j <= b->hi[1]; j++) for (int i = b->lo[0]; i <= b->hi[0]; i++) {
    const FFT_SCALAR *p = a + 2 * box_index(b, i, j, k, permute);
    vp_assert(fs_get(p) == fs_code((k * n[1] + j) * n[0] + i, mask, dir), what);
    vp_assert(vp_scale_is(vp_pair_scale(p[0], p[1], FS_B), scale), swhat);
  }
}
// ops: 1/2 compute forward/backward, 3/4 only_remaps, 5/6 compute with remaponly, 7/8 only_1d_ffts,
//      9/10 all stages by only_one_remap, 11/12 compute with scaling switched for this call
// another FFT of the same process: the grid with its axes turned, the layouts swapped, other settings; its results are not looked at
static FFT *other(Cfg *c, MPI_Comm cm, int rk, FFT *f, int use, FFT_SCALAR **a, int me) {
  int n[3] = {c->n[0], c->n[1], 1}; Box bi = c->in[rk], bo = c->out[rk];
  for (int d = 0; d < DIM; d++) { int e = (d + 1) % DIM; n[d] = c->n[e]; bi.lo[d] = c->out[rk].lo[e]; bi.hi[d] = c->out[rk].hi[e]; bo.lo[d] = c->in[rk].lo[e]; bo.hi[d] = c->in[rk].hi[e]; }
  if (!f) { int fs, ss, rs; f = x_create(cm); x_options(f, (c->coll + 1) % 3, !c->exch, (c->pack + 1) % 3, 1, !c->scaled); x_setup(f, n, &bi, &bo, DIM - 1 - c->permute, fs, ss, rs); *a = scalars(2 * (long)fs); fill_junk(*a, fs); }
  if (use) { vp_fft.mode[me] = FS_ANY; x_compute(f, *a, *a, use > 1 ? 1 : -1); }
  return f;
}
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; int rk; MPI_Comm cm = use_comm(me, c->P, &rk); if (rk < 0) { done_comm(cm); return; } Box *bi = &c->in[rk], *bo = &c->out[rk];
  int64_t base = vp_live_bytes(me); int blocks0 = vp_live_blocks(me);
  FFT *f2 = 0; FFT_SCALAR *a2 = 0; if (c->two == 1) f2 = other(c, cm, rk, f2, 0, &a2, me);
  FFT *f = x_create(cm); x_options(f, c->coll, c->exch, c->pack, c->memory, c->scaled);
  int fs = -1, ss = -1, rs = -1;
  x_setup(f, c->n, bi, bo, c->permute, fs, ss, rs);
  int nin = box_vol(bi), nout = box_vol(bo), full = DIM == 3 ? 7 : 3;
  vp_assert(fs >= nin && fs >= nout && ss >= 0 && rs >= 0, "setup reports sizes smaller than the data owned");
  FFT_SCALAR *sb = 0, *rb = 0;
  if (c->late) x_options(f, c->lcoll, c->lexch, c->lpack, c->lmem, c->scaled); // settings changed after setup: without effect
  if (!c->memory) { sb = scalars(ss); rb = scalars(rs); x_setup_memory(f, sb, rb); }
  if (c->two == 2) f2 = other(c, cm, rk, f2, 0, &a2, me);
  double N = 1.0 / ((double)c->n[0] * c->n[1] * c->n[2]);
  for (int o = 0; o < c->nops; o++) {
    int op = c->ops[o], fwd = op & 1, flag = fwd ? 1 : -1;
    Box *src = fwd ? bi : bo, *dst = fwd ? bo : bi; int ps = fwd ? 0 : c->permute, pd = fwd ? c->permute : 0; int nsrc = fwd ? nin : nout;
    int inplace = c->inplace >= 2 ? (o + c->inplace) & 1 : c->inplace; // 2, 3: out of place and in place in turn
    FFT_SCALAR *in, *out;
    out = scalars(2 * (long)fs); fill_junk(out, fs);
    if (inplace) in = out; else in = scalars(2 * (long)nsrc);
    fill(in, src, ps, c->n);
    if (c->two) other(c, cm, rk, f2, 1 + o % 2, &a2, me);
    vp_fft.mode[me] = op <= 2 || op >= 11 ? FS_GRID : op == 7 || op == 8 ? FS_RECORD : FS_NONE; vp_fft.dir[me] = fwd ? 1 : 2;
    int mask = op <= 2 || op >= 11 ? full : 0; int sc = c->scaled; int calls = vpm_calls(me);
    if (op <= 2) x_compute(f, in, out, flag);
    else if (op <= 4) x_only_remaps(f, in, out, flag);
    else if (op <= 6) { x_remaponly(f, 1); x_compute(f, in, out, flag); x_remaponly(f, 0); }
    else if (op <= 8) {
      // the lines it transforms (positions in the array, lengths, how often) must be those compute() transforms
      vp_fft.base[me] = out; vp_fft.run[me] = 0; for (int r = 0; r < 2; r++) for (int l = 0; l < 6; l++) for (int x = 0; x < FS_MAXPOS; x++) vp_fft.cnt[me][r][l][x] = 0;
      x_compute(f, out, out, flag);
      calls = vpm_calls(me); vp_fft.run[me] = 1; fill_junk(out, fs);
      x_only_1d(f, out, flag); vp_assert(vpm_calls(me) == calls, "only_1d_ffts communicates"); vp_fft.base[me] = 0;
      for (int l = 0; l < 6; l++) for (int x = 0; x < FS_MAXPOS; x++) vp_assert(vp_fft.cnt[me][0][l][x] == vp_fft.cnt[me][1][l][x], "only_1d_ffts does not do the 1d transforms of compute()");
    }
    else if (op <= 10) {
      FFT_SCALAR *a = in; // stages alternate between arrays when not in place
      // a backward transform between identical layouts goes through the layouts in the forward order
      int same = c->permute == 0; for (int p = 0; p < c->P; p++) for (int d = 0; d < 3; d++) same = same & (c->in[p].lo[d] == c->out[p].lo[d]) & (c->in[p].hi[d] == c->out[p].hi[d]);
      for (int s = 1; s <= (DIM == 3 ? 4 : 3); s++) { int w = fwd || same ? s : (DIM == 3 ? 5 : 4) - s; FFT_SCALAR *b = inplace ? a : scalars(2 * (long)fs); if (b != a) fill_junk(b, fs); x_only_one_remap(f, a, b, flag, w); a = b; }
      out = a;
    } else { sc = !c->scaled; x_scaled(f, sc); x_compute(f, in, out, flag); x_scaled(f, c->scaled); }
    if (op != 7 && op != 8) {
      double scale = mask && !fwd && sc ? N : 1.0;
      expect(out, dst, pd, c->n, mask, fwd ? 1 : 2, scale, "the result is not the requested transform in the requested layout", "the result is scaled wrongly");
      if (!inplace) expect(in, src, ps, c->n, 0, 0, 1.0, "the input array was changed", "the input array was changed");
    }
    vp_assert(vpm_open_requests(me) == 0, "messages outstanding after the operation");
  }
  if (c->two) x_destroy(f2);
  x_destroy(f); done_comm(cm);
  vp_assert(vpm_open_comms(me) == 0, "communicator not released");
  vp_assert(vp_live_blocks(me) == blocks0 && vp_live_bytes(me) == base, "memory not released");
  vp_assert(vp_fft.plans[me] == 0, "1d FFT plan not released");
  if (sb) { vp_assert(vp_alive(sb, 0) && vp_alive(rb, 0), "user memory was released"); }
}

static int pick(const char *par, const char *nm, int lo, int hi) { int v = vp_param(par, -1); return v >= 0 ? v : v == -1 ? vp_sym_int(nm, lo, hi) : vp_choice(nm, lo, hi); }
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg));
  c->P = vp_param("P", 2); c->n[0] = vp_param("NX", 2); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1;
  for (int d = 0; d < 3; d++) vp_fft.n[d] = c->n[d];
  vpm_init(c->P + extra_ranks()); vp_mpi.anymode = vp_param("ANY", 0);
  int ef = vp_param("EMPTYFORM", 0), all = vp_param("ALLFORMS", 0);
  sym_layout(c->in, c->P, c->n, c->n, "in", ef, all);
  int same = vp_param("SAME", 0);
  if (same) for (int p = 0; p < c->P; p++) c->out[p] = c->in[(p + same - 1) % c->P]; // 1: same layout, 2..: shifted by ranks
   else sym_layout(c->out, c->P, c->n, c->n, "out", ef, all);
  c->permute = pick("PERMUTE", "permute", 0, DIM - 1); c->exch = DIM == 3 ? pick("EXCH", "exchange", 0, 1) : pick("EXCH", "exchange", 0, 1);
  c->two = vp_param("TWO", 0); if (c->two < 0) c->two = vp_choice("second FFT", 1, 2); c->late = vp_param("LATE", 0); if (c->late) { c->lcoll = vp_sym_int("collective set later", 0, 2); c->lexch = vp_sym_int("exchange set later", 0, 1); c->lpack = vp_sym_int("pack set later", 0, 2); c->lmem = vp_sym_int("memory set later", 0, 1); }
  c->coll = pick("COLL", "collective", 0, 2); c->pack = pick("PACK", "pack", 0, 2); c->memory = pick("MEM", "memory", 0, 1); c->inplace = pick("INPLACE", "inplace", 0, 1); c->scaled = pick("SCALED", "scaled", 0, 1);
  int ops = vp_param("OPS", 12); c->nops = 0; while (ops) { c->ops[7 - c->nops++] = ops % 16; ops /= 16; } for (int i = 0; i < c->nops; i++) c->ops[i] = c->ops[8 - c->nops + i];
  run_valid(c->P + extra_ranks(), run_rank, c);
  vp_assert(vpm_unmatched() == 0, "unreceived contribution");
  int own = 0; for (int p = 0; p < c->P; p++) own = own + (box_vol(&c->in[p]) > 0 ? 1 : 0); if (c->P > 1) vp_cover(own >= 2, "two processes own data");
  if (c->P > 1 && !vp_param("FAM", 0)) vp_cover(box_vol(&c->in[0]) == 0, "a process owns nothing");
}
