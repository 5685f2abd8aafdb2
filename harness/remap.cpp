// C01/C02/C03/C14: Remap3d / Remap2d with arbitrary tilings
#include "common.h"
#include "fftdata.h"
#include DIMHDR
using namespace FFTMPI_NS;
#ifndef DIM
#define DIM 3
#endif
#if DIM == 3
typedef Remap3d RemapT;
#else
typedef Remap2d RemapT;
#endif
#ifndef API
#define API 0
#endif
#if DIM == 3
#define TILES(bi, bo, s) bi->lo[0] + s, bi->hi[0] + s, bi->lo[1] + s, bi->hi[1] + s, bi->lo[2] + s, bi->hi[2] + s, bo->lo[0] + s, bo->hi[0] + s, bo->lo[1] + s, bo->hi[1] + s, bo->lo[2] + s, bo->hi[2] + s
#define R_(x) remap3d_##x
#define RWRAP "remap3d_wrap.h"
#else
#define TILES(bi, bo, s) bi->lo[0] + s, bi->hi[0] + s, bi->lo[1] + s, bi->hi[1] + s, bo->lo[0] + s, bo->hi[0] + s, bo->lo[1] + s, bo->hi[1] + s
#define R_(x) remap2d_##x
#define RWRAP "remap2d_wrap.h"
#endif
#if API
#include RWRAP
#endif

struct Cfg {
  int P, nq, permute, pack, coll, memory, inplace, reps, nmax, late, lcoll, lpack, mix, two;
  int mx[3], n[3]; int pi, pj, pk, pq;
  Box in[VP_MAXP], out[VP_MAXP];
};

static FFT_SCALAR *alloc_scalars(int n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }

static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg;
  int rk; MPI_Comm cm = use_comm(me, c->P, &rk); if (rk < 0) { done_comm(cm); return; }
  Box *bi = &c->in[rk], *bo = &c->out[rk];
  int nin = c->nq * box_vol(bi), nout = c->nq * box_vol(bo);
  int nbig = nin > nout ? nin : nout;
  int ss = -1, rs = -1;
#if API == 0
  RemapT *r = new RemapT(cm); r->collective = c->coll; r->packflag = c->pack;
  r->setup(TILES(bi, bo, 0), c->nq, c->permute, c->memory, ss, rs);
#else
  void *r = 0;
#if API == 2
  R_(create_fortran)(MPI_Comm_c2f(cm), &r);
#else
  R_(create)(cm, &r);
#endif
  R_(set)(r, (char *)"collective", c->coll); R_(set)(r, (char *)"pack", c->pack);
#if API == 2
  R_(setup_fortran)(r, TILES(bi, bo, 1), c->nq, c->permute, c->memory, &ss, &rs);
#else
  R_(setup)(r, TILES(bi, bo, 0), c->nq, c->permute, c->memory, &ss, &rs);
#endif
#endif
  vp_assert(ss >= 0 && rs >= 0, "setup reports negative buffer sizes");
  if (c->late) { // settings changed after setup: without effect
#if API == 0
    r->collective = c->lcoll; r->packflag = c->lpack;
#else
    R_(set)(r, (char *)"collective", c->lcoll); R_(set)(r, (char *)"pack", c->lpack);
#endif
  }
  FFT_SCALAR *sb = 0, *rb = 0;
  if (!c->memory) { sb = alloc_scalars(ss); rb = alloc_scalars(rs); }
  // another Remap in use at the same time: the way back, with other settings
  RemapT *r2 = 0; FFT_SCALAR *a2 = 0; if (c->two) { int s2, q2; r2 = new RemapT(cm); r2->collective = !c->coll; r2->packflag = (c->pack + 1) % 3; r2->setup(TILES(bo, bi, 0), c->nq + 1, c->permute, 1, s2, q2); a2 = alloc_scalars((c->nq + 1) * (nbig / c->nq)); for (int x = 0; x < c->nmax * (c->nq + 1) / c->nq; x++) if (x < (c->nq + 1) * (nbig / c->nq)) a2[x] = (FFT_SCALAR)vp_tok(7); }
  FFT_SCALAR *in = 0, *out = 0;
  for (int rep = 0; rep < c->reps; rep++) {
    int inplace = c->mix ? c->inplace ^ (rep & 1) : c->inplace;
    if (rep == 0 || c->mix) { // mix: every call with other arrays and buffers, in place and out of place in turn
      if (rep && !c->memory) { sb = alloc_scalars(ss); rb = alloc_scalars(rs); }
      if (inplace) { in = out = alloc_scalars(nbig); }
      else { in = alloc_scalars(nin); out = alloc_scalars(nout); }
    }
    // the probed datum carries 1+rep, all others 0
    int pin = box_has(bi, c->pi, c->pj, c->pk) ? box_index(bi, c->pi, c->pj, c->pk, 0) * c->nq + c->pq : -1;
    int pout = box_has(bo, c->pi, c->pj, c->pk) ? box_index(bo, c->pi, c->pj, c->pk, DIM == 2 && c->permute == 1 ? 1 : c->permute) * c->nq + c->pq : -1;
    if (!inplace) for (int x = 0; x < c->nmax; x++) if (x < nout) out[x] = (FFT_SCALAR)vp_tok(9);
    for (int x = 0; x < c->nmax; x++) if (x < nin) in[x] = (FFT_SCALAR)vp_tok((x == pin) * (1 + rep));
    if (r2) r2->remap(a2, a2, 0, 0);
#if API == 0
    r->remap(in, out, sb, rb);
#else
    R_(remap)(r, in, out, sb, rb);
#endif
    vp_assert(vpm_open_requests(me) == 0, "remap returns with messages outstanding");
    for (int x = 0; x < c->nmax; x++) if (x < nout) vp_assert(vp_tok_code(out[x]) == ((x == pout) * (1 + rep)), "datum not at its requested place");
    if (!inplace) for (int x = 0; x < c->nmax; x++) if (x < nin) vp_assert(vp_tok_code(in[x]) == ((x == pin) * (1 + rep)), "remap changed its input array");
  }
  delete r2;
#if API == 0
  delete r;
#else
  R_(destroy)(r);
#endif
  done_comm(cm); vp_assert(vpm_open_comms(me) == 0, "communicator not released");
}

extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg));
  c->P = vp_param("P", 2); c->nq = vp_param("NQ", 1); c->reps = vp_param("REPS", 1);
  c->mx[0] = vp_param("NX", 2); c->mx[1] = vp_param("NY", 2); c->mx[2] = DIM == 3 ? vp_param("NZ", 2) : 1;
  int permute = vp_param("PERMUTE", -1), pack = vp_param("PACK", -1), coll = vp_param("COLL", -1), mem = vp_param("MEM", -1), inpl = vp_param("INPLACE", -1), full = vp_param("FULL", 1);
  c->permute = permute >= 0 ? permute : vp_sym_int("permute", 0, DIM - 1);
  c->pack = pack >= 0 ? pack : vp_sym_int("pack", 0, 2);
  c->coll = coll >= 0 ? coll : vp_sym_int("collective", 0, 1);
  c->memory = mem >= 0 ? mem : vp_sym_int("memory", 0, 1);
  c->inplace = inpl >= 0 ? inpl : vp_sym_int("inplace", 0, 1);
  c->mix = vp_param("MIX", 0); c->two = vp_param("TWO", 0); c->late = vp_param("LATE", 0); if (c->late) { c->lcoll = vp_sym_int("collective set later", 0, 1); c->lpack = vp_sym_int("pack set later", 0, 2); }
  for (int d = 0; d < 3; d++) c->n[d] = full || c->mx[d] == 1 ? c->mx[d] : vp_sym_int("n", 1, c->mx[d]);
  c->nmax = c->nq * c->mx[0] * c->mx[1] * c->mx[2];
  vpm_init(c->P + extra_ranks()); vp_mpi.anymode = vp_param("ANY", 0);
  int ef = vp_param("EMPTYFORM", 0), all = vp_param("ALLFORMS", 1);
  sym_layout(c->in, c->P, c->n, c->mx, "in", ef, all);
  sym_layout(c->out, c->P, c->n, c->mx, "out", ef, all);
  c->pi = vp_sym_int("probe", 0, c->mx[0] - 1); c->pj = vp_sym_int("probe", 0, c->mx[1] - 1); c->pk = DIM == 3 && c->mx[2] > 1 ? vp_sym_int("probe", 0, c->mx[2] - 1) : 0; c->pq = c->nq > 1 ? vp_sym_int("probe", 0, c->nq - 1) : 0;
  vp_assume(c->pi < c->n[0] && c->pj < c->n[1] && c->pk < c->n[2]);
  run_valid(c->P + extra_ranks(), run_rank, c);
  vp_assert(vpm_unmatched() == 0, "unreceived contribution");
  if (c->P > 1) vp_cover(box_vol(&c->in[0]) > 0 && c->P > 1 && box_has(&c->in[0], c->pi, c->pj, c->pk) && box_has(&c->out[1], c->pi, c->pj, c->pk), "probed datum moves between processes");
  if (c->P > 1 && !vp_param("FAM", 0)) vp_cover(box_vol(&c->in[0]) == 0, "a process owns nothing");
}
