// C08: FFTs with the built-in (KISS) 1d transform against the discrete Fourier transform, for all data
#include "common.h"
#include <math.h>
#include "fftdata.h"
#if DIM == 3
#include "fft3d.h"
typedef FFTMPI_NS::FFT3d FFT;
#else
#include "fft2d.h"
typedef FFTMPI_NS::FFT2d FFT;
#endif
using namespace FFTMPI_NS;
#ifdef FFT_SINGLE
#define PREC 1
#define EPS 2e-5
#else
#define PREC 2
#define EPS 1e-12
#endif
struct Cfg { int P, n[3], permute, dir, inplace, scaled, twice, coll, exch, pack; Box in[VP_MAXP], out[VP_MAXP]; double *want; };
static FFT_SCALAR *scalars(long n) { return (FFT_SCALAR *)vp_malloc((size_t)n * sizeof(FFT_SCALAR)); }
// direct DFT along every axis; w holds (re,im) pairs in natural order
static void dft(double *w, const int *n, int dir) {
  int st[3] = {1, n[0], n[0] * n[1]}, N = n[0] * n[1] * n[2]; double *t = (double *)vp_malloc(2 * N * sizeof(double));
  for (int d = 0; d < 3; d++) if (n[d] > 1) {
    for (int o = 0; o < N; o++) { int q = o / st[d] % n[d], base = o - q * st[d]; double re = 0, im = 0;
      for (int m = 0; m < n[d]; m++) { double ph = -dir * 2.0 * M_PI * (m * q % n[d]) / n[d], c = cos(ph), s = sin(ph), a = w[2 * (base + m * st[d])], b = w[2 * (base + m * st[d]) + 1]; re = re + (a * c - b * s); im = im + (a * s + b * c); }
      t[2 * o] = re; t[2 * o + 1] = im; }
    for (int o = 0; o < 2 * N; o++) w[o] = t[o];
  }
}
// for long lengths FEW values are symbolic, spread over the grid, and the others fixed and irregular
static double datum(int i, int n) { int few = vp_param("FEW", 0); if (few && i % (n / few) != few % 5) return (double)((i * 7919 + 13) % 1009) / 1024 - 0.5; return vp_real(i); }
static void run_rank(int me, void *arg) {
  Cfg *c = (Cfg *)arg; Box *bi = &c->in[me], *bo = &c->out[me]; int N = c->n[0] * c->n[1] * c->n[2];
  FFT *f = new FFT(MPI_COMM_WORLD, PREC); f->scaled = c->scaled; f->collective = c->coll; f->exchange = c->exch; f->packflag = c->pack; int fs, ss, rs;
#if DIM == 3
  f->setup(c->n[0], c->n[1], c->n[2], bi->lo[0], bi->hi[0], bi->lo[1], bi->hi[1], bi->lo[2], bi->hi[2], bo->lo[0], bo->hi[0], bo->lo[1], bo->hi[1], bo->lo[2], bo->hi[2], c->permute, fs, ss, rs);
#else
  f->setup(c->n[0], c->n[1], bi->lo[0], bi->hi[0], bi->lo[1], bi->hi[1], bo->lo[0], bo->hi[0], bo->lo[1], bo->hi[1], c->permute, fs, ss, rs);
#endif
  // another FFT, with other lengths, in use at the same time
  FFT *g = 0; FFT_SCALAR *ga = 0; if (vp_param("TWO", 0)) { int m[3] = {vp_param("MX", 5), vp_param("MY", 4), 3}, e = me == c->P - 1, gs; g = new FFT(MPI_COMM_WORLD, PREC);
#if DIM == 3
    g->setup(m[0], m[1], m[2], 0, m[0] - 1, 0, m[1] - 1, 0, e ? m[2] - 1 : -1, 0, m[0] - 1, 0, m[1] - 1, 0, e ? m[2] - 1 : -1, 0, gs, ss, rs);
#else
    g->setup(m[0], m[1], 0, m[0] - 1, 0, e ? m[1] - 1 : -1, 0, m[0] - 1, 0, e ? m[1] - 1 : -1, 0, gs, ss, rs);
#endif
    ga = scalars(2 * (long)gs); for (int i = 0; i < 2 * gs; i++) ga[i] = (FFT_SCALAR)(i % 3); }
  Box *src = c->dir > 0 ? bi : bo, *dst = c->dir > 0 ? bo : bi; int ps = c->dir > 0 ? 0 : c->permute, pd = c->dir > 0 ? c->permute : 0;
  for (int rep = 0; rep < 1 + c->twice; rep++) {
    FFT_SCALAR *out = scalars(2 * (long)fs), *in = c->inplace ? out : scalars(2 * (long)box_vol(src));
    for (int k = src->lo[2]; k <= src->hi[2]; k++) for (int j = src->lo[1]; j <= src->hi[1]; j++) for (int i = src->lo[0]; i <= src->hi[0]; i++) { int id = (k * c->n[1] + j) * c->n[0] + i, x = box_index(src, i, j, k, ps); in[2 * x] = (FFT_SCALAR)datum(2 * id, 2 * N); in[2 * x + 1] = (FFT_SCALAR)datum(2 * id + 1, 2 * N); }
    if (g) g->compute(ga, ga, rep ? c->dir : -c->dir);
    f->compute(in, out, c->dir);
    double fac = c->dir < 0 && c->scaled ? 1.0 / N : 1.0, eps = EPS * N * fac;
    for (int k = dst->lo[2]; k <= dst->hi[2]; k++) for (int j = dst->lo[1]; j <= dst->hi[1]; j++) for (int i = dst->lo[0]; i <= dst->hi[0]; i++) { int id = (k * c->n[1] + j) * c->n[0] + i, x = box_index(dst, i, j, k, pd);
      vp_assert_close(out[2 * x], c->want[2 * id] * fac, eps, "the result differs from the discrete Fourier transform"); vp_assert_close(out[2 * x + 1], c->want[2 * id + 1] * fac, eps, "the result differs from the discrete Fourier transform"); }
  }
  delete f; if (g) { g->compute(ga, ga, 1); delete g; }
}
extern "C" void vp_main(void) {
  Cfg *c = (Cfg *)vp_malloc(sizeof(Cfg)); c->P = vp_param("P", 1); c->n[0] = vp_param("NX", 4); c->n[1] = vp_param("NY", 2); c->n[2] = DIM == 3 ? vp_param("NZ", 2) : 1;
  vpm_init(c->P); vp_mpi.anymode = 1; int N = c->n[0] * c->n[1] * c->n[2];
  if (vp_param("SWAP", 1) && vp_choice("swap", 0, 1)) { int t = c->n[0]; c->n[0] = c->n[DIM - 1]; c->n[DIM - 1] = t; }
  block_layout(c->in, c->P, c->n, "in", DIM); block_layout(c->out, c->P, c->n, "out", DIM);
  c->permute = vp_choice("permute", 0, c->P > 1 ? DIM - 1 : 0); c->dir = vp_choice("direction", 0, 1) ? 1 : -1; c->inplace = vp_choice("inplace", 0, 1); c->scaled = vp_choice("scaled", 0, 1); c->twice = vp_param("TWICE", 0); c->coll = c->P > 1 ? vp_choice("collective", 0, 2) : 2; c->exch = c->P > 1 ? vp_choice("exchange", 0, 1) : 0; c->pack = vp_param("PACK", 2);
  c->want = (double *)vp_malloc(2 * N * sizeof(double)); for (int i = 0; i < 2 * N; i++) c->want[i] = datum(i, 2 * N);
  dft(c->want, c->n, c->dir);
  run_valid(c->P, run_rank, c);
  vp_cover(1, "transform completed");
}
