#include "fftstub.h"
FftModel vp_fft;
#define V vp_fft
static int lenclass(int n) { return n == 2 ? 0 : n == 3 ? 1 : n == 4 ? 2 : n == 5 ? 3 : n == 6 ? 4 : 5; }
static void line(int dir, int n, FFT_SCALAR *in, int is, FFT_SCALAR *out, int os) {
  int me = vp_rank(); V.lines[me]++;
  vp_assert(V.mode[me] != FS_NONE, "a 1d FFT is computed in an operation that must not transform data");
  // record where the line lies
  if (V.base[me]) {
    long off = (in - V.base[me]) / 2; vp_assert((in - V.base[me]) % 2 == 0 && off >= 0 && off < FS_MAXPOS && in == out && is == 1 && os == 1, "1d FFT of a line that is not stored contiguously in the data array");
    if (off >= 0 && off < FS_MAXPOS) V.cnt[me][V.run[me]][lenclass(n)][off]++;
  }
  if (V.mode[me] == FS_RECORD || V.mode[me] == FS_ANY) {
    // no particular data: just touch the line
    for (int q = 0; q < n; q++) { FFT_SCALAR a = in[2 * q * is], b = in[2 * q * is + 1]; out[2 * q * os] = a; out[2 * q * os + 1] = b; }
    if (V.mode[me] == FS_RECORD) vp_assert(dir == V.dir[me], "1d FFT in the wrong direction");
    return;
  }
  int c0 = fs_get(in), c1 = fs_get(in + 2 * is);
  double s = vp_pair_scale(in[0], in[1], FS_B);
  vp_assert(c0 >= 0 && c1 >= 0, "1d FFT of data that is not grid data");
  int ex = c0 % 3, mask = (c0 / 3) % 8, id = c0 / 24; int st = c1 / 24 - id;
  int nx = V.n[0], ny = V.n[1], nz = V.n[2];
  int axis = st == 1 ? 0 : st == nx ? 1 : st == nx * ny ? 2 : -1; int len = axis == 0 ? nx : axis == 1 ? ny : axis == 2 ? nz : 0;
  int x = axis == 0 ? id % nx : axis == 1 ? (id / nx) % ny : id / (nx * ny);
  vp_assert(axis >= 0 && len == n && x == 0, "1d FFT of something other than a complete line of the grid");
  vp_assert(((mask >> (axis < 0 ? 0 : axis)) & 1) == 0, "a line is transformed twice along the same axis");
  vp_assert(ex == 0 || ex == dir, "1d FFTs in different directions");
  vp_assert(dir == V.dir[me], "1d FFT in the wrong direction");
  int bit = axis == 0 ? 1 : axis == 1 ? 2 : 4;
  for (int q = 0; q < n; q++) {
    FFT_SCALAR *p = in + 2 * q * is;
    vp_assert(fs_get(p) == fs_code(id + q * st, mask, ex), "1d FFT of a line whose elements are not in grid order");
    vp_assert(vp_scale_is(vp_pair_scale(p[0], p[1], FS_B), s), "1d FFT of a line of unequally scaled elements");
  }
  for (int q = 0; q < n; q++) {
    FFT_SCALAR *o = out + 2 * q * os; int c = fs_code(id + q * st, mask | bit, dir);
    o[0] = (FFT_SCALAR)vp_tok_mul(c, s); o[1] = (FFT_SCALAR)vp_tok_mul(c + FS_B, s);
  }
}
struct vp_fftplan { int live, n, howmany, is, id, os, od, dir, committed; };
static vp_fftplan *newplan(int n, int howmany, int is, int id, int os, int od, int dir) {
  vp_fftplan *p = (vp_fftplan *)vp_malloc(sizeof(vp_fftplan));
  p->live = 1; p->n = n; p->howmany = howmany; p->is = is; p->id = id; p->os = os; p->od = od; p->dir = dir; p->committed = 0;
  int me = vp_rank(); V.plans[me]++; if (V.npl[me] < 64) { int q = V.npl[me]++; V.pn[me][q] = n; V.ph[me][q] = howmany; V.pdir[me][q] = dir; } return p;
}
static void execute(vp_fftplan *p, int dir, FFT_SCALAR *in, FFT_SCALAR *out) {
  if (!p) return;
  vp_assert(p->live == 1, "use of a destroyed 1d FFT plan");
  for (int l = 0; l < p->howmany; l++) line(dir, p->n, in + 2 * (long)l * p->id, p->is, out + 2 * (long)l * p->od, p->os);
}
static void destroy(vp_fftplan *p) { if (!p) return; vp_assert(p->live == 1, "1d FFT plan destroyed twice"); p->live = 0; V.plans[vp_rank()]--; }
extern "C" {
#if defined(FFT_FFTW3)
#ifdef FFT_SINGLE
#define A(f) fftwf_##f
#else
#define A(f) fftw_##f
#endif
// FFTW returns no plan for an empty batch
void *A(plan_many_dft)(int rank, const int *n, int howmany, FFT_SCALAR *, const int *, int is, int id, FFT_SCALAR *, const int *, int os, int od, int sign, unsigned) {
  vp_assert(rank == 1 && n[0] > 0 && howmany >= 0, "invalid FFTW plan"); if (howmany == 0) return 0;
  return newplan(n[0], howmany, is, id, os, od, sign == -1 ? 1 : 2);
}
void *A(plan_dft_1d)(int n, FFT_SCALAR *, FFT_SCALAR *, int sign, unsigned) { return newplan(n, 1, 1, n, 1, n, sign == -1 ? 1 : 2); }
void A(execute_dft)(void *p, FFT_SCALAR *in, FFT_SCALAR *out) { execute((vp_fftplan *)p, p ? ((vp_fftplan *)p)->dir : 0, in, out); }
void A(destroy_plan)(void *p) { destroy((vp_fftplan *)p); }
#elif defined(FFT_FFTW2)
void *fftw_create_plan(int n, int dir, int flags) { vp_assert(flags & 8, "FFTW2 plan not in place"); return newplan(n, 0, 1, 1, 1, 1, dir == -1 ? 1 : 2); }
void fftw_destroy_plan(void *p) { destroy((vp_fftplan *)p); }
void fftw(void *pp, int howmany, FFT_SCALAR *in, int is, int id, FFT_SCALAR *, int, int) { vp_fftplan *p = (vp_fftplan *)pp; vp_assert(p->live == 1, "use of a destroyed 1d FFT plan"); for (int l = 0; l < howmany; l++) line(p->dir, p->n, in + 2 * (long)l * id, is, in + 2 * (long)l * id, is); }
#elif defined(FFT_MKL)
long DftiCreateDescriptor(void **h, int, int, long dim, long n) { vp_assert(dim == 1, "MKL descriptor dimension"); *h = newplan((int)n, 1, 1, 0, 1, 0, 0); return 0; }
long DftiSetValue(void *h, int param, long v) {
  vp_fftplan *p = (vp_fftplan *)h; vp_assert(!p->committed, "MKL descriptor changed after commit");
  if (param == 7) p->howmany = (int)v; else if (param == 14) p->id = (int)v; else if (param == 15) p->od = (int)v; else if (param == 11) vp_assert((int)v == 43, "MKL transform not in place");
  return 0;
}
long DftiCommitDescriptor(void *h) { ((vp_fftplan *)h)->committed = 1; return 0; }
// MKL rejects a descriptor for zero transforms: nothing is computed
long DftiComputeForward(void *h, void *d) { vp_fftplan *p = (vp_fftplan *)h; vp_assert(p->committed, "MKL descriptor not committed"); execute(p, 1, (FFT_SCALAR *)d, (FFT_SCALAR *)d); return 0; }
long DftiComputeBackward(void *h, void *d) { vp_fftplan *p = (vp_fftplan *)h; vp_assert(p->committed, "MKL descriptor not committed"); execute(p, 2, (FFT_SCALAR *)d, (FFT_SCALAR *)d); return 0; }
long DftiFreeDescriptor(void **h) { destroy((vp_fftplan *)*h); *h = 0; return 0; }
#endif
}
