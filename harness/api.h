// The three ways to reach an FFT: API 0 = C++ class, 1 = C functions, 2 = Fortran-callable functions (1-based indices)
#ifndef API
#define API 0
#endif
#if DIM == 3
#include "fft3d.h"
typedef FFTMPI_NS::FFT3d FFT;
#define WRAPHDR "fft3d_wrap.h"
#define W_(x) fft3d_##x
#else
#include "fft2d.h"
typedef FFTMPI_NS::FFT2d FFT;
#define WRAPHDR "fft2d_wrap.h"
#define W_(x) fft2d_##x
#endif
using namespace FFTMPI_NS;
#ifdef FFT_SINGLE
#define PREC 1
#else
#define PREC 2
#endif
#if DIM == 3
#define TILES(bi, bo, s) bi->lo[0] + s, bi->hi[0] + s, bi->lo[1] + s, bi->hi[1] + s, bi->lo[2] + s, bi->hi[2] + s, bo->lo[0] + s, bo->hi[0] + s, bo->lo[1] + s, bo->hi[1] + s, bo->lo[2] + s, bo->hi[2] + s
#define SIZES(n) n[0], n[1], n[2]
#else
#define TILES(bi, bo, s) bi->lo[0] + s, bi->hi[0] + s, bi->lo[1] + s, bi->hi[1] + s, bo->lo[0] + s, bo->hi[0] + s, bo->lo[1] + s, bo->hi[1] + s
#define SIZES(n) n[0], n[1]
#endif
#if API == 0
static FFT *x_create(MPI_Comm w) { return new FFT(w, PREC); }
static void x_destroy(FFT *f) { delete f; }
static void x_options(FFT *f, int coll, int exch, int pack, int mem, int scaled) { f->collective = coll; f->exchange = exch; f->packflag = pack; f->memoryflag = mem; f->scaled = scaled; }
static void x_scaled(FFT *f, int v) { f->scaled = v; }
static void x_remaponly(FFT *f, int v) { f->remaponly = v; }
static void x_setup(FFT *f, const int *n, const Box *bi, const Box *bo, int permute, int &fs, int &ss, int &rs) { f->setup(SIZES(n), TILES(bi, bo, 0), permute, fs, ss, rs); }
static void x_tune(FFT *f, const int *n, const Box *bi, const Box *bo, int permute, int &fs, int &ss, int &rs, int flag, int niter, double tmax, int tflag) { f->tune(SIZES(n), TILES(bi, bo, 0), permute, fs, ss, rs, flag, niter, tmax, tflag); }
static void x_setup_memory(FFT *f, FFT_SCALAR *s, FFT_SCALAR *r) { f->setup_memory(s, r); }
static void x_compute(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag) { f->compute(a, b, flag); }
static void x_only_1d(FFT *f, FFT_SCALAR *a, int flag) { f->only_1d_ffts(a, flag); }
static void x_only_remaps(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag) { f->only_remaps(a, b, flag); }
static void x_only_one_remap(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag, int w) { f->only_one_remap(a, b, flag, w); }
#else
#include WRAPHDR
static FFT *x_create(MPI_Comm w) { void *p = 0;
#if API == 2
  W_(create_fortran)(MPI_Comm_c2f(w), PREC, &p);
#else
  W_(create)(w, PREC, &p);
#endif
  return (FFT *)p; }
static void x_destroy(FFT *f) { W_(destroy)(f); }
static void x_options(FFT *f, int coll, int exch, int pack, int mem, int scaled) { W_(set)(f, "collective", coll); W_(set)(f, "exchange", exch); W_(set)(f, "pack", pack); W_(set)(f, "memory", mem); W_(set)(f, "scale", scaled); }
static void x_scaled(FFT *f, int v) { W_(set)(f, "scale", v); }
static void x_remaponly(FFT *f, int v) { W_(set)(f, "remaponly", v); }
static void x_setup(FFT *f, const int *n, const Box *bi, const Box *bo, int permute, int &fs, int &ss, int &rs) {
#if API == 2
  W_(setup_fortran)(f, SIZES(n), TILES(bi, bo, 1), permute, &fs, &ss, &rs);
#else
  W_(setup)(f, SIZES(n), TILES(bi, bo, 0), permute, &fs, &ss, &rs);
#endif
}
static void x_tune(FFT *f, const int *n, const Box *bi, const Box *bo, int permute, int &fs, int &ss, int &rs, int flag, int niter, double tmax, int tflag) {
#if API == 2
  W_(tune_fortran)(f, SIZES(n), TILES(bi, bo, 1), permute, &fs, &ss, &rs, flag, niter, tmax, tflag);
#else
  W_(tune)(f, SIZES(n), TILES(bi, bo, 0), permute, &fs, &ss, &rs, flag, niter, tmax, tflag);
#endif
}
static void x_setup_memory(FFT *f, FFT_SCALAR *s, FFT_SCALAR *r) { W_(setup_memory)(f, s, r); }
static void x_compute(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag) { W_(compute)(f, a, b, flag); }
static void x_only_1d(FFT *f, FFT_SCALAR *a, int flag) { W_(only_1d_ffts)(f, a, flag); }
static void x_only_remaps(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag) { W_(only_remaps)(f, a, b, flag); }
static void x_only_one_remap(FFT *f, FFT_SCALAR *a, FFT_SCALAR *b, int flag, int w) { W_(only_one_remap)(f, a, b, flag, w); }
#endif
