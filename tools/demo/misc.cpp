// Small demonstrations.  args: MODE ...
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#if DIM == 3
#include "fft3d.h"
typedef FFTMPI_NS::FFT3d F;
#else
#include "fft2d.h"
typedef FFTMPI_NS::FFT2d F;
#endif
#ifdef WRAP
#include "remap3d_wrap.h"
#include "remap2d_wrap.h"
#endif
static long ncreate, nfree; static double fake; static int usefake, nclock;
static double *script; static int nscript;
extern "C" int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) { int r = PMPI_Comm_create(c, g, n); if (*n != MPI_COMM_NULL) ncreate++; return r; }
extern "C" int MPI_Comm_free(MPI_Comm *c) { nfree++; return PMPI_Comm_free(c); }
// a clock under our control: the n-th reading is n plus the scripted advances so far
extern "C" double MPI_Wtime() { if (!usefake) return PMPI_Wtime(); fake += nclock < nscript ? script[nclock] : 1.0; nclock++; return fake; }
static int me, P, prec = sizeof(FFT_SCALAR) == 4 ? 1 : 2;
struct B { int lo[3], hi[3]; long vol() const { return (long)(hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) * (hi[2] - lo[2] + 1); } };
static B slab(const int *n, int a) { B b; for (int d = 0; d < 3; d++) { b.lo[d] = 0; b.hi[d] = n[d] - 1; } b.lo[a] = me * n[a] / P; b.hi[a] = (me + 1) * n[a] / P - 1; return b; }
static void setup(F *f, const int *n, B i, B o, int perm, int &fs, int &ss, int &rs) {
#if DIM == 3
  f->setup(n[0], n[1], n[2], i.lo[0], i.hi[0], i.lo[1], i.hi[1], i.lo[2], i.hi[2], o.lo[0], o.hi[0], o.lo[1], o.hi[1], o.lo[2], o.hi[2], perm, fs, ss, rs);
#else
  f->setup(n[0], n[1], i.lo[0], i.hi[0], i.lo[1], i.hi[1], o.lo[0], o.hi[0], o.lo[1], o.hi[1], perm, fs, ss, rs);
#endif
}
static void tune(F *f, const int *n, B i, B o, int perm, int &fs, int &ss, int &rs, int flag, int niter, double tmax, int tflag) {
#if DIM == 3
  f->tune(n[0], n[1], n[2], i.lo[0], i.hi[0], i.lo[1], i.hi[1], i.lo[2], i.hi[2], o.lo[0], o.hi[0], o.lo[1], o.hi[1], o.lo[2], o.hi[2], perm, fs, ss, rs, flag, niter, tmax, tflag);
#else
  f->tune(n[0], n[1], i.lo[0], i.hi[0], i.lo[1], i.hi[1], o.lo[0], o.hi[0], o.lo[1], o.hi[1], perm, fs, ss, rs, flag, niter, tmax, tflag);
#endif
}
int main(int c, char **v) {
  MPI_Init(&c, &v); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &P); int bad = 0, fs, ss, rs; const char *m = v[1]; int n[3] = {4, 6, DIM == 3 ? 5 : 1};
  for (int d = 0; d < DIM; d++) if (c > 2 + d) n[d] = atoi(v[2 + d]);
  if (!strcmp(m, "grid")) { // process grids multiply to P
    F *f = new F(MPI_COMM_WORLD, prec); f->exchange = 1; setup(f, n, slab(n, 0), slab(n, 1), 0, fs, ss, rs);
#if DIM == 3
    bad = f->npbrick1 * f->npbrick2 * f->npbrick3 != P || f->npfast1 * f->npfast2 * f->npfast3 != P || f->npmid1 * f->npmid2 * f->npmid3 != P || f->npslow1 * f->npslow2 * f->npslow3 != P;
#else
    bad = f->npbrick1 * f->npbrick2 != P;
#endif
    delete f;
  } else if (!strcmp(m, "outside")) { // a tile that reaches beyond the grid must be rejected: reaching the end is the failure
    B b = slab(n, 1); if (me == P - 1) { b.lo[1]++; b.hi[1]++; } F *f = new F(MPI_COMM_WORLD, prec); setup(f, n, b, b, 0, fs, ss, rs); printf("accepted\n"); fflush(stdout); PMPI_Abort(MPI_COMM_WORLD, 77);
  } else if (!strcmp(m, "comms")) { // communicators are released
    for (int t = 0; t < 2; t++) { F *f = new F(MPI_COMM_WORLD, prec); f->collective = 1; f->exchange = 1; setup(f, n, slab(n, 0), slab(n, DIM - 1), 0, fs, ss, rs); delete f; } bad = ncreate != nfree;
  } else if (!strcmp(m, "tune")) { // with a scripted clock tune() must pick the fastest trials
    std::vector<double> s; for (int i = 0; i < 400; i++) s.push_back(i < atoi(v[6]) ? atof(v[7]) : atof(v[8])); script = &s[0]; nscript = s.size(); usefake = 1;
    F *f = new F(MPI_COMM_WORLD, prec); tune(f, n, slab(n, 0), slab(n, 1), 0, fs, ss, rs, 0, 1, 0.0, 0); usefake = 0;
    int b = -1, q = -1; for (int i = 0; i < f->ntrial; i++) { if (i < 6 && (b < 0 || f->tfft[i] < f->tfft[b])) b = i; if (i >= 6 && (q < 0 || f->tfft[i] < f->tfft[q])) q = i; }
    bad = f->ntrial != 9 || f->cbest != f->cflags[b] || f->ebest != f->eflags[b] || f->pbest != f->pflags[q] || f->packflag != f->pbest || f->besttime != f->tfft[q]; if (bad && !me) printf("trial %d, best pack trial %d: pack %d chosen %d\n", b, q, f->pflags[q], f->pbest); delete f;
  } else if (!strcmp(m, "memory")) { // reported memory is the same after setup() and after tune() with the settings it chose
    F *f = new F(MPI_COMM_WORLD, prec); tune(f, n, slab(n, 0), slab(n, 1), 0, fs, ss, rs, 0, 1, 0.0, 0);
    F *g = new F(MPI_COMM_WORLD, prec); g->collective = f->collective; g->exchange = f->exchange; g->packflag = f->packflag; setup(g, n, slab(n, 0), slab(n, 1), 0, fs, ss, rs);
    bad = f->memusage != g->memusage; if (bad) printf("%ld %ld\n", (long)f->memusage, (long)g->memusage); delete f; delete g;
#ifdef WRAP
  } else if (!strcmp(m, "fortran")) { // remap through the Fortran-callable functions
    B i = slab(n, 2), o = slab(n, 0); void *r; remap3d_create_fortran(MPI_Comm_c2f(MPI_COMM_WORLD), &r); remap3d_setup_fortran(r, i.lo[0] + 1, i.hi[0] + 1, i.lo[1] + 1, i.hi[1] + 1, i.lo[2] + 1, i.hi[2] + 1, o.lo[0] + 1, o.hi[0] + 1, o.lo[1] + 1, o.hi[1] + 1, o.lo[2] + 1, o.hi[2] + 1, 1, 0, 1, &ss, &rs);
    std::vector<FFT_SCALAR> a(i.vol() + 4000), b(o.vol() + 4000, -1); long x = 0; for (int k = i.lo[2]; k <= i.hi[2]; k++) for (int j = i.lo[1]; j <= i.hi[1]; j++) for (int q = i.lo[0]; q <= i.hi[0]; q++) a[x++] = (k * 100 + j) * 100 + q;
    remap3d_remap(r, &a[0], &b[0], 0, 0); x = 0; for (int k = o.lo[2]; k <= o.hi[2]; k++) for (int j = o.lo[1]; j <= o.hi[1]; j++) for (int q = o.lo[0]; q <= o.hi[0]; q++) if (b[x++] != (k * 100 + j) * 100 + q) bad++;
    remap3d_destroy(r);
#endif
  }
  int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (!me) printf("%d wrong\n", all); MPI_Finalize(); return all ? 1 : 0;
}
