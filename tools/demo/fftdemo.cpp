// Distributed FFT compared with a direct DFT.  args: NX NY NZ PERM EXCH COLL PACK MEM INPLACE SCALED OPS layoutfile
// OPS: letters: f/b compute, s toggles scaling (after setup), r/q only_remaps forward/backward, o/p all stages by only_one_remap forward/backward, x/y compute forward/backward with remaponly
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include <string.h>
#include <complex>
#include <vector>
#if DIM == 3
#include "fft3d.h"
typedef FFTMPI_NS::FFT3d F;
#else
#include "fft2d.h"
typedef FFTMPI_NS::FFT2d F;
#endif
typedef std::complex<double> C;
struct B { int lo[3], hi[3]; int n(int d) const { return hi[d] - lo[d] + 1; } long vol() const { return (long)n(0) * n(1) * n(2); } };
static long idx(const B &b, int i, int j, int k, int p) { int x = i - b.lo[0], y = j - b.lo[1], z = k - b.lo[2]; if (p == 0) return ((long)z * b.n(1) + y) * b.n(0) + x; if (p == 1) return ((long)x * b.n(2) + z) * b.n(1) + y; return ((long)y * b.n(0) + x) * b.n(2) + z; }
static std::vector<C> dft(const std::vector<C> &a, const int *n, int dir) {
  std::vector<C> r = a; int st[3] = {1, n[0], n[0] * n[1]};
  for (int d = 0; d < 3; d++) { std::vector<C> t = r; for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) { int q[3] = {i, j, k}; int o = i + n[0] * (j + n[1] * k); int base = o - q[d] * st[d]; C s = 0; for (int m = 0; m < n[d]; m++) s += r[base + m * st[d]] * std::polar(1.0, -dir * 2 * M_PI * ((long)m * q[d] % n[d]) / n[d]); t[o] = s; } r = t; }
  return r;
}
int main(int c, char **v) {
  MPI_Init(&c, &v); int me, P; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &P);
  int n[3] = {atoi(v[1]), atoi(v[2]), DIM == 3 ? atoi(v[3]) : 1}, perm = atoi(v[4]), inpl = atoi(v[9]), scaled = atoi(v[10]);
  FILE *fl = fopen(v[12], "r"); B in, out; for (int r = 0; r <= me; r++) for (int q = 0; q < 2; q++) { B &b = q ? out : in; for (int d = 0; d < 3; d++) { b.lo[d] = b.hi[d] = 0; if (d < DIM) if (fscanf(fl, "%d %d", &b.lo[d], &b.hi[d]) != 2) return 0; } }
  int bad = 0, prec = sizeof(FFT_SCALAR) == 4 ? 1 : 2; long N = (long)n[0] * n[1] * n[2]; const int G = 4096; int fs = 0, ss = 0, rs = 0;
  F *f = new F(MPI_COMM_WORLD, prec); f->exchange = atoi(v[5]); f->collective = atoi(v[6]); f->packflag = atoi(v[7]); f->memoryflag = atoi(v[8]); f->scaled = scaled;
#if DIM == 3
  f->setup(n[0], n[1], n[2], in.lo[0], in.hi[0], in.lo[1], in.hi[1], in.lo[2], in.hi[2], out.lo[0], out.hi[0], out.lo[1], out.hi[1], out.lo[2], out.hi[2], perm, fs, ss, rs);
#else
  f->setup(n[0], n[1], in.lo[0], in.hi[0], in.lo[1], in.hi[1], out.lo[0], out.hi[0], out.lo[1], out.hi[1], perm, fs, ss, rs);
#endif
  std::vector<FFT_SCALAR> s(G + ss + G, -7), q(G + rs + G, -7); if (!f->memoryflag) f->setup_memory(&s[G], &q[G]);
  int opn = 0;
  for (char *o = v[11]; *o; o++, opn++) {
    if (*o == 's') { f->scaled = scaled = !scaled; continue; }
    if (*o == 'e') { f->exchange = !f->exchange; continue; }
    int dir = strchr("frox", *o) ? 1 : -1, full = *o == 'f' || *o == 'b'; B &src = dir > 0 ? in : out, &dst = dir > 0 ? out : in; int ps = dir > 0 ? 0 : perm, pd = dir > 0 ? perm : 0;
    std::vector<C> g(N); for (long i = 0; i < N; i++) g[i] = C(cos(1.7 * i + opn), sin(2.3 * i * i + 1));
    std::vector<C> e = g; if (full) { e = dft(g, n, dir); if (dir < 0 && scaled) for (auto &z : e) z /= (double)N; }
    std::vector<FFT_SCALAR> a(G + 2 * (inpl ? (long)fs : src.vol()) + G, -7), b(inpl ? 0 : G + 2 * (long)fs + G, -7); FFT_SCALAR *pi = &a[G], *po = inpl ? pi : &b[G];
    for (int k = src.lo[2]; k <= src.hi[2]; k++) for (int j = src.lo[1]; j <= src.hi[1]; j++) for (int i = src.lo[0]; i <= src.hi[0]; i++) { long x = idx(src, i, j, k, ps); C z = g[i + n[0] * (j + (long)n[1] * k)]; pi[2 * x] = z.real(); pi[2 * x + 1] = z.imag(); }
    if (full) f->compute(pi, po, dir);
    else if (*o == 'r' || *o == 'q') f->only_remaps(pi, po, dir);
    else if (*o == 'x' || *o == 'y') { f->remaponly = 1; f->compute(pi, po, dir); f->remaponly = 0; }
    else { int last = DIM == 3 ? 4 : 3; FFT_SCALAR *cur = pi; for (int w = 1; w <= last; w++) { f->only_one_remap(cur, po, dir, dir > 0 ? w : last + 1 - w); cur = po; } }
    for (int k = dst.lo[2]; k <= dst.hi[2]; k++) for (int j = dst.lo[1]; j <= dst.hi[1]; j++) for (int i = dst.lo[0]; i <= dst.hi[0]; i++) { long x = idx(dst, i, j, k, pd); C z = e[i + n[0] * (j + (long)n[1] * k)]; double tol = (prec == 1 ? 1e-4 : 1e-10) * (full && !(dir < 0 && scaled) ? N : 1); if (!(std::abs(C(po[2 * x], po[2 * x + 1]) - z) <= tol)) bad++; }
    for (int i = 0; i < G; i++) { if (a[i] != -7 || a[a.size() - 1 - i] != -7 || s[i] != -7 || s[s.size() - 1 - i] != -7 || q[i] != -7 || q[q.size() - 1 - i] != -7) bad++; if (!inpl && (b[i] != -7 || b[b.size() - 1 - i] != -7)) bad++; }
  }
  delete f;
  int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (!me) printf("%d wrong\n", all); MPI_Finalize(); return all ? 1 : 0;
}
