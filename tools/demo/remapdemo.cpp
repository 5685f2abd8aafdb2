// Remap of labelled data between two layouts, checked element by element.
// args: NQTY PERM PACK COLL MEM INPLACE REPS layoutfile (one line per rank: in box, out box)
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <vector>
#if DIM == 3
#include "remap3d.h"
typedef FFTMPI_NS::Remap3d R;
#else
#include "remap2d.h"
typedef FFTMPI_NS::Remap2d R;
#endif
struct B { int lo[3], hi[3]; int n(int d) const { return hi[d] - lo[d] + 1; } long vol() const { return (long)n(0) * n(1) * n(2); } };
static long idx(const B &b, int i, int j, int k, int p) { int x = i - b.lo[0], y = j - b.lo[1], z = k - b.lo[2]; if (p == 0) return ((long)z * b.n(1) + y) * b.n(0) + x; if (p == 1) return ((long)x * b.n(2) + z) * b.n(1) + y; return ((long)y * b.n(0) + x) * b.n(2) + z; }
int main(int c, char **v) {
  MPI_Init(&c, &v); int me, P; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &P);
  int nq = atoi(v[1]), perm = atoi(v[2]), pack = atoi(v[3]), coll = atoi(v[4]), mem = atoi(v[5]), inpl = atoi(v[6]), reps = atoi(v[7]);
  FILE *f = fopen(v[8], "r"); B in, out; for (int r = 0; r <= me; r++) { for (int q = 0; q < 2; q++) { B &b = q ? out : in; for (int d = 0; d < 3; d++) { b.lo[d] = b.hi[d] = 0; if (d < DIM) if (fscanf(f, "%d %d", &b.lo[d], &b.hi[d]) != 2) return 0; } } }
  int bad = 0; const int G = 4096;
  { R r(MPI_COMM_WORLD); r.collective = coll; r.packflag = pack; int ss = 0, rs = 0;
#if DIM == 3
  r.setup(in.lo[0], in.hi[0], in.lo[1], in.hi[1], in.lo[2], in.hi[2], out.lo[0], out.hi[0], out.lo[1], out.hi[1], out.lo[2], out.hi[2], nq, perm, mem, ss, rs);
#else
  r.setup(in.lo[0], in.hi[0], in.lo[1], in.hi[1], out.lo[0], out.hi[0], out.lo[1], out.hi[1], nq, perm, mem, ss, rs);
#endif
  long ni = in.vol() * nq, no = out.vol() * nq;
  for (int t = 0; t < reps; t++) {
    std::vector<FFT_SCALAR> a(G + (inpl ? (ni > no ? ni : no) : ni) + G, -7), b(inpl ? 0 : G + no + G, -7), s(G + ss + G, -7), q(G + rs + G, -7);
    FFT_SCALAR *pi = &a[G], *po = inpl ? pi : &b[G];
    for (int k = in.lo[2]; k <= in.hi[2]; k++) for (int j = in.lo[1]; j <= in.hi[1]; j++) for (int i = in.lo[0]; i <= in.hi[0]; i++) for (int z = 0; z < nq; z++) pi[idx(in, i, j, k, 0) * nq + z] = ((k * 32 + j) * 32 + i) * 8 + z + 1;
    if (getenv("LATE") && atoi(getenv("LATE")) == me) usleep(700000);
    r.remap(pi, po, &s[G], &q[G]);
    for (int k = out.lo[2]; k <= out.hi[2]; k++) for (int j = out.lo[1]; j <= out.hi[1]; j++) for (int i = out.lo[0]; i <= out.hi[0]; i++) for (int z = 0; z < nq; z++) if (po[idx(out, i, j, k, perm) * nq + z] != ((k * 32 + j) * 32 + i) * 8 + z + 1) bad++;
    for (int i = 0; i < G; i++) { if (a[i] != -7 || a[a.size() - 1 - i] != -7 || s[i] != -7 || s[s.size() - 1 - i] != -7 || q[i] != -7 || q[q.size() - 1 - i] != -7) bad++; if (!inpl && (b[i] != -7 || b[b.size() - 1 - i] != -7)) bad++; }
  } }
  int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (!me) printf("%d wrong\n", all); MPI_Finalize(); return all ? 1 : 0;
}
