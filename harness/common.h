// shared by all harnesses
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vp.h"
#include "mpi.h"
#include "vpmpi.h"
#define VP_MAXP VPM_MAXP

struct Box { int lo[3], hi[3]; };
static inline int box_n(const Box *b, int d) { return b->hi[d] - b->lo[d] + 1; }
static inline int box_empty(const Box *b) { return box_n(b, 0) == 0 | box_n(b, 1) == 0 | box_n(b, 2) == 0; }
static inline int box_vol(const Box *b) { return box_n(b, 0) * box_n(b, 1) * box_n(b, 2); }
static inline int box_has(const Box *b, int i, int j, int k) { return (i >= b->lo[0]) & (i <= b->hi[0]) & (j >= b->lo[1]) & (j <= b->hi[1]) & (k >= b->lo[2]) & (k <= b->hi[2]); }
static inline int box_disjoint(const Box *a, const Box *b) {
  return box_empty(a) | box_empty(b) | (a->hi[0] < b->lo[0]) | (b->hi[0] < a->lo[0]) | (a->hi[1] < b->lo[1]) | (b->hi[1] < a->lo[1]) | (a->hi[2] < b->lo[2]) | (b->hi[2] < a->lo[2]);
}
// position of global point (i,j,k) in the box's storage; axis order chosen by permute
static inline int box_index(const Box *b, int i, int j, int k, int permute) {
  int x = i - b->lo[0], y = j - b->lo[1], z = k - b->lo[2];
  int nx = box_n(b, 0), ny = box_n(b, 1), nz = box_n(b, 2);
  if (permute == 0) return (z * ny + y) * nx + x;
  if (permute == 1) return (x * nz + z) * ny + y;
  return (y * nx + x) * nz + z;
}
// An arbitrary (guillotine) tiling of an n[0] x n[1] x n[2] grid by P boxes, any of which may be empty:
// start from the whole grid and split a box P-1 times.  For P <= 4 every tiling by boxes has this form.
// all = 0 leaves out other ways to write the same tiling (an empty box is then empty along its first axis)
static inline void sym_tiling(Box *b, int P, const int *n, const int *mx, const char *name, int emptyform, int all) {
  for (int d = 0; d < 3; d++) { b[0].lo[d] = 0; b[0].hi[d] = n[d] - 1; }
  int split = vp_param("SPLIT", 1);
  for (int t = 1; t < P; t++) {
    int s = t > 1 ? vp_choice(name, 0, t - 1) : 0;
    int nd = 0, ax[3]; for (int d = 0; d < 3; d++) if (mx[d] > 1) ax[nd++] = d;
    int a = nd > 1 ? vp_choice(name, 0, nd - 1) : 0;
    int m = mx[ax[a]];
    int cut = vp_sym_int(name, 0, m); int swap = vp_choice(name, 0, 1);
    for (int x = 0; x < t; x++) if (x == s) {
      b[t] = b[x];
      for (int q = 0; q < nd; q++) if (q == a) {
        int d = ax[q]; int inner = !all & (swap | (a > 0));
        vp_assume(cut >= b[x].lo[d] + inner && cut <= b[x].hi[d] + 1 - inner);
        if (split) cut = vp_split(cut);
        if (swap) { b[x].lo[d] = cut; b[t].hi[d] = cut - 1; }
        else { b[x].hi[d] = cut - 1; b[t].lo[d] = cut; }
      }
    }
  }
  // what a process that owns nothing passes: an empty range somewhere, or 0..-1 in every dimension
  if (emptyform) for (int p = 0; p < P; p++) if (box_empty(&b[p])) for (int d = 0; d < (mx[2] > 1 ? 3 : 2); d++) { b[p].lo[d] = 0; b[p].hi[d] = -1; }
}
// Block layouts: every process grid px*py*pz = P, blocks as even as possible, ranks in natural or reversed order
static inline void block_layout(Box *b, int P, const int *n, const char *name, int dim) {
  int cnt = 0, pp[64][3];
  for (int x = 1; x <= P; x++) for (int y = 1; x * y <= P; y++) { if (P % (x * y)) continue; int z = P / (x * y); if (dim == 2 && z > 1) continue; if (cnt < 64) { pp[cnt][0] = x; pp[cnt][1] = y; pp[cnt][2] = z; cnt++; } }
  int c = vp_choice(name, 0, cnt - 1), rev = vp_choice(name, 0, vp_param("REV", 0));
  for (int p = 0; p < P; p++) { int r = rev ? P - 1 - p : p, q[3] = {r % pp[c][0], r / pp[c][0] % pp[c][1], r / pp[c][0] / pp[c][1]};
    for (int d = 0; d < 3; d++) { b[p].lo[d] = q[d] * n[d] / pp[c][d]; b[p].hi[d] = (q[d] + 1) * n[d] / pp[c][d] - 1; } }
}
// Slabs: the grid cut across one axis into P slabs of 0..SLABMAX planes each, ranks rotated by any amount
static inline void slab_layout(Box *b, int P, const int *n, const char *name, int dim) {
  int ax[3], na = 0; for (int d = 0; d < dim; d++) if (n[d] >= P) ax[na++] = d;
  int a = na > 1 ? ax[vp_choice(name, 0, na - 1)] : na ? ax[0] : 0, at = 0, rot = vp_choice(name, 0, vp_param("ROT", 0)), mn = vp_param("SLABMIN", 1), mxw = vp_param("SLABMAX", 2);
  for (int t = 0; t < P; t++) {
    int left = n[a] - at, lo = left - mxw * (P - 1 - t), hi = left - mn * (P - 1 - t); if (lo < mn) lo = mn; if (hi > mxw) hi = mxw;
    int w = vp_choice(name, lo, hi), p = (t + rot) % P;
    for (int d = 0; d < 3; d++) { b[p].lo[d] = 0; b[p].hi[d] = n[d] - 1; }
    b[p].lo[a] = at; b[p].hi[a] = at + w - 1; at += w;
  }
}
// the layout family chosen by parameter FAM: 0 all tilings, 1 block layouts, 2 slabs
static inline void sym_layout(Box *b, int P, const int *n, const int *mx, const char *name, int emptyform, int all) {
  if (vp_param("FAM", 0) == 2) slab_layout(b, P, n, name, mx[2] > 1 ? 3 : 2);
  else if (vp_param("FAM", 0)) block_layout(b, P, n, name, mx[2] > 1 ? 3 : 2); else sym_tiling(b, P, n, mx, name, emptyform, all);
}

// COMM=1: the library runs on a communicator of its own with the ranks reversed, one more process takes no part
static int extra_ranks() { return vp_param("COMM", 0) ? 1 : 0; }
static MPI_Comm use_comm(int me, int P, int *rank) {
  if (!vp_param("COMM", 0)) { *rank = me; return MPI_COMM_WORLD; }
  MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, me < P ? 0 : 1, -me, &c); if (me >= P) { *rank = -1; return c; } MPI_Comm_rank(c, rank); return c;
}
// runs ranks none of which may end through exit() or MPI_Abort: the use is valid
static void run_valid(int P, void (*fn)(int, void *), void *arg) {
  vp_run_ranks(P, fn, arg); int ok = !vp_halted(); for (int p = 0; p < P; p++) ok = ok & (vp_exited(p) == 0); vp_assert(ok, "a valid use ends in an error");
}
static void done_comm(MPI_Comm c) { if (c != MPI_COMM_WORLD) MPI_Comm_free(&c); }
#endif
