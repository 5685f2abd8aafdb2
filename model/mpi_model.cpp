// MPI model: executed symbolically by the engine and natively in replays.
//  - collectives: every member hands its contribution to every member (rendezvous, kinds/counts must agree)
//  - point-to-point: synchronous sends; data reach the receive buffer only when the receive completes;
//    the receive buffer holds poison in between and must not be touched
//  - Waitany: arbitrary choice among the completed requests
#include <string.h>
#include "vp.h"
#include "mpi.h"
#include "vpmpi.h"

struct vp_mpi_state vp_mpi;
#define M vp_mpi
enum { K_BARRIER = 1, K_BCAST, K_ALLREDUCE, K_REDUCE, K_ALLGATHER, K_GATHER, K_ALLTOALL, K_ALLTOALLV, K_CREATE, K_SPLIT, K_DUP };

static inline int tsize(int t) { return t & 15; }
static inline int isfp(int t) { return (t >> 4) == 8 || (t >> 4) == 9; }
void vpm_init(int P) { M.P = P; }

static inline int me() { return vp_rank(); }
// world rank -> position in communicator (or -1)
static int pos_in(int c, int w) { return c == MPI_COMM_WORLD ? w : c == MPI_COMM_SELF ? (w == me() ? 0 : -1) : M.cpos[c][w]; }
static int csize(int c) { return c == MPI_COMM_WORLD ? M.P : c == MPI_COMM_SELF ? 1 : M.csize[c]; }
static int ctxof(int c) { return c == MPI_COMM_WORLD ? 1 : c == MPI_COMM_SELF ? 2 : M.cctx[c]; }
static void checkcomm(int c) { M.ncall[me()]++;
  vp_assert(c > 0 && c < VPM_MAXC && (c <= 2 || M.clive[c]), "MPI call on an invalid or freed communicator");
  vp_assert(!M.finalized[me()], "MPI call after MPI_Finalize");
}
static void copyany(void *d, const void *s, long n) { if (n > 0) memcpy(d, s, n); }

// ---- pairwise exchange used by all collectives
struct pwait { int src, dst; };
static int arrived(void *a) { struct pwait *p = (struct pwait *)a; return M.sc[p->src][p->dst] > M.rc[p->dst][p->src]; }
static void post(int dst, int kind, int count, int typ, int op, int root, int ctx, void *data) {
  int s = me(); int par = M.sc[s][dst] & 1;
  M.skind[s][dst][par] = kind; M.scount[s][dst][par] = count; M.styp[s][dst][par] = typ; M.sop[s][dst][par] = op; M.sroot[s][dst][par] = root; M.sctx[s][dst][par] = ctx; M.sdata[s][dst][par][kind] = data;
  M.sc[s][dst]++;
}
static int await(int src) { // wait for the next contribution of src, return its parity
  struct pwait p; p.src = src; p.dst = me(); vp_block(arrived, &p, 0);
  return M.rc[me()][src] & 1;
}
static void done(int src) { M.rc[me()][src]++; }
static void match(int src, int par, int kind, int count, int typ, int op, int root, int ctx) {
  int m = me();
  vp_assert(M.skind[src][m][par] == kind && M.sctx[src][m][par] == ctx, "mismatched collective operations");
  vp_assert(M.scount[src][m][par] == count && M.sop[src][m][par] == op && M.sroot[src][m][par] == root && tsize(M.styp[src][m][par]) == tsize(typ), "mismatched arguments of a collective operation");
}
static void *shadow(const void *buf, long n) { if (n <= 0) return 0; void *p = vp_malloc(n); copyany(p, buf, n); return p; }

extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalize(void) { M.finalized[me()] = 1; return 0; }
int MPI_Finalized(int *f) { *f = M.finalized[me()]; return 0; }
int MPI_Abort(MPI_Comm, int) { M.aborted = 1; vp_halt(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { checkcomm(c); *r = pos_in(c, me()); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { checkcomm(c); *n = csize(c); return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f - 1000; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c + 1000; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = tsize(t); return 0; }
int MPI_Get_processor_name(char *s, int *n) { s[0] = 0; *n = 0; return 0; }
// timemode 0: the clock stands still; 1: each process has its own clock, arbitrary advances of timemin..timemax ticks
double MPI_Wtime(void) { if (M.timemode) { M.now[me()] = M.now[me()] + vp_fresh_time(M.timemin, M.timemax); return M.now[me()]; } return 1.0; }

int MPI_Barrier(MPI_Comm c) {
  checkcomm(c); int ctx = ctxof(c);
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, K_BARRIER, 0, 0, 0, 0, ctx, 0);
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) { int par = await(w); match(w, par, K_BARRIER, 0, 0, 0, 0, ctx); done(w); }
  return 0;
}
int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
  checkcomm(c); int ctx = ctxof(c); int amroot = pos_in(c, me()) == root;
  void *s = 0; if (amroot) s = shadow(buf, (long)n * tsize(t));
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, K_BCAST, n, t, 0, root, ctx, s);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int par = await(w); match(w, par, K_BCAST, n, t, 0, root, ctx); if (p == root && !amroot) copyany(buf, M.sdata[w][me()][par][K_BCAST], (long)n * tsize(t)); done(w); } }
  return 0;
}
#define REDUCE(TY) { TY *o = (TY *)out; TY *in = (TY *)data; for (int i = 0; i < n; i++) { if (first) o[i] = in[i]; else switch (op) { \
   case MPI_MAX: if (in[i] > o[i]) o[i] = in[i]; break; case MPI_MIN: if (in[i] < o[i]) o[i] = in[i]; break; case MPI_SUM: o[i] = o[i] + in[i]; break; case MPI_PROD: o[i] = o[i] * in[i]; break; \
   case MPI_LOR: o[i] = (o[i] || in[i]) ? 1 : 0; break; case MPI_LAND: o[i] = (o[i] && in[i]) ? 1 : 0; break; default: vp_assert(0, "reduction operation not modelled"); } } }
static void reduce_into(void *out, void *data, int n, int t, int op, int first) {
  switch (t >> 4) {
    case 3: case 4: REDUCE(int) break;
    case 5: case 6: case 7: REDUCE(int64_t) break;
    case 8: REDUCE(float) break;
    case 9: REDUCE(double) break;
    default: vp_assert(0, "reduction datatype not modelled");
  }
}
static int reduce_common(const void *s, void *r, int n, int t, int op, int root, int c, int kind) {
  checkcomm(c); int ctx = ctxof(c); if (s == MPI_IN_PLACE) s = r;
  void *sh = shadow(s, (long)n * tsize(t)); int first = 1;
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, kind, n, t, op, root, ctx, sh);
  int want = kind == K_ALLREDUCE || pos_in(c, me()) == root;
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) { int par = await(w); match(w, par, kind, n, t, op, root, ctx); if (want) { reduce_into(r, M.sdata[w][me()][par][kind], n, t, op, first); first = 0; } done(w); }
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common(s, r, n, t, op, 0, c, K_ALLREDUCE); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_common(s, r, n, t, op, root, c, K_REDUCE); }
static int gather_common(const void *s, int n, int t, void *r, int rn, int rt, int root, int c, int kind) {
  checkcomm(c); int ctx = ctxof(c); long nb = (long)n * tsize(t), rb = (long)rn * tsize(rt); int want = kind == K_ALLGATHER || pos_in(c, me()) == root;
  if (s == MPI_IN_PLACE) { s = (char *)r + pos_in(c, me()) * rb; n = rn; t = rt; nb = rb; }
  void *sh = shadow(s, nb);
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, kind, (int)nb, MPI_BYTE, 0, root, ctx, sh);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int par = await(w); match(w, par, kind, (int)nb, MPI_BYTE, 0, root, ctx); if (want) { vp_assert(nb == rb, "gather counts differ"); copyany((char *)r + p * rb, M.sdata[w][me()][par][kind], nb); } done(w); } }
  return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_common(s, n, t, r, rn, rt, 0, c, K_ALLGATHER); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_common(s, n, t, r, rn, rt, root, c, K_GATHER); }
int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  checkcomm(c); int ctx = ctxof(c); int sz = tsize(st), rz = tsize(rt);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int n = sn[p]; vp_assert(n >= 0, "negative send count"); void *sh = 0; if (n > 0) sh = shadow((const char *)s + (long)sd[p] * sz, (long)n * sz); post(w, K_ALLTOALLV, n * sz, MPI_BYTE, 0, 0, ctx, sh); } }
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int par = await(w); int n = rn[p]; vp_assert(n >= 0, "negative receive count"); match(w, par, K_ALLTOALLV, n * rz, MPI_BYTE, 0, 0, ctx); if (n > 0) copyany((char *)r + (long)rd[p] * rz, M.sdata[w][me()][par][K_ALLTOALLV], (long)n * rz); done(w); } }
  return 0;
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  checkcomm(c); int ctx = ctxof(c); int sz = tsize(st), rz = tsize(rt);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { void *sh = shadow((const char *)s + (long)p * n * sz, (long)n * sz); post(w, K_ALLTOALL, n * sz, MPI_BYTE, 0, 0, ctx, sh); } }
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int par = await(w); match(w, par, K_ALLTOALL, rn * rz, MPI_BYTE, 0, 0, ctx); copyany((char *)r + (long)p * rn * rz, M.sdata[w][me()][par][K_ALLTOALL], (long)rn * rz); done(w); } }
  return 0;
}

// ---- groups and communicators
static int newgroup() { int g = vp_uid(1); vp_assert(g < VPM_MAXG, "model bound: too many groups"); M.glive[g] = 1; M.grank[g] = me(); return g; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *out) {
  checkcomm(c); int g = newgroup(); M.gsize[g] = csize(c);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) M.gmem[g][p] = w; }
  *out = g; return 0;
}
int MPI_Group_incl(MPI_Group g0, int n, const int *ranks, MPI_Group *out) {
  vp_assert(g0 > 0 && g0 < VPM_MAXG && M.glive[g0], "MPI call on an invalid group");
  vp_assert(n >= 0 && n <= M.gsize[g0], "group size out of range");
  int g = newgroup(); M.gsize[g] = n;
  for (int i = 0; i < M.P; i++) if (i < n) { int r = ranks[i]; vp_assert(r >= 0 && r < M.gsize[g0], "group member out of range"); if (r >= 0 && r < M.P) M.gmem[g][i] = M.gmem[g0][r]; }
  *out = g; return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { *n = M.gsize[g]; return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { *r = MPI_UNDEFINED; for (int i = 0; i < M.P; i++) if (i < M.gsize[g] && M.gmem[g][i] == me()) *r = i; return 0; }
int MPI_Group_free(MPI_Group *g) { if (*g > 0) { vp_assert(M.glive[*g], "group freed twice"); M.glive[*g] = 0; } *g = MPI_GROUP_NULL; return 0; }
static int newcomm_(int n, int ctx) { int c = vp_uid(2) + 2; vp_assert(c < VPM_MAXC, "model bound: too many communicators"); M.crank[c] = me(); M.csize[c] = n; M.cctx[c] = ctx; for (int w = 0; w < M.P; w++) M.cpos[c][w] = -1; return c; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out) {
  checkcomm(c); int ctx = ctxof(c); int m = me();
  vp_assert(g == MPI_GROUP_EMPTY || (g > 0 && g < VPM_MAXG && M.glive[g]), "MPI call on an invalid group");
  int n = g ? M.gsize[g] : 0;
  // everybody learns everybody's ordered member list
  int *list = (int *)vp_malloc((VPM_MAXP + 1) * sizeof(int)); list[VPM_MAXP] = n;
  for (int i = 0; i < M.P; i++) list[i] = i < n ? M.gmem[g][i] : -1;
  int epoch = M.epoch[m][c]; M.epoch[m][c]++;
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, K_CREATE, 0, 0, 0, 0, ctx, list);
  int mine = 0; for (int i = 0; i < M.P; i++) if (i < n && list[i] == m) mine = 1;
  int k = newcomm_(n, 16 + epoch * 64 + ctx * 4096);
  for (int i = 0; i < M.P; i++) if (i < n) { int w = list[i]; if (w >= 0 && w < M.P) M.cpos[k][w] = i; }
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) {
    int par = await(w); match(w, par, K_CREATE, 0, 0, 0, 0, ctx); int *o = (int *)M.sdata[w][m][par][K_CREATE];
    // members of my group must pass the same group; other groups must not contain me
    int inmine = 0, meIn = 0; for (int i = 0; i < M.P; i++) { if (i < n && list[i] == w) inmine = 1; if (i < o[VPM_MAXP] && o[i] == m) meIn = 1; }
    if (inmine && mine) { int same = o[VPM_MAXP] == n; for (int i = 0; i < M.P; i++) if (i < n && o[i] != list[i]) same = 0; vp_assert(same, "MPI_Comm_create: processes of one group pass different groups"); }
    if (!inmine) vp_assert(!meIn, "MPI_Comm_create: overlapping groups");
    done(w);
  }
  if (mine) { M.clive[k] = 1; M.ncomm[m]++; *out = k; } else *out = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  checkcomm(c); int ctx = ctxof(c); int m = me();
  int *ck = (int *)vp_malloc(2 * sizeof(int)); ck[0] = color; ck[1] = key; int cols[VPM_MAXP], keys[VPM_MAXP];
  int epoch = M.epoch[m][c]; M.epoch[m][c]++;
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, K_SPLIT, 0, 0, 0, 0, ctx, ck);
  for (int w = 0; w < M.P; w++) { cols[w] = MPI_UNDEFINED; keys[w] = 0; if (pos_in(c, w) >= 0) { int par = await(w); match(w, par, K_SPLIT, 0, 0, 0, 0, ctx); int *o = (int *)M.sdata[w][m][par][K_SPLIT]; cols[w] = o[0]; keys[w] = o[1]; done(w); } }
  int n = 0; for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0 && cols[w] == color) n++;
  int k = newcomm_(n, 16 + epoch * 64 + ctx * 4096);
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0 && cols[w] == color) { int p = 0; for (int v = 0; v < M.P; v++) if (pos_in(c, v) >= 0 && cols[v] == color && (keys[v] < keys[w] || (keys[v] == keys[w] && pos_in(c, v) < pos_in(c, w)))) p++; M.cpos[k][w] = p; }
  if (color != MPI_UNDEFINED) { M.clive[k] = 1; M.ncomm[m]++; *out = k; } else *out = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
  checkcomm(c); int ctx = ctxof(c); int m = me(); int epoch = M.epoch[m][c]; M.epoch[m][c]++;
  for (int w = 0; w < M.P; w++) if (pos_in(c, w) >= 0) post(w, K_DUP, 0, 0, 0, 0, ctx, 0);
  int k = newcomm_(csize(c), 16 + epoch * 64 + ctx * 4096);
  for (int w = 0; w < M.P; w++) { int p = pos_in(c, w); if (p >= 0) { int par = await(w); match(w, par, K_DUP, 0, 0, 0, 0, ctx); done(w); M.cpos[k][w] = p; } }
  M.clive[k] = 1; M.ncomm[m]++; *out = k; return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  checkcomm(*c); vp_assert(*c > 2, "MPI_Comm_free of a predefined communicator");
  if (*c > 2) { M.clive[*c] = 0; M.ncomm[me()]--; } *c = MPI_COMM_NULL; return 0;
}

// ---- point-to-point.  request handle: 0 null, k send request k of this rank, SEND|k ...
static int world_of(int c, int r) { if (c == MPI_COMM_WORLD) return r; int x = -1; for (int w = 0; w < M.P; w++) if (pos_in(c, w) == r) x = w; return x; }
// requests are numbered globally: vp_uid(3)
static void try_match_send(int q) { // send q just posted: look for the first open matching receive
  int hit = 0; int hi = M.nreq;
  for (int k = 1; k <= hi; k++) if (!hit && M.ropen[k] && M.rdst[k] == M.rdst[q] && M.rsrc[k] == M.rsrc[q] && M.rctx[k] == M.rctx[q] && (M.rtag[k] == M.rtag[q] || M.rtag[k] == MPI_ANY_TAG)) {
    hit = 1; M.ropen[k] = 0; M.sopen[q] = 0; M.rdata[k] = M.rdata[q]; M.rgot[k] = M.rcnt[q]; M.rdone[k] = 1; M.rdone[q] = 1;
    vp_assert(M.rcnt[q] <= M.rcnt[k], "message longer than the posted receive");
  }
}
static void try_match_recv(int k) {
  int hit = 0; int hi = M.nreq;
  for (int q = 1; q <= hi; q++) if (!hit && M.sopen[q] && M.rdst[k] == M.rdst[q] && M.rsrc[k] == M.rsrc[q] && M.rctx[k] == M.rctx[q] && (M.rtag[k] == M.rtag[q] || M.rtag[k] == MPI_ANY_TAG)) {
    hit = 1; M.ropen[k] = 0; M.sopen[q] = 0; M.rdata[k] = M.rdata[q]; M.rgot[k] = M.rcnt[q]; M.rdone[k] = 1; M.rdone[q] = 1;
    vp_assert(M.rcnt[q] <= M.rcnt[k], "message longer than the posted receive");
  }
}
static int newreq() { int k = vp_uid(3); if (k > M.nreq) M.nreq = k; vp_assert(k < VPM_MAXR, "model bound: too many requests"); return k; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *rq) {
  checkcomm(c); vp_assert(n >= 0, "negative send count"); vp_assert(dest >= 0 && dest < csize(c), "send to a rank outside the communicator"); vp_assert(tag >= 0, "negative tag");
  int q = newreq(); M.rkind[q] = 1; M.rowner[q] = me(); M.rsrc[q] = me(); M.rdst[q] = world_of(c, dest); M.rtag[q] = tag; M.rctx[q] = ctxof(c); M.rcnt[q] = n * tsize(t); M.rdone[q] = 0;
  M.rdata[q] = shadow(b, (long)n * tsize(t)); M.sopen[q] = 1; M.nopen[me()]++;
  try_match_send(q); *rq = q; return 0;
}
static void poison(void *b, int n, int t) {
  if ((t >> 4) == 9) { double *d = (double *)b; for (int i = 0; i < n; i++) d[i] = vp_tok(VPM_INFLIGHT); }
  else if ((t >> 4) == 8) { float *d = (float *)b; for (int i = 0; i < n; i++) d[i] = (float)vp_tok(VPM_INFLIGHT); }
}
static void untouched(void *b, int n, int t) {
  int ok = 1;
  if ((t >> 4) == 9) { double *d = (double *)b; for (int i = 0; i < n; i++) ok = ok & (vp_tok_code(d[i]) == VPM_INFLIGHT); }
  else if ((t >> 4) == 8) { float *d = (float *)b; for (int i = 0; i < n; i++) ok = ok & (vp_tok_code(d[i]) == VPM_INFLIGHT); }
  vp_assert(ok, "receive buffer modified while the message was in flight");
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq) {
  checkcomm(c); vp_assert(n >= 0, "negative receive count"); vp_assert(src >= 0 && src < csize(c), "receive from a rank outside the communicator");
  int k = newreq(); M.rkind[k] = 2; M.rowner[k] = me(); M.rdst[k] = me(); M.rsrc[k] = world_of(c, src); M.rtag[k] = tag; M.rctx[k] = ctxof(c); M.rcnt[k] = n * tsize(t); M.rtyp[k] = t; M.rbuf[k] = b; M.rdone[k] = 0; M.ropen[k] = 1; M.nopen[me()]++;
  if (n > 0) poison(b, n, t);
  try_match_recv(k); *rq = k; return 0;
}
static void complete(int k) { // k is done: deliver
  if (M.rkind[k] == 2) { if (M.rcnt[k] > 0) untouched(M.rbuf[k], M.rcnt[k] / tsize(M.rtyp[k]), M.rtyp[k]); copyany(M.rbuf[k], M.rdata[k], M.rgot[k]); }
  M.rdone[k] = 2; M.nopen[me()]--;
}
static int reqdone(void *a) { int k = *(int *)a; return M.rdone[k] != 0; }
static void checkreq(int k) { vp_assert(k >= 0 && k < VPM_MAXR && (k == 0 || (M.rowner[k] == me() && M.rkind[k] && M.rdone[k] != 2)), "wait on an invalid request"); }
int MPI_Wait(MPI_Request *rq, MPI_Status *st) { int k = *rq; if (k == MPI_REQUEST_NULL) return 0; checkreq(k); vp_block(reqdone, &k, 0); if (st) { st->MPI_SOURCE = M.rsrc[k]; st->MPI_TAG = M.rtag[k]; } complete(k); *rq = MPI_REQUEST_NULL; return 0; }
int MPI_Test(MPI_Request *rq, int *flag, MPI_Status *st) { *flag = 1; return MPI_Wait(rq, st); }
int MPI_Waitall(int n, MPI_Request *rq, MPI_Status *) { for (int i = 0; i < n; i++) MPI_Wait(&rq[i], MPI_STATUS_IGNORE); return 0; }
struct anyarg { int n; MPI_Request *rq; };
static int anydone(void *a) { struct anyarg *x = (struct anyarg *)a; int any = 0, act = 0; for (int i = 0; i < x->n; i++) { int k = x->rq[i]; if (k != MPI_REQUEST_NULL) { act = 1; if (M.rdone[k] != 0) any = 1; } } return any | !act; }
int MPI_Waitany(int n, MPI_Request *rq, int *idx, MPI_Status *st) {
  struct anyarg x; x.n = n; x.rq = rq; int act = 0;
  for (int i = 0; i < n; i++) { checkreq(rq[i]); if (rq[i] != MPI_REQUEST_NULL) act = 1; }
  if (!act) { *idx = MPI_UNDEFINED; return 0; }
  vp_block(anydone, &x, 1);
  // anymode: 0 any completed request, 1 the first, 2 the last in the list
  int i = 0;
  if (M.anymode == 0) i = vp_sym_int("waitany", 0, VPM_MAXP);
  else for (int j = 0, hit = 0; j < n; j++) if ((M.anymode == 2 || !hit) && rq[j] != MPI_REQUEST_NULL && M.rdone[rq[j]] == 1) { hit = 1; i = j; }
  int k = 0; for (int j = 0; j < n; j++) if (j == i) k = rq[j];
  vp_assume(i < n && k != MPI_REQUEST_NULL && M.rdone[k] == 1);
  // dispatch on the (few) possible requests so that delivery has concrete addresses
  for (int j = 0; j < n; j++) if (j == i) { int kk = rq[j]; if (kk != MPI_REQUEST_NULL) complete(kk); rq[j] = MPI_REQUEST_NULL; }
  if (st) { st->MPI_SOURCE = M.rsrc[k]; st->MPI_TAG = M.rtag[k]; }
  *idx = i; return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, dest, tag, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dest, tag, c); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dest, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int dest, int tag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request s, r; MPI_Irecv(rb, rn, rt, src, rtag, c, &r); MPI_Isend(b, n, t, dest, tag, c, &s); MPI_Wait(&s, MPI_STATUS_IGNORE); return MPI_Wait(&r, st);
}
}
// ---- observations for harnesses
int vpm_calls(int r) { return M.ncall[r]; }
int vpm_open_requests(int r) { return M.nopen[r]; }
int vpm_open_comms(int r) { return M.ncomm[r]; }
int vpm_open_groups(int r) { int n = 0; for (int g = 1; g < VPM_MAXG; g++) if (M.glive[g] && M.grank[g] == r) n++; return n; }
int vpm_unmatched() { int n = 0; for (int a = 0; a < M.P; a++) for (int b = 0; b < M.P; b++) if (M.sc[a][b] != M.rc[b][a]) n++; return n; }
