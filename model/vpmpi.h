#ifndef VPMPI_H
#define VPMPI_H
#ifndef VPM_MAXP
#define VPM_MAXP 32
#endif
#define VPM_MAXC 600
#define VPM_MAXG 1200
#define VPM_MAXR 6000
#define VPM_INFLIGHT (-99)
struct vp_mpi_state {
  int P; double now[VPM_MAXP]; int timemin; int ncall[VPM_MAXP]; int finalized[VPM_MAXP]; int aborted; int timemode, timemax, anymode;
  int sc[VPM_MAXP][VPM_MAXP], rc[VPM_MAXP][VPM_MAXP];
  int skind[VPM_MAXP][VPM_MAXP][2], scount[VPM_MAXP][VPM_MAXP][2], styp[VPM_MAXP][VPM_MAXP][2], sop[VPM_MAXP][VPM_MAXP][2], sroot[VPM_MAXP][VPM_MAXP][2], sctx[VPM_MAXP][VPM_MAXP][2]; void *sdata[VPM_MAXP][VPM_MAXP][2][12];
  int glive[VPM_MAXG], grank[VPM_MAXG], gsize[VPM_MAXG], gmem[VPM_MAXG][VPM_MAXP];
  int clive[VPM_MAXC], crank[VPM_MAXC], csize[VPM_MAXC], cctx[VPM_MAXC], cpos[VPM_MAXC][VPM_MAXP]; int ncomm[VPM_MAXP]; int epoch[VPM_MAXP][VPM_MAXC];
  int nreq, rkind[VPM_MAXR], rowner[VPM_MAXR], rsrc[VPM_MAXR], rdst[VPM_MAXR], rtag[VPM_MAXR], rctx[VPM_MAXR], rcnt[VPM_MAXR], rtyp[VPM_MAXR], rgot[VPM_MAXR], rdone[VPM_MAXR], ropen[VPM_MAXR], sopen[VPM_MAXR]; void *rbuf[VPM_MAXR], *rdata[VPM_MAXR]; int nopen[VPM_MAXP];
};
extern struct vp_mpi_state vp_mpi;
void vpm_init(int P);
int vpm_calls(int r); int vpm_open_requests(int r); int vpm_open_comms(int r); int vpm_open_groups(int r); int vpm_unmatched();
#endif
