#!/usr/bin/env python3
"""Behaviour-preserving edits of the library used to see that the checks stay quiet: refactors.py DIR NAME applies one to a copy."""
import sys, re
R = {}
def sub(t, a, b, n=1):
    assert t.count(a) >= 1, a
    return t.replace(a, b) if n == 0 else t.replace(a, b, n)
def ref(f): R[f.__name__] = f; return f
def edit(d, f, *e):
    p = f'{d}/src/{f}'; t = open(p).read()
    for x in e: t = sub(t, *x)
    open(p, 'w').write(t)
@ref
def remap_vectors(d):
    for q in '23':
        t = f'remap{q}d.cpp'; ex = f'extent_{q}d'
        edit(d, t, ('#include "memory.h"', '#include "memory.h"\n#include <vector>\n#include <algorithm>'),
          (f'  inarray = (struct {ex} *) \n    memory->smalloc(nprocs*sizeof(struct {ex}));\n  if (!inarray) error->one("Could not allocate inarray");\n', f'  std::vector<struct {ex}> invec(nprocs);\n  inarray = invec.data();\n'),
          (f'  outarray = (struct {ex} *) \n    memory->smalloc(nprocs*sizeof(struct {ex}));\n  if (!outarray) error->one("Could not allocate outarray");\n', f'  std::vector<struct {ex}> outvec(nprocs);\n  outarray = &outvec[0];\n'),
          ('  memory->sfree(inarray);\n  memory->sfree(outarray);\n', ''),
          ('    int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));\n    for (i = 0; i < nprocs; i++) pflag[i] = 0;\n', '    std::vector<char> pflag(nprocs,0);\n'),
          ('    memory->sfree(pflag);\n', ''),
          ('for (i = 0; i < nsend; i++) sendsize = MAX(sendsize,send_size[i]);', 'if (nsend) sendsize = *std::max_element(send_size,send_size+nsend);'))
@ref
def remap_helpers(d):
    t = 'remap3d.cpp'
    edit(d, t, ('int Remap3d::collide(', 'static inline void set_axis(int &lo, int &hi, int &size, int l, int h)\n{\n  lo = l; hi = h; size = h - l + 1;\n}\n\nint Remap3d::collide('),
      ('  overlap->isize = overlap->ihi - overlap->ilo + 1;\n', '  set_axis(overlap->ilo,overlap->ihi,overlap->isize,overlap->ilo,overlap->ihi);\n'),
      ('''    for (irecv = 0; irecv < nrecv; irecv++)
      MPI_Irecv(&recvbuf[recv_bufloc[irecv]],recv_size[irecv],
                MPI_FFT_SCALAR,recv_proc[irecv],0,
                world,&request[irecv]);
''', '''    irecv = 0;
    while (irecv < nrecv) {
      FFT_SCALAR *where = recvbuf + recv_bufloc[irecv];
      MPI_Irecv(where,recv_size[irecv],MPI_FFT_SCALAR,recv_proc[irecv],0,world,request+irecv);
      ++irecv;
    }
'''),
      ('''    for (int i = 0; i < nrecv; i++) {
      MPI_Waitany(nrecv,request,&irecv,MPI_STATUS_IGNORE);
''', '''    for (int left = nrecv; left > 0; left--) {
      MPI_Status status;
      MPI_Waitany(nrecv,request,&irecv,&status);
'''),
      ('''        unpack(&recvbuf[offset],&out[recv_offset[irecv]],&unpackplan[irecv]);
        offset += recv_size[irecv];''', '''        unpack(recvbuf + recvdispls[igroup],&out[recv_offset[irecv]],&unpackplan[irecv]);'''),
      ('''    for (int isend = 0; isend < ngroup; isend++) {
      sendcnts[isend] = 0;
      senddispls[isend] = 0;
      sendmap[isend] = -1;
      for (int i = 0; i < nsend; i++) {
        if (send_proc[i] != pgroup[isend]) continue;
        sendcnts[isend] = send_size[i];
        senddispls[isend] = offset;
        offset += send_size[i];
        sendmap[isend] = i;
        break;
      }
    }
''', '''    auto find_proc = [](int n, const int *list, int proc) {
      for (int i = 0; i < n; i++) if (list[i] == proc) return i;
      return -1;
    };
    for (int isend = 0; isend < ngroup; isend++) {
      const int i = find_proc(nsend,send_proc,pgroup[isend]);
      sendmap[isend] = i;
      sendcnts[isend] = i < 0 ? 0 : send_size[i];
      senddispls[isend] = i < 0 ? 0 : offset;
      offset += sendcnts[isend];
    }
'''))
@ref
def remap2_isend(d):
    "nonblocking sends from a buffer per message would change the size; instead: receive posting in reverse order, group search by breadth-first queue"
    edit(d, 'remap2d.cpp', ('''    for (irecv = 0; irecv < nrecv; irecv++)
      MPI_Irecv(''', '''    for (irecv = nrecv-1; irecv >= 0; irecv--)
      MPI_Irecv('''),
      ('''    int active = 1;
    while (active) {
      active = 0;
      ngroup_extra = ngroup;
      for (int i = 0; i < ngroup; i++) {
        iproc = pgroup[i];
        for (int jproc = 0; jproc < nprocs; jproc++) {
          if (pflag[jproc]) continue;
          if (collide(&inarray[iproc],&outarray[jproc],&overlap)) {
            pflag[jproc] = 1;
            pgroup[ngroup_extra++] = jproc;
            active = 1;
          }
          if (pflag[jproc]) continue;
          if (collide(&outarray[iproc],&inarray[jproc],&overlap)) {
            pflag[jproc] = 1;
            pgroup[ngroup_extra++] = jproc;
            active = 1;
          }
        }
      }
      ngroup = ngroup_extra;
    }
''', '''    for (int head = 0; head < ngroup; head++) {
      iproc = pgroup[head];
      for (int jproc = 0; jproc < nprocs; jproc++)
        if (!pflag[jproc] && (collide(&inarray[iproc],&outarray[jproc],&overlap) ||
                              collide(&outarray[iproc],&inarray[jproc],&overlap))) {
          pflag[jproc] = 1;
          pgroup[ngroup++] = jproc;
        }
    }
    ngroup_extra = ngroup;
'''))
@ref
def fft3_helpers(d):
    p = f'{d}/src/fft3d.cpp'; t = open(p).read()
    t = re.sub(r'\(bigint\) (ip\w+)\*(n\w+)/(np\w+);', r'tile_lo(\1,\2,\3);', t)
    t = re.sub(r'\(bigint\) \((ip\w+)\+1\)\*(n\w+)/(np\w+) - 1;', r'tile_lo(\1+1,\2,\3) - 1;', t)
    t = sub(t, 'FFT3d::FFT3d(MPI_Comm', '''static int tile_lo(int ip, int n, int np) { return (int) ((bigint) ip*n/np); }
template <typename T> static T biggest(T a) { return a; }
template <typename T, typename... A> static T biggest(T a, A... rest) { T b = biggest<T>(rest...); return a > b ? a : b; }

FFT3d::FFT3d(MPI_Comm''')
    a = t.index('  fftsize = MAX(insize,outsize);'); e = t.index('  // setup for 3 sets of 1d FFTs')
    t = t[:a] + '  fftsize = biggest(insize,outsize,fastsize,midsize,slowsize,exchange ? bricksize : 0);\n\n' + t[e:]
    t = sub(t, '''  flag = 0;
  if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1 || in_klo > in_khi+1) flag = 1;
  if (in_ilo < 0 || in_jlo < 0 || in_klo < 0) flag = 1;
  if (in_ihi >= nfast || in_jhi >= nmid || in_khi >= nslow) flag = 1;
''', '''  const int los[3] = {in_ilo,in_jlo,in_klo}, his[3] = {in_ihi,in_jhi,in_khi}, ns[3] = {nfast,nmid,nslow};
  flag = 0;
  for (int dim = 0; dim < 3; dim++)
    flag |= los[dim] > his[dim]+1 || los[dim] < 0 || his[dim] >= ns[dim];
''')
    a = t.index('void FFT3d::only_one_remap('); e = t.index('/* ---', a)
    t = t[:a] + '''void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
{
  if (!setupflag) error->all("Cannot perform an FFT remap before setup");
  if (!setup_memory_flag) 
    error->all("Cannot perform an FFT remap before setup_memory");

  bool forward = flag == FORWARD || inout_layout_same;
  if (which < 1 || which > 4) return;
  Remap *stages[2][4] = {{remap_postfast,remap_midfast,remap_slowmid,remap_preslow},
                         {remap_prefast,remap_fastmid,remap_midslow,remap_postslow}};
  Remap *stage = stages[forward][which-1];
  if (stage) { remap(in,out,stage); return; }
  if (in == out) return;
  if (which == 1) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
  if (which == 4) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
}

''' + t[e:]
    a = t.index('void FFT3d::only_remaps('); e = t.index('/* ---', a)
    t = t[:a] + '''void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
{
  if (!setupflag) error->all("Cannot perform FFT remap before setup");
  if (!setup_memory_flag) 
    error->all("Cannot perform FFT remap before setup_memory");

  const bool forward = flag == FORWARD || inout_layout_same;
  Remap * const order[] = {forward ? remap_prefast : remap_preslow, forward ? remap_fastmid : remap_slowmid,
                           forward ? remap_midslow : remap_midfast, forward ? remap_postslow : remap_postfast};
  FFT_SCALAR *from = in;
  if (!order[0] && in != out) {
    size_t count = 2*(size_t) (forward ? insize : outsize);
    for (size_t i = 0; i < count; i++) out[i] = in[i];
    from = out;
  }
  for (Remap *stage : order) {
    if (!stage) continue;
    remap(from,out,stage);
    from = out;
  }
}

''' + t[e:]
    open(p, 'w').write(t)
@ref
def fft_compute(d):
    for q, st in (('3', 3), ('2', 2)):
        p = f'{d}/src/fft{q}d.cpp'; t = open(p).read()
        t = sub(t, '  if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);', '  if (remaponly) return;\n  if (flag != BACKWARD) return;\n  if (scaled) scale_ffts((FFT_DATA *) out);')
        t = sub(t, '''  FFT_SCALAR fnorm = norm;
  for (int i = 0; i < normnum; i++) {
    data[i].re *= fnorm;
    data[i].im *= fnorm;
  }''', '''  FFT_SCALAR * const values = reinterpret_cast<FFT_SCALAR *>(data);
  const FFT_SCALAR fnorm = static_cast<FFT_SCALAR>(norm);
  for (int i = 2*normnum-1; i >= 0; --i) values[i] = values[i] * fnorm;''', 0)
        t = sub(t, '''  FFT_SCALAR fnorm = norm;
  FFT_SCALAR *data_ptr = (FFT_SCALAR *) data;
  for (int i = 0; i < normnum; i++) {
    *(data_ptr++) *= fnorm;
    *(data_ptr++) *= fnorm;
  }''', '''  FFT_SCALAR fnorm = norm;
  FFT_SCALAR *p = (FFT_SCALAR *) data, *end = p + 2*normnum;
  while (p != end) *p++ *= fnorm;''')
        t = sub(t, '''    for (int offset = 0; offset < total; offset += length)
      kiss_fft(plan_forward,&data[offset],&data[offset]);''', '''    for (int line = plan->n; line > 0; line--)
      kiss_fft(plan_forward,data+(line-1)*length,data+(line-1)*length);''')
        open(p, 'w').write(t)
    p = f'{d}/src/fft3d.cpp'; t = open(p).read()
    a = t.index('    if (remaponly) {\n      if (remap_fastmid)'); e = t.index('    if (remap_postslow)', a)
    t = t[:a] + '''    if (!remaponly) perform_ffts((FFT_DATA *) data,flag,fft_fast);
    if (remap_fastmid) remap(data,data,remap_fastmid);
    if (!remaponly) perform_ffts((FFT_DATA *) data,flag,fft_mid);
    if (remap_midslow) remap(data,data,remap_midslow);
    if (!remaponly) perform_ffts((FFT_DATA *) data,flag,fft_slow);

''' + t[e:]
    open(p, 'w').write(t)
@ref
def pack_loops(d):
    p = f'{d}/src/pack3d.h'; t = open(p).read()
    t = sub(t, '''  in = 0;
  for (slow = 0; slow < nslow; slow++) {
    plane = slow*nstride_plane;
    for (mid = 0; mid < nmid; mid++) {
      out = plane + mid*nstride_line;
      for (fast = 0; fast < nfast; fast++)
        buf[in++] = data[out++];
    }
  }''', '''  const int nlines = nmid*nslow;
  for (int line = 0; line < nlines; line++) {
    slow = line / nmid;
    mid = line % nmid;
    plane = slow*nstride_plane;
    out = plane + mid*nstride_line;
    in = line*nfast;
    for (fast = 0; fast < nfast; fast++) buf[in+fast] = data[out+fast];
  }''')
    a = t.index('static void unpack_3d_permute1_2_array'); e = t.index('  out = 0;', a); f = t.index('}\n\n/*', e)
    print(t[e:f])
    t = t[:e] + '''  for (fast = 0; fast < nfast; fast++)
    for (mid = 0; mid < nmid; mid++)
      for (slow = 0; slow < nslow; slow++) {
        in = fast*nstride_plane + slow*nstride_line + 2*mid;
        out = 2*((slow*nmid + mid)*nfast + fast);
        memcpy(&data[in],&buf[out],2*sizeof(PACK_DATA));
      }
''' + t[f:]
    open(p, 'w').write(t)
    p = f'{d}/src/pack2d.h'; t = open(p).read()
    a = t.index('static void pack_2d_array'); e = t.index('  in = 0;', a); f = t.index('}\n\n/*', e); print(t[e:f])
    t = t[:e] + '''  PACK_DATA *to = buf;
  for (slow = 0; slow < nslow; ++slow) {
    const PACK_DATA *from = data + slow*nstride;
    const PACK_DATA *stop = from + nfast;
    for (; from < stop; ) *to++ = *from++;
  }
''' + t[f:]
    open(p, 'w').write(t)
@ref
def kiss_loops(d):
    p = f'{d}/src/kissfft.h'; t = open(p).read()
    t = sub(t, '''    Fout2 = Fout + m;
    do {
        C_FIXDIV(*Fout,2); C_FIXDIV(*Fout2,2);

        C_MUL (t,  *Fout2 , *tw1);
        tw1 += fstride;
        C_SUB( *Fout2 ,  *Fout , t );
        C_ADDTO( *Fout ,  t );
        ++Fout2;
        ++Fout;
    } while(--m);''', '''    Fout2 = Fout + m;
    for (int k = 0; k < m; k++) {
        C_MUL (t,  Fout2[k] , tw1[k*fstride]);
        C_SUB( Fout2[k] ,  Fout[k] , t );
        C_ADD( Fout[k] , t , Fout[k] );
    }''')
    t = sub(t, '''            kf_cexp(st->twiddles+i, phase );''', '''            FFT_DATA w;
            w.re = (kiss_fft_scalar) cos(phase);
            w.im = (kiss_fft_scalar) sin(phase);
            st->twiddles[i] = w;''')
    t = sub(t, '''        memcpy(fout,tmpbuf,sizeof(FFT_DATA)*st->nfft);''', '''        for (int i = 0; i < st->nfft; i++) fout[i] = tmpbuf[i];''')
    t = sub(t, '''    switch (p) {
      case 2: kf_bfly2(Fout,fstride,st,m); break;''', '''    if (p == 2) kf_bfly2(Fout,fstride,st,m);
    else switch (p) {''')
    open(p, 'w').write(t)
@ref
def wrap_tables(d):
    p = f'{d}/src/fft3d_wrap.cpp'; t = open(p).read()
    a = t.index('void fft3d_set('); e = t.index('\n}\n', a) + 3
    t = t[:a] + '''static const struct { const char *name; int FFT3d::*member; } settings[] = {
  {"collective",&FFT3d::collective}, {"exchange",&FFT3d::exchange}, {"pack",&FFT3d::packflag},
  {"memory",&FFT3d::memoryflag}, {"scale",&FFT3d::scaled}, {"remaponly",&FFT3d::remaponly}};

void fft3d_set(void *ptr, const char *keyword, int value)
{
  FFT3d *fft = (FFT3d *) ptr;

  for (const auto &s : settings)
    if (strcmp(keyword,s.name) == 0) fft->*(s.member) = value;
}
''' + t[e:]
    open(p, 'w').write(t)
@ref
def tune_tables(d):
    p = f'{d}/src/fft3d.cpp'; t = open(p).read()
    a = t.index('  if (nruns-1 >= 9) {'); e = t.index('  // find best time for collective/exchange settings')
    t = t[:a] + '''  static const struct { int least, c0, c1, e0, e1, p0, p1; } plans[] = {
    {9,0,3,0,2,0,3}, {6,0,3,0,2,-1,-1}, {3,0,3,0,1,-1,-1}, {2,1,3,0,1,-1,-1}};
  const int nplans = sizeof(plans)/sizeof(plans[0]);
  int which = 0;
  while (which < nplans && nruns-1 < plans[which].least) which++;
  pstop = cstop = estop = -1;
  if (which < nplans) {
    cstart = plans[which].c0; cstop = plans[which].c1;
    estart = plans[which].e0; estop = plans[which].e1;
    pstart = plans[which].p0; pstop = plans[which].p1;
    if (pstart < 0) pbest = pdefault;
  } else {
    ntrial = 1;
    bool defaults = collective == cdefault && exchange == edefault && packflag == pdefault;
    if (nruns == 2 && !defaults) {
      cstart = cdefault; cstop = cstart+1; estart = edefault; estop = estart+1;
      pstart = -1;
      pbest = pdefault;
    } else {
      cstart = estart = pstart = -1;
      besttime = timefft;
      cbest = cflags[0] = collective;
      ebest = eflags[0] = exchange;
      pbest = pflags[0] = packflag;
    }
  }

''' + t[e:]
    t = sub(t, '''  besttime *= scale;
  for (int i = 0; i < ntrial; i++) {
    tfft[i] *= scale;
    t1d[i] *= scale;
    tremap[i] *= scale;
    tremap1[i] *= scale;
    tremap2[i] *= scale;
    tremap3[i] *= scale;
    tremap4[i] *= scale;
  }''', '''  besttime *= scale;
  for (double *times : {tfft,t1d,tremap,tremap1,tremap2,tremap3,tremap4})
    for (int i = 0; i < ntrial; i++) times[i] = times[i]*scale;''')
    t = sub(t, '#include <math.h>', '#include <math.h>\n#include <initializer_list>') if '#include <math.h>' in t else '#include <initializer_list>\n' + t
    open(p, 'w').write(t)
@ref
def grid_search(d):
    p = f'{d}/src/fft3d.cpp'; t = open(p).read()
    a = t.index('      newarea = surfarea(ifac,jfac,kfac,nx,ny,nz);'); e = t.index('  // my location in 3d proc grid')
    t = t[:a] + '''      const int perms[6][3] = {{ifac,jfac,kfac},{ifac,kfac,jfac},{jfac,ifac,kfac},
                               {jfac,kfac,ifac},{kfac,ifac,jfac},{kfac,jfac,ifac}};
      for (int m = 0; m < 6; m++) {
        newarea = surfarea(perms[m][0],perms[m][1],perms[m][2],nx,ny,nz);
        if (!(newarea < minarea)) continue;
        minarea = newarea;
        npx = perms[m][0]; npy = perms[m][1]; npz = perms[m][2];
      }
    }
  }

''' + t[e:]
    t = sub(t, '''  int sqroot = (int) sqrt(n) + 1;
  if (sqroot*sqroot > n) sqroot--;

  nfactor = 0;
  for (int i = 1; i <= sqroot; i++) {
    if (n % i) continue;
    if (nfactor < NFACTOR) factors[nfactor++] = i;
  }''', '''  nfactor = 0;
  for (int i = 1; i*i <= n; i++)
    if (n % i == 0 && nfactor < NFACTOR) factors[nfactor++] = i;''')
    a = t.index('int FFT3d::prime_factorable(int n)'); e = t.index('/* ---', a)
    t = t[:a] + '''int FFT3d::prime_factorable(int n)
{
  for (int i = 0; i < nprime; i++)
    while (n > 1 && n % primes[i] == 0) n /= primes[i];
  return n <= 1;
}

''' + t[e:]
    t = sub(t, '''  if (remap == NULL) return;
  delete remap->remap3d;
  delete remap->remap3d_extra;
  delete remap;''', '''  if (!remap) return;
  Remap3d *parts[] = {remap->remap3d_extra,remap->remap3d};
  for (Remap3d *part : parts) if (part) delete part;
  delete remap;''')
    open(p, 'w').write(t)
@ref
def fft2_reorder(d):
    p = f'{d}/src/fft2d.cpp'; t = open(p).read()
    # one Allreduce for several flags would change communication; reorder assignments and use early returns instead
    t = sub(t, 'int FFT2d::prime_factorable(int n)', 'static int divide_out(int n, int p) { return n % p ? n : divide_out(n/p,p); }\n\nint FFT2d::prime_factorable(int n)')
    a = t.index('int FFT2d::prime_factorable(int n)'); e = t.index('/* ---', a)
    t = t[:a] + '''int FFT2d::prime_factorable(int n)
{
  if (n <= 1) return 1;
  for (int i = 0; i < nprime; i++) n = divide_out(n,primes[i]);
  return n == 1;
}

''' + t[e:]
    open(p, 'w').write(t)
if __name__ == '__main__':
    if len(sys.argv) < 3: print(' '.join(R))
    else: R[sys.argv[2]](sys.argv[1])
