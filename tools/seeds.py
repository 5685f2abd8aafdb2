#!/usr/bin/env python3
"""Writes the planted changes (seeded/): python3 tools/seeds.py [ID...]"""
import sys; from mkseed import mk
ALL = {}
def seed(id, *a, **k): ALL[id] = (a, k)
R3 = 'build d -DDIM=3 -- "$here/remapdemo.cpp" "$R"/src/{remap3d,memory,error}.cpp\n'
R2 = 'build d -DDIM=2 -- "$here/remapdemo.cpp" "$R"/src/{remap2d,memory,error}.cpp\n'
def F(d, be='KISS'): return f'{"LIBS=-lfftw3;" if be=="FFTW3" else ""}build d -DDIM={d} -DFFT_{be} -- "$here/fftdemo.cpp" "$R"/src/{{fft{d}d,remap{d}d,memory,error}}.cpp\n'
L2 = 'printf "%s\\n" "0 3 0 4 0 1  0 3 0 1 0 3" "0 3 0 4 2 3  0 3 2 4 0 3" > $W/l\n'
seed('remap-n3-plane', 'C01', 'a Remap3d with 3 or more quantities per datum, permute 2, pointer packing, and received blocks of more than one plane', 'the third quantity onwards of a datum lands in a neighbouring datum',
  R3 + L2 + 'for p in 0 1 2; do run 2 ./d 3 2 $p 0 1 0 1 l || exit 1; done',
  [('src/pack3d.h', ('begin = &(data[nqty*slow+mid*nstride_plane]);', 0), 'begin = &(data[2*slow+mid*nstride_plane]);')], files=['remapdemo.cpp'])
seed('fft3-outofplace-slowmid', 'C04', 'a backward 3d FFT with different input and output arrays, exchange 0, on a plan whose output layout needs a remap', 'the second remap of a backward transform reads the untransformed input array',
  F(3) + 'printf "%s\\n" "0 3 0 2 0 3  0 1 0 4 0 3" "0 3 3 4 0 3  2 3 0 4 0 3" > $W/l\nfor i in 1 0; do run 2 ./d 4 5 4 0 0 2 2 1 $i 1 fb l || exit 1; done',
  [('src/fft3d.cpp', 'perform_ffts((FFT_DATA *) data,flag,fft_slow);\n      if (remap_slowmid) remap(data,data,remap_slowmid);', 'perform_ffts((FFT_DATA *) data,flag,fft_slow);\n      if (remap_slowmid) remap(in,data,remap_slowmid);')], files=['fftdemo.cpp'])
seed('scale-at-setup', 'C06', 'switching the scaled setting on after setup()', 'the scale factor is fixed at setup time, so switching scaling on later has no effect',
  F(3) + 'printf "%s\\n" "0 3 0 2 0 3  0 1 0 4 0 3" "0 3 3 4 0 3  2 3 0 4 0 3" > $W/l\nrun 2 ./d 4 5 4 0 0 2 2 1 1 0 fbsfb l || exit 1',
  [('src/fft3d.cpp', 'norm = 1.0/((bigint) nfast * nmid*nslow);', 'norm = 1.0;\n  if (scaled) norm = 1.0/((bigint) nfast * nmid*nslow);')], files=['fftdemo.cpp'])
seed('sendsize-last', 'C03', 'point-to-point Remap with user memory whose biggest message is the last in send order', 'the reported send buffer size ignores the last message, which then overruns the buffer',
  R3 + 'printf "%s\\n" "0 3 0 3 0 3  0 3 0 0 0 0" "0 -1 0 -1 0 -1  0 3 1 3 0 0" "0 -1 0 -1 0 -1  0 3 0 3 1 3" > $W/l\nrun 3 ./d 1 0 0 0 0 0 1 l || exit 1',
  [('src/remap3d.cpp', 'for (i = 0; i < nsend; i++) sendsize = MAX(sendsize,send_size[i]);', 'for (i = 0; i < nsend; i++) {\n      if (i == nsend-1 && i > 0) continue;\n      sendsize = MAX(sendsize,send_size[i]);\n    }')], files=['remapdemo.cpp'])
def M(d, wrap=0): return f'build d -DDIM={d} -DFFT_KISS {"-DWRAP" if wrap else ""} -- "$here/misc.cpp" "$R"/src/{{fft{d}d,{"remap2d_wrap,remap3d_wrap,remap2d,remap3d" if wrap else f"remap{d}d"},memory,error}}.cpp\n'
seed('remap2-arrival-order', 'C02', 'a point-to-point 2d remap whose messages arrive in another order than they are listed, from blocks of different shapes', 'a received block is unpacked with the shape of another one',
  R2 + 'printf "%s\\n" "0 -1 0 -1  0 9 0 5" "0 9 0 0  0 -1 0 -1" "0 9 1 5  0 -1 0 -1" > $W/l\nfor late in 1 2; do LATE=$late run 3 ./d 1 0 0 0 1 0 1 l || exit 1; done',
  [('src/remap2d.cpp', '      MPI_Waitany(nrecv,request,&irecv,MPI_STATUS_IGNORE);\n      unpack(&recvbuf[recv_bufloc[irecv]],&out[recv_offset[irecv]],\n             &unpackplan[irecv]);', '      MPI_Waitany(nrecv,request,&irecv,MPI_STATUS_IGNORE);\n      unpack(&recvbuf[recv_bufloc[irecv]],&out[recv_offset[irecv]],\n             &unpackplan[i]);')], files=['remapdemo.cpp'])
seed('fft2-post-someone', 'C05', 'a permuted 2d FFT on 3 or more processes, one of which has its output tile exactly where the internal layout has it while others have not', 'the last remap is left out for everyone although only one process does not need it',
  F(2) + 'printf "%s\\n" "0 5 0 1  0 1 0 3" "0 5 2 2  2 5 0 1" "0 5 3 3  2 5 2 3" > $W/l\nfor i in 1 0; do run 3 ./d 6 4 1 1 0 2 2 1 $i 1 fb l || exit 1; done',
  [('src/fft2d.cpp', '      out_jlo == slow_jlo && out_jhi == slow_jhi) flag = 0;\n  else flag = 1;\n  MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);', '      out_jlo == slow_jlo && out_jhi == slow_jhi) flag = 0;\n  else flag = 1;\n  MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MIN,world);')], files=['fftdemo.cpp'])
seed('fftsize-no-brick', 'C07', 'exchange = 1 and a process whose brick tile is larger than each of its other tiles', 'the array size returned by setup() leaves out the brick layout, so the FFT writes past the end of the array',
  F(3) + '(echo "0 2 0 2 0 2  0 2 0 2 0 2"; for i in 1 2 3 4 5 6 7; do echo "0 -1 0 -1 0 -1  0 -1 0 -1 0 -1"; done) > $W/l\nrun 8 ./d 3 3 3 0 1 0 2 1 1 1 fb l || exit 1',
  [('src/fft3d.cpp', '  if (exchange) fftsize = MAX(fftsize,bricksize);\n', '')], files=['fftdemo.cpp'])
seed('kiss-shared-plan', 'C08', 'the built-in 1d FFT, mid and slow dimensions equal and different from the fast one, and a single-direction result that is looked at (a round trip cancels the error)', 'the slow axis is transformed in the opposite direction, forward and backward alike',
  F(3) + 'printf "%s\\n" "0 3 0 4 0 4  0 3 0 4 0 4" > $W/l\nrun 1 ./d 4 5 5 0 0 2 2 1 1 1 fb l || exit 1',
  [('src/fft3d.cpp', ('    fft_slow->plan_forward = fft_mid->plan_forward;\n    fft_slow->plan_backward = fft_mid->plan_backward;', 1), '    fft_slow->plan_forward = fft_mid->plan_backward;\n    fft_slow->plan_backward = fft_mid->plan_forward;')], files=['fftdemo.cpp'])
seed('procgrid-product', 'C09', 'a 3d FFT with exchange on 10 processes', 'the brick process grid has 8 instead of 10 places',
  M(3) + 'run 10 ./d grid 8 8 8 || exit 1', [('src/fft3d.cpp', '      if (ifac*jfac*kfac != nprocs) continue;\n', '')], files=['misc.cpp'])
seed('tile-beyond-grid', 'C10', 'a 2d tile that reaches exactly one line beyond the grid while the tile sizes still add up', 'setup() accepts the tile',
  M(2) + 'run 2 ./d outside 4 6 > $W/o 2>&1; ! grep -q accepted $W/o', [('src/fft2d.cpp', 'if (in_ihi >= nfast || in_jhi >= nslow) flag = 1;', 'if (in_ihi >= nfast || in_jhi > nslow) flag = 1;')], files=['misc.cpp'])
seed('comm-leak-preslow', 'C11', 'a 3d FFT whose input and output layouts differ, with collective remaps', 'the communicator and arrays of one inverse remap are never released',
  M(3) + 'run 2 ./d comms 4 6 4 || exit 1', [('src/fft3d.cpp', '  deallocate_remap(remap_preslow);\n', '')], files=['misc.cpp'])
seed('tune-pack-best', 'C12', 'a tuning run in which every pack trial is slower than the best collective/exchange trial', 'the pack setting chosen is not that of the fastest pack trial',
  M(3) + 'run 1 ./d tune 4 4 4 0 15 1 5 || exit 1', [('src/fft3d.cpp', ('    besttime = BIG;\n', 1), '    pbest = pdefault;\n')], files=['misc.cpp'])
seed('fortran-remap-slow', 'C13', 'a 3d Remap set up through the Fortran-callable function, split along the slow index', 'the lower slow index of the input tile is not shifted to 0-based, so a plane is lost on each process',
  M(3, 1) + 'run 2 ./d fortran 3 4 4 || exit 1', [('src/remap3d_wrap.cpp', 'in_klo-1,in_khi-1,', 'in_klo,in_khi-1,')], files=['misc.cpp'])
seed('pgroup-closure', 'C14', 'a collective 3d remap between layouts whose overlaps form a chain over 4 or more processes', 'processes disagree on who takes part in the all-to-all: it fails or hangs',
  R3 + 'printf "%s\\n" "0 1 0 0 0 0  0 0 0 0 0 0" "2 3 0 0 0 0  1 2 0 0 0 0" "4 5 0 0 0 0  3 4 0 0 0 0" "6 7 0 0 0 0  5 6 0 0 0 0" "8 8 0 0 0 0  7 8 0 0 0 0" > $W/l\nrun 5 ./d 1 0 0 1 1 0 1 l || exit 1',
  [('src/remap3d.cpp', ('            active = 1;\n', 1), '')], files=['remapdemo.cpp'])
seed('one-remap-inverse', 'C15', 'a backward single remap (only_one_remap) of a 2d FFT', 'the first and last inverse stages are exchanged',
  F(2) + 'printf "%s\\n" "0 5 0 1  0 2 0 3" "0 5 2 3  3 5 0 3" > $W/l\nfor o in o p; do run 2 ./d 6 4 1 0 0 2 2 1 1 1 $o l || exit 1; done',
  [('src/fft2d.cpp', '    if (which == 3) {\n      if (remap_preslow)', '    if (which == 1) {\n      if (remap_preslow)'), ('src/fft2d.cpp', '    } else if (which == 1) {\n      if (remap_postfast)', '    } else if (which == 3) {\n      if (remap_postfast)')], files=['fftdemo.cpp'])
seed('memusage-drift', 'C16', 'an FFT set up through tune()', 'the reported memory accumulates over all the setups tune() makes',
  M(3) + 'run 2 ./d memory 4 6 4 || exit 1', [('src/fft3d.cpp', ('  memusage = 0;\n\n  if (memoryflag)', 0), '\n  if (memoryflag)')], files=['misc.cpp'])
seed('late-exchange', 'C18', 'switching the exchange setting off after setup() of a 3d FFT that exchanges through bricks', 'the second half of each brick exchange is left out, so compute() returns wrong data',
  F(3) + 'printf "%s\\n" "0 3 0 2 0 3  0 1 0 4 0 3" "0 3 3 4 0 3  2 3 0 4 0 3" > $W/l\nfor o in fb efb; do run 2 ./d 4 5 4 0 1 2 2 1 1 1 $o l || exit 1; done',
  [('src/fft3d.cpp', '  if (remap->remap3d_extra) \n', '  if (remap->remap3d_extra && exchange) \n')], files=['fftdemo.cpp'])
seed('py-one-remap', 'C17', 'the Python method only_one_remap() of a 2d FFT with a stage different from the direction', 'direction and stage are exchanged on the way to the library',
  'PY=/opt/veriftools/pyvenv/bin/python3; $PY "$here/pydemo.py" "$R" "$W" || exit 1', [('src/fftmpi.py', 'self.lib.fft2d_only_one_remap(self.fft,cin,cout,flag,which)', 'self.lib.fft2d_only_one_remap(self.fft,cin,cout,which,flag)')], files=['pydemo.py'])
seed('f90-remap2-setup', 'C19', 'a 2d Remap set up from Fortran through the module', 'the procedure is bound to the entry point with 0-based indices',
  'cd $W; gcc -w -c "$here/remap2stub.c" -o s.o && gfortran -w -c "$R/src/remap2d_wrap.f90" -o m.o && gfortran -w "$here/remap2.f90" m.o s.o -o t || exit 2\n./t > o || exit 1; [ "$(cat o)" = "fortran 1 4" ]',
  [('src/remap2d_wrap.f90', "name='remap2d_setup_fortran'", "name='remap2d_setup'")], files=['remap2.f90', 'remap2stub.c'])
if __name__ == '__main__':
    for i in (sys.argv[1:] or ALL): a, k = ALL[i]; mk(i, *a, **k)
