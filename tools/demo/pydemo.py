# drives the Python wrapper against a recording stand-in for the library: pydemo.py REPO SCRATCH
import sys, os, re, types, ctypes, subprocess
import numpy as np
repo, w = sys.argv[1:3]; src = open(repo + '/src/fftmpi.py').read()
names = sorted(set(re.findall(r'\b((?:fft|remap)[23]d_\w+)', open(repo + '/src/fft2d_wrap.h').read())))
c = '#include <stdio.h>\nint F, W, N;\n' + ''.join('void %s() {}\n' % n for n in names if n not in ('fft2d_only_one_remap', 'fft2d_create')) + 'void fft2d_create(long c, int p, void **h) { *h = (void *)16; }\nvoid fft2d_only_one_remap(void *h, void *a, void *b, int f, int w) { F = f; W = w; N++; }\n'
open(w + '/s.c', 'w').write(c); subprocess.check_call(['gcc', '-w', '-shared', '-fPIC', '-o', w + '/libfft2dmpi.so', w + '/s.c'])
if os.environ.get('LD_LIBRARY_PATH') != w: os.environ['LD_LIBRARY_PATH'] = w; os.execv(sys.executable, [sys.executable] + sys.argv)
try: compile(src, 'fftmpi.py', 'exec')
except SyntaxError:
    src = re.sub(r'(?m)^(\s*)print (".*")$', r'\1print(\2)', src); src = re.sub(r'(?m)raise (\w+),(".*")$', r'raise \1(\2)', src)
cell = ctypes.c_long(64); MPI = types.ModuleType('mpi4py.MPI'); MPI._sizeof = lambda c: 8; MPI._addressof = lambda c: ctypes.addressof(cell)
m = types.ModuleType('mpi4py'); m.MPI = MPI; sys.modules['mpi4py'] = m; sys.modules['mpi4py.MPI'] = MPI
g = {'__name__': 'fftmpi'}; exec(compile(src, 'fftmpi.py', 'exec'), g)
f = g['FFT2dMPI'](object(), 2); a = np.zeros(8); lib = ctypes.CDLL(w + '/libfft2dmpi.so')
for flag, which in ((1, 1), (1, 3), (-1, 2)):
    f.only_one_remap(a, a, flag, which); got = ctypes.c_int.in_dll(lib, 'F').value, ctypes.c_int.in_dll(lib, 'W').value
    if got != (flag, which): print('only_one_remap', flag, which, 'reaches the library as', got); os._exit(1)
os._exit(0)
