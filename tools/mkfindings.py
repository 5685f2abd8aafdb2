#!/usr/bin/env python3
"""Writes known_findings.json: defects found in lammps/fftmpi. Entries with 'fixed' suppress nothing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
def h(s): return next(a for a, b in log if b == 'fix: ' + s)
F = [
 ('C04', 'copy all complex data when an out-of-place FFT needs no initial remap', 'out of place compute() with no initial remap copied only half of the complex input values to the output array (also C05, C15)'),
 ('C04', "final remap of an out-of-place inverse FFT must use the transformed data", 'out of place inverse compute(): the last remap moved the untransformed user input instead of the transformed data (also C05, C15)'),
 ('C04', "second stage of a two-stage remap must start from the first stage's output", 'out of place compute() with a two-stage (exchange) remap started the second stage from the user input again (also C05, C15)'),
 ('C06', "scale all of an inverse FFT's result, which is in the input layout", 'backward scaling covered outsize elements although the result has insize: elements left unscaled, or the array overrun (also C07)'),
 ('C02', '2d memcpy pack/unpack must copy PACK_DATA-sized values', 'pack2d.h memcpy variants copied sizeof(double) per value although PACK_DATA is float with FFT_SINGLE: overrun of buffers (also C03)'),
 ('C11', 'a Remap that was never set up can be destroyed', 'Remap2d/Remap3d constructors left pointers uninitialised: destroying one before setup() released garbage'),
 ('C11', 'a 2d FFT that was never set up can be destroyed', 'FFT2d destructor called deallocate_setup() before setup(): uninitialised pointers released'),
 ('C10', 'reject a second setup() of a 2d FFT as for a 3d FFT', 'FFT2d::setup() called twice was accepted and leaked, instead of being an error as in FFT3d'),
 ('C11', 'initialize tuning results of a 2d FFT as for a 3d FFT', 'FFT2d tuning results were uninitialised before tune() and read through the get functions (also C13)'),
 ('C07', 'count the last inverse remap stage in the reported buffer sizes', 'sendsize/recvsize returned by setup() did not include the last inverse remap: user buffers overrun'),
 ('C15', 'a single remap stage that needs no communication must still fill a different output array', 'only_one_remap() out of place left the output untouched when the stage needed no communication'),
 ('C12', 'all processes must choose the same settings when tuning, whatever times they measure', 'tune() compared local trial times: processes chose different settings and then deadlocked or mismatched (also C14)'),
 ('C12', 'limit tuning time without dividing by a zero or tiny FFT time', 'tune() with tmax > 0 divided by a measured time of zero (or tiny): undefined conversion to int'),
 ('C09', 'compute internal tile bounds without integer overflow for large grids on many processes', 'setup() computed ip*n/np in int: with e.g. a 2 x 268435456 2d grid on 8 processes (or 65536 x 65536 on 65536) the product overflowed and the internal layouts no longer tiled the grid'),
 ('C12', 'limiting the tuning time must not increase the number of FFTs per trial', 'tune() with tmax > 0 and tflag = 1 could raise niter above the requested value when it dropped the extra timings'),
 ('C18', 'changing the collective setting of a Remap after setup() has no effect, as documented', 'remap() and the destructor of a Remap read the collective setting of the moment: switching it after setup() left the data in place, used unallocated vectors, or leaked the communicator'),
 ('C18', 'changing memoryflag of an FFT after setup() has no effect, as documented', 'the destructor and setup_memory() of an FFT read memoryflag of the moment: switching it after setup() leaked the buffers, released the user\'s buffers, or rejected the setup_memory() the user owed'),
 ('C17', "Python setup_memory() of FFTs used its own unset local variables", "FFT2dMPI/FFT3dMPI.setup_memory() of src/fftmpi.py read its own local variables before assigning them: every call raised UnboundLocalError"),
 ('C17', "Python Remap classes could not be created or used", "Remap2dMPI/Remap3dMPI of src/fftmpi.py named a C function that does not exist, passed an argument remapNd_create() does not take, returned undefined sizes from setup(): no object could be created or used"),
 ('C19', "Fortran fftNd_setup_memory() passed the address of the pointers", "fft2d_setup_memory/fft3d_setup_memory of the Fortran modules passed type(c_ptr) arguments by reference: the library used the address of the caller\'s pointer variable as the buffer"),
]
import sys; sys.path.insert(0, f'{V}/tools')
try: from findings_more import MORE
except ImportError: MORE = []
out = [dict(property=p, fixed=True, entry=f'fixed: property={p} {h(s)} {w}') for p, s, w in F + MORE]
json.dump(dict(findings=out), open(f'{V}/known_findings.json', 'w'), indent=1)
