#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import jobs
NA = {}
PY = '/opt/veriftools/pyvenv/bin/python3'
OTHER = {'C17': dict(cmd=f'{PY} pywrap/check.py C17', technique='bounded symbolic execution of the Python wrapper (src/fftmpi.py) with a model of ctypes at the calling convention, against the prototypes of the C headers; obligations decided by Z3; counterexamples and witnesses replayed with the real ctypes, numpy and a compiled recording library',
   note='Exhaustive within the bounds, by solver verdict: histories of create (any precision value, library present or not, 4- and 8-byte communicator handles), one operation (thorough: two) of any kind with any arguments and any answer of the library, end by destroy() or deletion; rejected data followed by a valid operation; two objects of any two classes used in turn; vectors up to 4 elements, keywords up to 12 characters. Outside: longer histories and vectors, mpi4py and numpy themselves. Trusted: pywrap/sym.py (model of ctypes, validated on the replayed witnesses), the translation of Python 2 statements, Z3'),
 'C19': dict(cmd=f'{PY} f90wrap/check.py C19', technique='symbolic execution of the machine code compiled from src/*_wrap.f90 with generated callers, against the prototypes of the C headers; obligations decided by Z3 (bit-vectors); counterexamples and witnesses replayed natively',
   note='Exhaustive within the bounds, by solver verdict: every procedure of the four modules, every value of every argument and answer, callers holding arguments in dummy arguments and in locals, single and double precision arrays (thorough: three optimisation levels). Outside: other compilers and calling conventions, keyword arguments, literals. Trusted: the x86-64 executor in f90wrap/check.py (validated on the replayed witnesses), gfortran, Z3')}
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
C = []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        C.append(dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --tier thorough', evidence_file=f'evidence/{i}.json', level='model_checking',
          technique='bounded symbolic execution of LLVM IR compiled from /repo/src with a symbolic MPI model; assertions decided by Z3; counterexamples replayed on compiled code',
          level_note='Exhaustive within the bounds, by solver verdict: ' + s['bounds'] + '. Outside: ' + s['outside'] + '. Trusted: the executor (engine/), the MPI and FFT-library models (model/, harness/fftstub.cpp), clang 18 -O0 IR, Z3.'))
    elif i in OTHER:
        o = OTHER[i]; C.append(dict(property=i, quick_cmd=o['cmd'], thorough_cmd=o['cmd'] + ' --tier thorough', evidence_file=f'evidence/{i}.json', level='model_checking', technique=o['technique'], level_note=o['note']))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'not claimed yet: no check built so far')) for p in props if p['id'] not in jobs.PROPS and p['id'] not in OTHER]
json.dump(dict(version=1, setup_cmd='make -s -C engine', checks=C, not_applicable=na, notes='No hooks in /repo: the checks compile the unmodified sources. /repo holds only fix: commits (known_findings.json, DESIGN.md).'), open(f'{V}/MANIFEST.json', 'w'), indent=1)
