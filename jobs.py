"""Builds, jobs and bounds of every check."""
import json, os
LEVEL = 'model_checking'
DEADLINE = dict(quick=700, thorough=7000)
ASSUME = ['MPI behaves as modelled in model/mpi_model.cpp: synchronous sends, receives matched in order per (source, tag, communicator), any completion order in MPI_Waitany, exact member lists',
          'malloc never fails; 64-bit little-endian target, clang 18 IR semantics at -O0',
          'data values are opaque (identity tokens): the code under test moves them, or multiplies them by constants']
def known(V):
    p = f'{V}/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []
BUILDS, PROPS = {}, {}
def build(name, harness, repo, defs=(), hdefs=()): BUILDS[name] = dict(harness=list(harness), repo=list(repo), defs=list(defs), hdefs=list(hdefs))
for prec, d in (('', []), ('s', ['-DFFT_SINGLE'])):
    build('remap3' + prec, ['remap.cpp'], ['remap3d.cpp', 'memory.cpp', 'error.cpp'], d, ['-DDIM=3', '-DDIMHDR="remap3d.h"'])
    build('remap2' + prec, ['remap.cpp'], ['remap2d.cpp', 'memory.cpp', 'error.cpp'], d, ['-DDIM=2', '-DDIMHDR="remap2d.h"'])
    for be in ('FFTW3', 'FFTW2', 'MKL'):
        build('fft3' + be.lower() + prec, ['fft.cpp', 'fftstub.cpp'], ['fft3d.cpp', 'remap3d.cpp', 'memory.cpp', 'error.cpp'], d + ['-DFFT_' + be], ['-DDIM=3'])
        build('fft2' + be.lower() + prec, ['fft.cpp', 'fftstub.cpp'], ['fft2d.cpp', 'remap2d.cpp', 'memory.cpp', 'error.cpp'], d + ['-DFFT_' + be], ['-DDIM=2'])
    for q in (2, 3): build(f'tune{q}{prec}', ['tune.cpp', 'fftstub.cpp'], [f'fft{q}d.cpp', f'remap{q}d.cpp', 'memory.cpp', 'error.cpp'], (['-DFFT_SINGLE'] if prec else []) + ['-DFFT_FFTW3'], [f'-DDIM={q}'])
    for d in (2, 3): build(f'kiss{d}{prec}', ['kiss.cpp'], [f'fft{d}d.cpp', f'remap{d}d.cpp', 'memory.cpp', 'error.cpp'], (['-DFFT_SINGLE'] if prec else []) + ['-DFFT_KISS'], [f'-DDIM={d}'])
for q in (2, 3):
    for prec, dd in (('', []), ('s', ['-DFFT_SINGLE'])):
        W = [f'fft{q}d.cpp', f'remap{q}d.cpp', 'memory.cpp', 'error.cpp', f'fft{q}d_wrap.cpp', f'remap{q}d_wrap.cpp']
        build(f'valid{q}{prec}', ['valid.cpp', 'fftstub.cpp'], W[:4], dd + ['-DFFT_FFTW3'], [f'-DDIM={q}'])
        for be in ('FFTW3', 'FFTW2', 'MKL', 'KISS'): build(f'life{q}{be.lower()}{prec}', ['life.cpp'] + (['fftstub.cpp']), W[:4], dd + ['-DFFT_' + be], [f'-DDIM={q}'])
        build(f'mem{q}{prec}', ['mem.cpp', 'fftstub.cpp'], W[:4], dd + ['-DFFT_FFTW3'], [f'-DDIM={q}'])
        build(f'grid{q}{prec}', ['grid.cpp', 'fftstub.cpp'], W[:4], dd + ['-DFFT_FFTW3'], [f'-DDIM={q}', '-DVPM_MAXP=64'])
        build(f'keys{q}{prec}', ['wrapkeys.cpp', 'fftstub.cpp'], W, dd + ['-DFFT_FFTW3'], [f'-DDIM={q}'])
        for api, nm in ((1, 'c'), (2, 'f')):
            build(f'fft{q}{nm}{prec}', ['fft.cpp', 'fftstub.cpp'], W, dd + ['-DFFT_FFTW3'], [f'-DDIM={q}', f'-DAPI={api}'])
            build(f'tune{q}{nm}{prec}', ['tune.cpp', 'fftstub.cpp'], W, dd + ['-DFFT_FFTW3'], [f'-DDIM={q}', f'-DAPI={api}'])
            build(f'remap{q}{nm}{prec}', ['remap.cpp'], W[1:4] + [f'remap{q}d_wrap.cpp'], dd, [f'-DDIM={q}', f'-DDIMHDR="remap{q}d.h"', f'-DAPI={api}'])
def job(name, build, tier='quick', bounds='', **params):
    j = dict(name=name, build=build, params={k: v for k, v in params.items() if not k.startswith('_')}, tier=tier, bounds=bounds)
    for k, v in params.items():
        if k.startswith('_'): j[k[1:]] = v
    return j
def prop(pid, jobs, bounds, outside, **k): PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, **k)


OPT = dict(PERMUTE=-2, EXCH=-2, COLL=-2, PACK=-1, MEM=-1)
def z(d, *n): return dict(zip(('NX', 'NY', 'NZ'), n[:d]))
OUT_REMAP = 'larger grids and process counts than stated per job; non-box ownership; overlapping or incomplete tilings; more than 5 quantities per datum; layouts of 5 or more processes that are neither block nor slab layouts; MPI failures; malloc failure'
OUT_FFT = 'larger grids and process counts than stated per job; layouts of 3 or more processes other than those stated; arithmetic inside FFTW/MKL (modelled as whole-line transforms); MPI failures; malloc failure'

def remap_jobs(d):
    b, bs = f'remap{d}', f'remap{d}s'
    J = [job('p1', b, P=1, REPS=2, SPLIT=0, **z(d, 2, 2, 2)),
      job('p2-all', b, P=2, ALLFORMS=1, **z(d, 3, 2, 2)),
      job('p2-symcuts', b, P=2, SPLIT=0, PACK=0, COLL=0, MEM=1, INPLACE=0, PERMUTE=1, **z(d, 2, 2, 2)),
      job('p2-nq2-twice', b, P=2, NQ=2, REPS=2, ALLFORMS=0, **z(d, 2, 3, 2)),
      job('p2-nq3-single', bs, P=2, NQ=3, ALLFORMS=0, EMPTYFORM=1, **z(d, 3, 2, 2)),
      job('p2-nq5-block', b, P=2, NQ=5, FAM=1, **z(d, 3, 3, 3)),
      job('p3-block-anyorder', b, P=3, NQ=2, FAM=1, REV=1, REPS=2, **z(d, 3, 2, 2)),
      job('p4-block', b, P=4, NQ=2, FAM=1, ANY=2, **z(d, 3, 4, 2)),
      job('p6-block', bs, P=6, FAM=1, REV=1, ANY=1, **z(d, 4, 3, 2)),
      job('p4-slabs', b, P=4, FAM=2, SLABMAX=3, ROT=1, ANY=2, NX=6, NY=1, **({'NZ': 1} if d == 3 else {})),
      job('p5-slabs', b, P=5, FAM=2, SLABMAX=2, ROT=1, ANY=1, NX=8, NY=1, **({'NZ': 1} if d == 3 else {})),
      job('p3-subcomm', b, P=3, FAM=1, COMM=1, NQ=2, ANY=2, **z(d, 3, 4, 2)), job('p2-large-block', b, P=2, FAM=1, COLL=0, **z(d, *((9, 8, 7) if d == 3 else (21, 20))))]
    J += [job(f'p2-history-{"a2a" if c else "p2p"}', b if c else bs, P=2, TWO=1, MIX=1, REPS=3, NQ=1 + c, COLL=c, MEM=c, INPLACE=1 - c, PACK=2 - c, ALLFORMS=0, **z(d, 2, 3, 2)) for c in (0, 1)] + [job(f'p3-history-{"a2a" if c else "p2p"}', b, P=3, FAM=1, TWO=1, MIX=1, REPS=2, COLL=c, MEM=c, INPLACE=c, PACK=c, ANY=2, **z(d, 3, 2, 4)) for c in (0, 1)]
    J += [job('p18-block', b, P=18, FAM=1, ANY=1, MEM=1, **z(d, *((2, 3, 3) if d == 3 else (7, 5))))]
    L1 = dict(P=2, FAM=1, MEM=1)  # long axes: remainders of blocked or unrolled loops
    if d == 3: J += [job('p2-long-fast', b, COLL=0, INPLACE=1, **L1, **z(3, 67, 3, 2)), job('p2-long-mid', b, COLL=1, INPLACE=1, **L1, **z(3, 2, 67, 3)), job('p2-long-slow', b, COLL=0, INPLACE=0, **L1, **z(3, 3, 2, 67)), job('p2-long-nq2', bs, COLL=0, INPLACE=0, NQ=2, **L1, **z(3, 2, 37, 2)), job('p2-long-nq2-slow', b, 'thorough', COLL=0, INPLACE=1, NQ=2, **L1, **z(3, 3, 2, 40)), job('p2-long-nq4', b, 'thorough', COLL=0, INPLACE=1, NQ=4, **L1, **z(3, 35, 2, 2))]
    else: J += [job('p2-long-fast', b, COLL=1, INPLACE=0, **L1, **z(2, 130, 3)), job('p2-long-slow', b, COLL=1, INPLACE=0, **L1, **z(2, 3, 130)), job('p2-long-both', b, COLL=0, INPLACE=1, **L1, **z(2, 35, 33)), job('p2-long-nq3', bs, COLL=0, INPLACE=0, NQ=3, **L1, **z(2, 37, 2)), job('p2-long-nq2', b, 'thorough', COLL=0, INPLACE=1, NQ=2, **L1, **z(2, 3, 67))]
    if d == 3: J += [job('p3-all', b, P=3, ALLFORMS=0, ANY=2, PACK=2, MEM=1, INPLACE=0, COLL=1, PERMUTE=1, **z(3, 2, 2, 2)),
      job('p3-all-options-p2p', b, 'thorough', P=3, ALLFORMS=0, ANY=2, COLL=0, **z(3, 2, 2, 2)), job('p3-all-options-a2a', b, 'thorough', P=3, ALLFORMS=0, ANY=2, COLL=1, **z(3, 2, 2, 2)),
      job('p8-block', b, 'thorough', P=8, FAM=1, REV=1, ANY=2, **z(3, 4, 3, 5)), job('p12-block', b, 'thorough', P=12, FAM=1, ANY=1, **z(3, 6, 4, 5)), job('p8-large', b, 'thorough', P=8, FAM=1, ANY=2, **z(3, 8, 6, 5)),
      job('p2-nq5-rev', b, 'thorough', P=2, NQ=5, FAM=1, REV=1, **z(3, 3, 3, 5)), job('p2-big-all', b, 'thorough', P=2, ALLFORMS=1, EMPTYFORM=1, NQ=2, **z(3, 3, 3, 3)), job('p5-slabs3', bs, 'thorough', P=5, FAM=2, SLABMAX=2, ROT=2, ANY=2, NX=7, NY=2, NZ=1)]
    else: J += [job('p3-all', b, P=3, ALLFORMS=0, ANY=2, COLL=1, **z(2, 2, 2)),
      job('p8-block', bs, P=8, NQ=3, FAM=1, REV=1, ANY=2, **z(2, 8, 5)),
      job('p3-all-large', b, 'thorough', P=3, ALLFORMS=0, ANY=2, **z(2, 3, 3)), job('p12-block', b, 'thorough', P=12, FAM=1, REV=1, ANY=2, **z(2, 13, 9)), job('p4-block-anyorder', b, 'thorough', P=4, NQ=3, FAM=1, REV=1, **z(2, 6, 5)),
      job('p2-nq5-all', b, 'thorough', P=2, NQ=5, ALLFORMS=1, **z(2, 4, 4)), job('p4-all', b, 'thorough', P=4, ALLFORMS=0, ANY=1, COLL=1, PACK=2, MEM=1, INPLACE=0, **z(2, 2, 2))]
    return J
RB = 'every position of one probed datum, every pack method, communication method, permutation, in/out of place and buffer ownership, except where the job fixes one. Layouts: P=1,2 (P=3 up to 2x2x2): all tilings by boxes, a process may own nothing; otherwise every block layout on every process grid, ranks in natural and reversed order, or slabs of every size, to P=6 (quick), P=12 (thorough); grids to 9x8x7, single axes to 67 (2d: 35x33, single axes to 130); 1..5 quantities per datum'
prop('C01', remap_jobs(3), RB, OUT_REMAP)
prop('C02', remap_jobs(2), RB, OUT_REMAP)
prop('C03', [job('3d-p2-user', 'remap3', P=2, MEM=0, ALLFORMS=1, NQ=2, **z(3, 2, 2, 2)), job('3d-p2-user-empty', 'remap3s', P=2, MEM=0, ALLFORMS=1, EMPTYFORM=1, NQ=1, **z(3, 3, 2, 2)), job('3d-p2-own', 'remap3', P=2, MEM=1, ALLFORMS=0, NQ=3, REPS=2, **z(3, 2, 2, 3)),
  job('2d-p2-user', 'remap2', P=2, MEM=0, ALLFORMS=1, EMPTYFORM=1, NQ=3, **z(2, 3, 3)), job('2d-p2-own', 'remap2s', P=2, MEM=1, ALLFORMS=1, NQ=2, REPS=2, **z(2, 3, 2)),
  job('3d-p3-p2p-user', 'remap3', P=3, MEM=0, COLL=0, ALLFORMS=0, ANY=2, INPLACE=0, PACK=2, PERMUTE=0, **z(3, 2, 2, 2)), job('2d-p3-p2p-user', 'remap2', P=3, MEM=0, COLL=0, ALLFORMS=0, ANY=0, INPLACE=1, PACK=1, **z(2, 2, 2)),
  job('2d-p3-a2a-user', 'remap2', P=3, MEM=0, COLL=1, ALLFORMS=0, INPLACE=1, PACK=0, PERMUTE=1, **z(2, 2, 2)),
  job('3d-p4-user', 'remap3', P=4, MEM=0, FAM=1, REV=1, ANY=1, NQ=2, **z(3, 3, 4, 2)), job('2d-p5-slabs', 'remap2', P=5, MEM=0, FAM=2, SLABMAX=2, SLABMIN=0, ANY=2, NX=6, NY=1, COLL=0),
  job('3d-p3-all', 'remap3', 'thorough', P=3, MEM=0, ALLFORMS=0, ANY=2, **z(3, 2, 2, 2)), job('3d-p3-anyorder', 'remap3', 'thorough', P=3, MEM=0, ALLFORMS=0, COLL=0, ANY=0, PACK=2, PERMUTE=0, INPLACE=1, **z(3, 2, 2, 2)), job('2d-p3-all', 'remap2', 'thorough', P=3, MEM=0, ALLFORMS=0, ANY=2, NQ=2, **z(2, 3, 2)), job('3d-p6', 'remap3', 'thorough', P=6, MEM=0, FAM=1, REV=1, ANY=2, NQ=3, **z(3, 4, 3, 2))],
  RB + '; arrays and user buffers are exactly as large as documented, every access is checked', OUT_REMAP)

def fft_jobs(d, inpl=(1, 0)):
    b = f'fft{d}fftw3'; n2 = z(d, 2, 2, 2)
    J = [job(f'p2-{"in" if i else "out of "}place'.replace(' ', ''), b, P=2, INPLACE=i, SCALED=0, OPS=0x12, **OPT, **n2) for i in inpl]
    J += [job('p2-history', b, P=2, INPLACE=-1, SCALED=1, OPS=0x2112, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **n2),
      job('p2-block', b, P=2, FAM=1, REV=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, *((4, 3, 5) if d == 3 else (6, 5)))),
      job('p3-same', b + 's', P=3, SAME=1, ANY=2, INPLACE=-1, SCALED=0, OPS=0x12, **OPT, **n2),
      job('p3-slabs', b, P=3, FAM=2, ROT=2, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, **OPT, **z(d, *((3, 3, 3) if d == 3 else (3, 4)))),
      job('p4-block', b, P=4, FAM=1, ANY=2, INPLACE=-1, SCALED=0, OPS=0x12, **OPT, **z(d, *((4, 3, 2) if d == 3 else (6, 4)))),
      job('mkl', f'fft{d}mkl', P=2, FAM=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, *((2, 3, 2) if d == 3 else (3, 4)))),
      job('fftw2', f'fft{d}fftw2', P=2, FAM=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, *((3, 2, 2) if d == 3 else (4, 3)))),
      job('kiss', f'kiss{d}', P=2, PACK=2, SWAP=0, **z(d, *((2, 3, 2) if d == 3 else (4, 3)))),
      job('p3-subcomm', b, P=3, FAM=1, COMM=1, ANY=2, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, 3, 2, 4)),
      job('p2-all-empty', b, 'thorough', P=2, EMPTYFORM=1, ALLFORMS=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **n2),
      job('p2-uneven', b, 'thorough', P=2, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, *((3, 2, 2) if d == 3 else (4, 3)))),
      job('p3-shift', b, 'thorough', P=3, SAME=2, ANY=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **n2),
      job('p6-block', b, 'thorough', P=6, FAM=1, ANY=2, INPLACE=-1, SCALED=0, OPS=0x12, **OPT, **z(d, *((4, 3, 2) if d == 3 else (6, 5)))),
      job('p8-block', b, 'thorough', P=8, FAM=1, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=0, **z(d, *((4, 4, 4) if d == 3 else (8, 5)))),
      job('mkl-single', f'fft{d}mkls', 'thorough', P=2, INPLACE=0, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **n2), job('fftw2-single', f'fft{d}fftw2s', 'thorough', P=2, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **n2)]
    J += [job('p2-two-ffts', b, P=2, FAM=1, TWO=-1, INPLACE=3, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=-2, **z(d, 3, 2, 4)), job('p3-two-ffts', b + 's', P=3, FAM=1, TWO=-1, ANY=1, INPLACE=2, SCALED=0, OPS=0x121, PERMUTE=-2, EXCH=0, COLL=0, PACK=0, MEM=1, **z(d, 3, 4, 2)),
      job('two-mkl', f'fft{d}mkl', P=2, FAM=1, TWO=2, INPLACE=3, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(d, 2, 3, 4)), job('two-fftw2', f'fft{d}fftw2', P=2, FAM=1, TWO=2, INPLACE=2, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(d, 4, 3, 2)), job('p2-mixed', b, P=2, INPLACE=3, SCALED=1, OPS=0x1221, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=0, **n2)]
    LF = dict(FAM=1, ANY=1, SCALED=0, OPS=0x12, PERMUTE=-2, COLL=2)  # long axes and larger grids
    J += [job(f'p{P}-large-{"x".join(map(str, g))}', b + pr, tier, P=P, INPLACE=i, EXCH=e, PACK=k, MEM=m, **LF, **z(d, *g)) for P, g, i, e, k, m, pr, tier in
          (((2, (64, 3, 2), 1, 0, -1, 1, '', 'quick'), (2, (2, 50, 3), 0, 1, -1, 1, 's', 'quick'), (2, (3, 2, 60), 1, 0, -1, 0, '', 'quick'), (2, (16, 18, 20), 0, 0, 2, 1, '', 'quick'), (4, (12, 10, 9), 1, 0, 2, 0, '', 'quick'), (12, (12, 10, 9), 1, -2, 2, 1, '', 'thorough'), (8, (16, 16, 16), 0, 0, 1, 1, 's', 'thorough')) if d == 3 else
           ((2, (128, 3), 1, 0, -1, 1, '', 'quick'), (2, (3, 125), 0, 1, -1, 1, 's', 'quick'), (4, (36, 40), 1, 0, -1, 0, '', 'quick'), (9, (36, 40), 0, 1, 2, 1, '', 'quick'), (16, (40, 36), 1, 0, 0, 1, '', 'thorough')))]
    if d == 3: J += [job('kiss-shared', 'kiss3', P=1, NX=2, NY=3, NZ=3), job('kiss-shared-slow', 'kiss3', P=1, NX=3, NY=2, NZ=3, SWAP=0)]
    else: J += [job('kiss-equal', 'kiss2', P=1, NX=3, NY=3, SWAP=0)]
    if d == 2: J += [job('p6-block-rev', b, P=6, FAM=1, REV=1, ANY=2, INPLACE=-1, SCALED=0, OPS=0x12, **OPT, **z(2, 5, 4)), job('p3-all', b, P=3, ANY=1, INPLACE=0, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(2, 2, 2))]
    return J
FB = 'whole-array symbolic execution of setup and transforms with all settings; P=1,2: all pairs of tilings of 2x2x2 (2d: 2x2) by boxes incl. empty ones; P=3: all tilings (same layout in and out) and slabs; P=4 (to 8 in thorough): every block layout on every process grid; grids to 4x3x5 / 6x5, and with fixed settings to 16x18x20, 64x3x2 / 36x40, 128x3; 1 to 4 successive transforms'
prop('C04', fft_jobs(3), FB, OUT_FFT)
prop('C05', fft_jobs(2), FB, OUT_FFT)
prop('C06', [job('3d-p2', 'fft3fftw3', P=2, INPLACE=0, SCALED=-2, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(3, 2, 2, 2)), job('3d-p2-toggle', 'fft3fftw3', P=2, INPLACE=1, SCALED=-2, OPS=0x12cb2, PERMUTE=-2, EXCH=1, COLL=0, PACK=2, MEM=1, **z(3, 2, 2, 2)),
  job('3d-p3-uneven', 'fft3fftw3', P=3, FAM=2, SLABMIN=0, SLABMAX=2, ROT=1, ANY=1, INPLACE=-2, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=1, PACK=2, MEM=1, **z(3, 3, 2, 2)), job('3d-mkl', 'fft3mkls', P=2, FAM=1, REV=1, INPLACE=-2, SCALED=-2, OPS=0x2c1, PERMUTE=-2, EXCH=0, COLL=2, PACK=0, MEM=1, **z(3, 3, 2, 4)), job('3d-fftw2', 'fft3fftw2', P=2, FAM=1, REV=1, INPLACE=-2, SCALED=-2, OPS=0x2c1, PERMUTE=-2, EXCH=0, COLL=2, PACK=0, MEM=1, **z(3, 2, 5, 2)),
  job('3d-kiss', 'kiss3', P=2, PACK=2, SWAP=0, **z(3, 2, 2, 3)), job('3d-p4', 'fft3fftw3', P=4, FAM=1, ANY=1, INPLACE=-1, SCALED=-2, OPS=0x12c, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=0, **z(3, 4, 3, 2)),
  job('2d-p2', 'fft2fftw3', P=2, INPLACE=-2, SCALED=-2, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(2, 3, 2)), job('2d-p2-toggle', 'fft2fftw3s', P=2, INPLACE=-2, SCALED=-2, OPS=0x12cb2, PERMUTE=-2, EXCH=1, COLL=0, PACK=2, MEM=1, **z(2, 2, 2)),
  job('2d-p3-uneven', 'fft2fftw3', P=3, FAM=2, SLABMIN=0, SLABMAX=2, ROT=1, ANY=1, INPLACE=-2, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=1, PACK=2, MEM=1, **z(2, 3, 4)), job('2d-mkl', 'fft2mkl', P=2, FAM=1, REV=1, INPLACE=-2, SCALED=-2, OPS=0x2c1, PERMUTE=-2, EXCH=0, COLL=2, PACK=0, MEM=1, **z(2, 3, 4)), job('2d-fftw2', 'fft2fftw2', P=2, FAM=1, REV=1, INPLACE=-2, SCALED=-2, OPS=0x2c1, PERMUTE=-2, EXCH=0, COLL=2, PACK=0, MEM=1, **z(2, 5, 2)), job('2d-kiss', 'kiss2', P=2, PACK=2, SWAP=0, **z(2, 4, 3)), job('2d-p6', 'fft2fftw3', P=6, FAM=1, REV=1, ANY=2, INPLACE=-1, SCALED=-2, OPS=0x2c1, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=0, **z(2, 5, 4)),
  job('3d-p2-allsettings', 'fft3fftw3', 'thorough', P=2, INPLACE=-1, SCALED=-2, OPS=0x12c, **OPT, **z(3, 2, 2, 2)), job('2d-p2-allsettings', 'fft2fftw3', 'thorough', P=2, INPLACE=-1, SCALED=-2, OPS=0x12c, **OPT, **z(2, 3, 3)), job('3d-p2-uneven', 'fft3fftw3', 'thorough', P=2, INPLACE=-1, SCALED=-2, OPS=0x2, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(3, 3, 2, 2)), job('3d-p8', 'fft3fftw3', 'thorough', P=8, FAM=1, ANY=1, INPLACE=-1, SCALED=-2, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=0, **z(3, 4, 3, 4))],
  FB + '; scaling on, off and switched between calls', OUT_FFT + '; rounding of the multiplication itself')
prop('C07', [job('3d-user', 'fft3fftw3', P=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=0, **z(3, 2, 2, 2)), job('3d-uneven', 'fft3fftw3', P=2, INPLACE=0, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=1, COLL=0, PACK=-1, MEM=0, **z(3, 2, 3, 2)), job('3d-parts', 'fft3fftw3', P=2, INPLACE=-1, SCALED=1, OPS=0x783a, PERMUTE=-2, EXCH=1, COLL=2, PACK=2, MEM=0, **z(3, 2, 2, 2)),
  job('3d-p3', 'fft3fftw3s', P=3, FAM=2, SLABMIN=0, SLABMAX=3, ANY=1, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=1, COLL=-2, PACK=2, MEM=0, **z(3, 3, 2, 2)), job('3d-p4', 'fft3fftw3', P=4, FAM=1, REV=1, ANY=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=1, COLL=0, PACK=0, MEM=0, **z(3, 4, 3, 2)), job('3d-kiss', 'kiss3', P=2, PACK=0, SWAP=0, **z(3, 2, 2, 2)),
  job('2d-user', 'fft2fftw3', P=2, ALLFORMS=1, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=-1, MEM=0, **z(2, 2, 2)), job('2d-uneven', 'fft2fftw3', P=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=0, PACK=-1, MEM=0, **z(2, 3, 4)), job('2d-parts', 'fft2fftw3', P=2, INPLACE=-1, SCALED=1, OPS=0x783a, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=0, **z(2, 2, 3)), job('2d-p3', 'fft2fftw3s', P=3, FAM=2, SLABMIN=0, SLABMAX=2, ANY=1, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=0, **z(2, 3, 4)), job('2d-p6', 'fft2fftw3', P=6, FAM=1, REV=1, ANY=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=0, PACK=0, MEM=0, **z(2, 5, 4)), job('2d-kiss', 'kiss2', P=2, PACK=0, SWAP=0, **z(2, 4, 2)), job('2d-tune', 'tune2', P=2, PERMUTE=-2, COLL=0, EXCH=1, PACK=0, MEM=0, FLAG=0, NITER=1, TFLAG=1, **z(2, 3, 2)),
  job('3d-allforms', 'fft3fftw3', 'thorough', P=2, ALLFORMS=1, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=-1, MEM=-1, **z(3, 2, 2, 2)), job('3d-uneven-all', 'fft3fftw3', 'thorough', P=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=-1, MEM=0, **z(3, 2, 3, 2)), job('3d-p6', 'fft3fftw3', 'thorough', P=6, FAM=1, REV=1, ANY=2, INPLACE=-1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=1, COLL=-2, PACK=0, MEM=0, **z(3, 4, 3, 2)), job('3d-tune', 'tune3', 'thorough', P=2, PERMUTE=-2, COLL=0, EXCH=1, PACK=0, MEM=0, FLAG=0, NITER=1, TFLAG=1, **z(3, 2, 3, 2))],
  FB + '; arrays and user buffers are exactly as large as reported, every access, free and uninitialised use is checked', OUT_FFT)
K1 = [2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 20, 25, 27, 30, 32]; K2 = [18, 24, 40, 48, 60, 72, 80, 81, 90, 96, 100, 120, 125, 128]
prop('C08', [job(f'n{n}', 'kiss2', P=1, NX=n, NY=2) for n in K1] + [job(f'n{n}', 'kiss2', P=1, NX=n, NY=2, SWAP=0) for n in (36, 45, 50, 64, 75, 81, 100, 125, 128)] + [job(f'n{n}s', 'kiss2s', P=1, NX=n, NY=2) for n in (8, 12, 15, 25)] + [job(f'n{n}-few', 'kiss2', P=1, NX=n, NY=2, SWAP=0, FEW=10) for n in (162, 243, 250, 256, 300, 360, 486, 512, 625)] + [job('n216s-few', 'kiss2s', P=1, NX=216, NY=2, SWAP=0, FEW=9), job('n135-slow-few', 'kiss2', P=1, NX=2, NY=135, SWAP=0, FEW=9), job('3d-n160-few', 'kiss3', P=1, NX=2, NY=3, NZ=160, SWAP=0, FEW=8), job('3d-n90-few', 'kiss3', P=1, NX=2, NY=90, NZ=3, SWAP=0, FEW=9)] + [job(f'n{n}-few', 'kiss2', 'thorough', P=1, NX=n, NY=2, SWAP=0, FEW=8) for n in (648, 729, 750, 768, 900, 1000, 1024)] + [job('two-axes', 'kiss2', P=1, NX=6, NY=5, TWICE=1), job('3d', 'kiss3', P=1, NX=4, NY=3, NZ=5, SWAP=0), job('3d-p2', 'kiss3', P=2, PACK=2, SWAP=0, **z(3, 4, 2, 2)), job('2d-two', 'kiss2', P=1, NX=6, NY=4, TWICE=1, TWO=1), job('2d-two-equal', 'kiss2s', P=1, NX=4, NY=5, TWO=1), job('3d-two', 'kiss3', P=1, NX=3, NY=4, NZ=5, TWO=1, MX=3), job('2d-two-p2', 'kiss2', P=2, NX=3, NY=4, TWO=1, SWAP=0), job('3d-shared', 'kiss3', P=1, NX=2, NY=3, NZ=3), job('3d-shared-slow', 'kiss3', P=1, NX=3, NY=2, NZ=3, SWAP=0), job('3d-equal', 'kiss3s', P=1, NX=3, NY=3, NZ=3, SWAP=0), job('2d-equal', 'kiss2', P=1, NX=5, NY=5, SWAP=0, TWICE=1), job('2d-p3', 'kiss2', P=3, PACK=1, SWAP=0, **z(2, 6, 4))] +
  [job(f'n{n}', 'kiss2', 'thorough', P=1, NX=n, NY=2) for n in K2] + [job(f'n{n}s', 'kiss2s', 'thorough', P=1, NX=n, NY=2) for n in (2, 3, 4, 5, 6, 9, 10, 16, 18, 20, 27, 30, 32, 36, 45, 60)] + [job('3d-large', 'kiss3', 'thorough', P=1, NX=6, NY=5, NZ=4, SWAP=0), job('3d-p4', 'kiss3', 'thorough', P=4, PACK=2, SWAP=0, **z(3, 4, 3, 2))],
  'all real and imaginary input values in [-1,1] (symbolic reals, linear arithmetic); lengths 2..32 and some to 128 with all values symbolic, some to 625 (thorough 1024) with 8 to 10 values symbolic and fixed irregular others, that are products of 2, 3, 5, along either axis, 2 to 6 lines, forward and backward, in and out of place, scaled and unscaled, double and single', 'other lengths; long lengths with all values symbolic; data outside [-1,1] (the transform is linear); accumulated rounding: coefficients are compared to 1e-12 (double), 2e-5 (single) relative to the grid size, values are treated as exact reals', conc=4)
prop('C12', [job(f'{d}d-{nm}', f'tune{d}', P=p, PERMUTE=pm, COLL=c, EXCH=e, PACK=k, MEM=m, FLAG=fl, NITER=ni, TFLAG=tf, TMAX=tm, TICKS=ti, tier=t, **n) for d, nm, p, pm, c, e, k, m, fl, ni, tf, tm, ti, t, n in (
    (2, 'unlimited', 2, -2, 0, 1, 1, -2, 0, 2, 1, 0, 100, 'quick', {}), (3, 'unlimited', 2, 2, 2, 0, 2, 1, 1, 1, 0, 0, 100, 'quick', {}), (2, 'limited', 2, 0, 1, 1, 0, 0, -2, 2, 1, 40, 12, 'quick', {}), (3, 'limited', 2, 1, 2, 0, 2, 0, 1, 2, 1, 40, 10, 'quick', {}), (2, 'limited-defaults', 2, 1, 2, 0, 2, 1, 2, 2, 0, 20, 12, 'quick', {}), (2, 'p1', 1, 0, 0, 0, 0, 1, 1, 1, 1, 20, 9, 'quick', {}), (2, 'p3', 3, 1, 0, 1, 0, 0, 1, 1, 0, 0, 50, 'quick', dict(NX=3, NY=2)),
    (3, 'p3', 3, -2, 0, 1, 1, 0, 1, 1, 0, 0, 100, 'thorough', dict(NX=3, NY=2, NZ=3)), (3, 'flags', 2, -2, 1, 1, 0, -2, -2, 2, 1, 40, 12, 'thorough', dict(NX=2, NY=3, NZ=2)), (2, 'p4', 4, -2, 1, 1, 0, -2, -2, 2, 0, 80, 20, 'thorough', dict(NX=4, NY=4)), (2, 'uneven', 2, -2, 0, 1, 0, 0, 1, 1, 0, 0, 50, 'thorough', dict(LAYOUT=1)))],
  'every clock advance of 0..100 ticks between any two readings, independently on every process; 1 to 4 processes, grids to 4x4 / 3x2x3, tmax 0 (no limit) and 20..80 ticks, 1 or 2 transforms per trial, all directions, initial settings as listed', 'non-integer tick ratios; niter above 2 (scaling by 1/3 and the like is not exact in the encoding); layouts other than slabs in quick', assume=['clock readings are integers small enough for exact arithmetic'])
prop('C14', [job('3d-p2-remap', 'remap3', P=2, REPS=2, ALLFORMS=0, MEM=1, **z(3, 2, 2, 2)), job('3d-p3-anyorder', 'remap3', P=3, FAM=1, REV=1, REPS=2, **z(3, 3, 2, 2)), job('3d-p3-slabs', 'remap3', P=3, FAM=2, SLABMIN=0, SLABMAX=3, ROT=2, **z(3, 3, 1, 1)), job('2d-p4-anyorder', 'remap2', P=4, FAM=1, REV=1, PACK=2, MEM=0, **z(2, 4, 3)), job('2d-p3-all', 'remap2', P=3, ALLFORMS=0, COLL=1, PACK=2, MEM=1, INPLACE=0, **z(2, 2, 2)), *[job(f'{d}d-p{p}-chain', f'remap{d}', P=p, FAM=2, SLABMAX=2, ROT=1, ANY=1, COLL=1, PACK=2, MEM=1, INPLACE=0, PERMUTE=0, NX=nx, NY=1, **({'NZ': 1} if d == 3 else {})) for d in (2, 3) for p, nx in ((5, 8), (7, 13))], *[job(f'{d}d-p8-a2a', f'remap{d}', P=8, FAM=1, REV=1, ANY=1, COLL=1, PACK=2, MEM=1, INPLACE=0, PERMUTE=0, **z(d, 4, 6, 4)) for d in (2, 3)], job('3d-p8', 'remap3', P=8, FAM=1, ANY=2, COLL=0, MEM=1, PACK=2, **z(3, 4, 4, 4)), job('3d-p16', 'remap3', P=16, FAM=1, ANY=1, MEM=1, PACK=2, PERMUTE=1, **z(3, 4, 2, 4)), job('2d-p17-slabs', 'remap2', P=17, FAM=2, SLABMAX=1, ROT=2, ANY=1, MEM=1, PACK=2, NX=17, NY=2), *[job(f'{d}d-two', f'remap{d}', P=3, FAM=1, TWO=1, MIX=1, REPS=2, COLL=c, MEM=1, INPLACE=0, PACK=2, **z(d, 3, 2, 4)) for d, c in ((3, 0), (2, 1))],
  job('3d-fft-p2', 'fft3fftw3', P=2, INPLACE=1, SCALED=1, OPS=0x12, **OPT, **z(3, 2, 2, 2)), job('3d-fft-p3-anyorder', 'fft3fftw3', P=3, FAM=1, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(3, 2, 2, 3)), job('3d-fft-parts', 'fft3fftw3', P=3, FAM=1, ANY=1, INPLACE=1, SCALED=1, OPS=0x394, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(3, 2, 3, 2)), job('2d-fft-p3-anyorder', 'fft2fftw3', P=3, FAM=1, REV=1, INPLACE=0, SCALED=1, OPS=0x121, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(2, 3, 4)), job('3d-fft-p6', 'fft3fftw3', P=6, FAM=1, ANY=2, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=1, COLL=0, PACK=2, MEM=0, **z(3, 4, 3, 2)), job('2d-tune', 'tune2', P=2, PERMUTE=0, COLL=0, EXCH=1, PACK=0, MEM=1, FLAG=1, NITER=1, TFLAG=1, TMAX=40, TICKS=10), job('3d-tune', 'tune3', P=2, PERMUTE=2, COLL=0, EXCH=1, PACK=0, MEM=1, FLAG=0, NITER=1, TFLAG=0),
  job('2d-subcomm', 'fft2fftw3', P=3, FAM=1, COMM=1, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(2, 3, 4)), job('3d-subcomm', 'fft3fftw3', P=2, FAM=1, COMM=1, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(3, 2, 3, 2)),
  job('3d-p3-all-p2p', 'remap3', 'thorough', P=3, ALLFORMS=0, COLL=0, PACK=2, PERMUTE=0, INPLACE=1, MEM=1, **z(3, 2, 2, 2)), job('3d-p3-all-a2a', 'remap3', 'thorough', P=3, ALLFORMS=0, COLL=1, PACK=2, PERMUTE=1, INPLACE=0, MEM=1, **z(3, 2, 2, 2)), job('3d-p5-anyorder', 'remap3', 'thorough', P=5, FAM=2, SLABMAX=2, ROT=1, COLL=0, PACK=2, MEM=1, INPLACE=0, NX=7, NY=1, NZ=1), job('3d-fft-p4-anyorder', 'fft3fftw3', 'thorough', P=4, FAM=1, INPLACE=1, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=0, PACK=2, MEM=1, **z(3, 2, 2, 2))],
  'every order in which received messages complete (jobs named anyorder and P=2), first-to-last and last-to-first elsewhere; every send completes only when its receive is posted; 2 to 8 processes, layouts as in C01/C04', OUT_FFT + '; MPI progress rules beyond the modelled calls')
prop('C15', [job('3d-remaps', 'fft3fftw3', P=2, INPLACE=-2, SCALED=1, OPS=0x3456, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 2, 2, 2)), job('3d-stages', 'fft3fftw3', P=2, INPLACE=-2, SCALED=0, OPS=0x9a, PERMUTE=-2, EXCH=-2, COLL=0, PACK=2, MEM=0, **z(3, 2, 2, 2)), job('3d-1d', 'fft3fftw3', P=2, INPLACE=1, SCALED=1, OPS=0x78, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 2, 2, 2)), job('3d-mixed', 'fft3fftw3s', P=2, FAM=1, INPLACE=-2, SCALED=1, OPS=0x1354a62, PERMUTE=-2, EXCH=-2, COLL=1, PACK=1, MEM=1, **z(3, 4, 3, 2)), job('3d-p4', 'fft3fftw3', P=4, FAM=1, ANY=1, INPLACE=-1, SCALED=1, OPS=0x349a5678, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 4, 3, 2)), job('3d-uneven-1d', 'fft3fftw3', P=2, FAM=1, INPLACE=1, SCALED=1, OPS=0x78, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 2, 3, 4)), job('3d-mkl', 'fft3mkl', P=2, FAM=1, INPLACE=-2, SCALED=1, OPS=0x78349a56, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 2, 3, 4)), job('3d-fftw2', 'fft3fftw2', P=2, FAM=1, INPLACE=-2, SCALED=1, OPS=0x78349a56, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 3, 4, 2)),
  job('2d-remaps', 'fft2fftw3', P=2, INPLACE=-2, SCALED=1, OPS=0x3456, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 3, 2)), job('2d-stages', 'fft2fftw3', P=2, INPLACE=-2, SCALED=0, OPS=0x9a, PERMUTE=-2, EXCH=-2, COLL=0, PACK=2, MEM=0, **z(2, 3, 2)), job('2d-1d', 'fft2fftw3', P=2, INPLACE=1, SCALED=1, OPS=0x78, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 2, 3)), job('2d-p3', 'fft2fftw3s', P=3, FAM=2, SLABMIN=0, SLABMAX=2, ANY=2, INPLACE=-2, SCALED=1, OPS=0x1354a672, PERMUTE=-2, EXCH=-2, COLL=1, PACK=1, MEM=1, **z(2, 3, 4)), job('2d-p6', 'fft2fftw3', P=6, FAM=1, REV=1, ANY=1, INPLACE=-1, SCALED=1, OPS=0x349a5678, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 5, 4)), job('2d-mkl', 'fft2mkl', P=2, FAM=1, INPLACE=-2, SCALED=1, OPS=0x78349a56, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 3, 4)), job('2d-fftw2', 'fft2fftw2', P=2, FAM=1, INPLACE=-2, SCALED=1, OPS=0x78349a56, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 4, 3)),
  job('3d-stages-all', 'fft3fftw3', 'thorough', P=2, INPLACE=-2, SCALED=0, OPS=0x9a, **OPT, **z(3, 2, 2, 2)), job('3d-remaps-all', 'fft3fftw3', 'thorough', P=2, INPLACE=-2, SCALED=1, OPS=0x3456, **OPT, **z(3, 2, 2, 2)), job('2d-all', 'fft2fftw3', 'thorough', P=2, INPLACE=-2, SCALED=1, OPS=0x349a5678, **OPT, **z(2, 3, 3)), job('3d-p3', 'fft3fftw3', 'thorough', P=3, FAM=2, ROT=2, ANY=2, INPLACE=-2, SCALED=1, OPS=0x349a56, **OPT, **z(3, 3, 3, 3))],
  FB + '; sequences of only_remaps, all stages by only_one_remap, only_1d_ffts, compute with remaponly, and compute', OUT_FFT)

BIGR = dict(LAYOUT=0, NMIN=234217728, NMAX=268435456)
BIGN = [job(f'{d}d-{n}', f'grid{d}', PMIN=p, PMAX=p, LAYOUT=l, **z(d, *g)) for n, d, p, l, g in (('2e32', 2, 16, 0, (65536, 65536)), ('2e32', 3, 16, 1, (2048, 2048, 1024)), ('5e9', 3, 27, 2, (2000, 1500, 1620)), ('3e10', 2, 32, 1, (162000, 200000)))]
prop('C09', [job('2d-p1-8', 'grid2', PMIN=1, PMAX=8, NMAX=5), job('3d-p1-8', 'grid3', PMIN=1, PMAX=8, NMAX=3), job('3d-p9-13', 'grid3', PMIN=9, PMAX=13, NMAX=3, LAYOUT=0), job('2d-p14-20', 'grid2', PMIN=14, PMAX=20, NMAX=3, LAYOUT=1), job('3d-p16', 'grid3s', PMIN=16, PMAX=16, NMAX=3, LAYOUT=3), job('3d-p24', 'grid3', PMIN=24, PMAX=24, NX=2, NMAX=3, LAYOUT=0), job('3d-p30', 'grid3', PMIN=30, PMAX=30, NX=2, NY=3, NMAX=3, LAYOUT=2), job('3d-p36', 'grid3', PMIN=36, PMAX=36, NX=2, NY=2, NMAX=3, LAYOUT=0), job('3d-p49', 'grid3', PMIN=49, PMAX=49, NX=2, NY=4, NZ=3, LAYOUT=2), job('2d-p36', 'grid2', PMIN=36, PMAX=36, NX=4, NMAX=3, LAYOUT=1), job('2d-p48', 'grid2s', PMIN=48, PMAX=48, NX=6, NY=9, LAYOUT=0), job('2d-p60', 'grid2', PMIN=60, PMAX=60, NX=8, NY=8, LAYOUT=1), job('3d-p60', 'grid3', 'thorough', PMIN=60, PMAX=60, NX=4, NY=3, NZ=5, LAYOUT=0), job('3d-p48', 'grid3', 'thorough', PMIN=48, PMAX=48, NX=4, NY=4, NMAX=4, LAYOUT=1), job('2d-large', 'grid2', PMIN=6, PMAX=6, NMIN=96, NMAX=128, LAYOUT=2), job('3d-large', 'grid3', PMIN=8, PMAX=8, NMIN=30, NMAX=40, LAYOUT=0),
  job('2d-huge-slow', 'grid2', PMIN=8, PMAX=8, NX=2, **BIGR), job('2d-huge-fast', 'grid2', PMIN=9, PMAX=9, NY=2, **BIGR), job('3d-huge-fast', 'grid3', PMIN=12, PMAX=12, NY=2, NZ=3, **BIGR), job('3d-huge-mid', 'grid3', PMIN=10, PMAX=10, NX=2, NZ=3, **BIGR), job('3d-huge-slow', 'grid3', PMIN=12, PMAX=12, NX=3, NY=2, **BIGR),
  *BIGN,
  job('3d-fft-p11', 'fft3fftw3', P=11, FAM=1, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 2, 2, 2)), job('2d-fft-p7', 'fft2fftw3', P=7, FAM=1, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 2, 3)), job('3d-fft-p5', 'fft3fftw3', P=5, FAM=1, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 3, 4, 2)),
  job('2d-all', 'grid2', 'thorough', PMIN=1, PMAX=24, NMAX=9), job('3d-all', 'grid3', 'thorough', PMIN=1, PMAX=16, NMAX=5), job('3d-p17-32', 'grid3', 'thorough', PMIN=17, PMAX=32, NMAX=4, LAYOUT=0), job('2d-p20-32', 'grid2', 'thorough', PMIN=20, PMAX=32, NMAX=6, LAYOUT=0)] +
  [job(f'{d}d-huge-{a}-p{p}', f'grid{d}', 'thorough', PMIN=p, PMAX=p, LAYOUT=l, NMIN=33554432, NMAX=268435456, **{x: 2 for i, x in enumerate(('NX', 'NY', 'NZ')[:d]) if i != a}) for d in (2, 3) for a in range(d) for p in (7, 16, 24) for l in (a,)] +
  [job('3d-fft-p13', 'fft3fftw3', 'thorough', P=13, FAM=1, ANY=1, INPLACE=-1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=-2, PACK=2, MEM=1, **z(3, 3, 2, 3)), job('3d-fft-p16', 'fft3fftw3', 'thorough', P=16, FAM=1, ANY=1, INPLACE=1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(3, 4, 3, 4)), job('2d-fft-p24', 'fft2fftw3', 'thorough', P=24, FAM=1, ANY=1, INPLACE=1, SCALED=0, OPS=0x12, PERMUTE=-2, EXCH=-2, COLL=2, PACK=2, MEM=1, **z(2, 8, 5))],
  'setup alone: 1 to 20 and 24, 30, 36, 48, 49, 60 processes, every supported length 2..5 (2d), 2..3 (3d) per axis and samples to 128, one axis with every supported length 234217728..268435456 on 8 to 12 processes, four grids of 4e9 to 3e10 points on 16 to 32 processes; permute and exchange all; slabs along any axis or everything on one process; whole transforms with 5, 7, 11 processes', 'more processes; grids whose share of one process exceeds the range of int; other input layouts')
prop('C10', [job(f'{d}d-{n}', f'valid{d}', tier, **k) for n, d, tier, k in (
    ('dims', 2, 'quick', dict(P=2, MODE=0, NMAX=600)), ('dims', 3, 'quick', dict(P=1, MODE=0, NMAX=500)), ('dims-p3', 3, 'quick', dict(P=3, MODE=0, NMAX=60)), ('tiles', 2, 'quick', dict(P=2, MODE=1, NX=3, NY=4, RANGE=1000)), ('tiles', 3, 'quick', dict(P=2, MODE=1, NX=3, NY=2, NZ=2, RANGE=20)), ('tiles-p1', 3, 'quick', dict(P=1, MODE=1, NX=3, NY=2, NZ=2, RANGE=30)), ('tiles-p3', 2, 'quick', dict(P=3, MODE=1, NX=2, NY=2, RANGE=2)),
    ('calls', 2, 'quick', dict(P=2, MODE=2, NOPS=3)), ('calls', 3, 'quick', dict(P=2, MODE=2, NOPS=3)), ('tune', 2, 'quick', dict(P=2, MODE=3)), ('tune', 3, 'quick', dict(P=2, MODE=3)), ('precision', 2, 'quick', dict(P=2, MODE=4)), ('precision', 3, 'quick', dict(P=2, MODE=4)), ('remap', 2, 'quick', dict(P=2, MODE=5)), ('remap', 3, 'quick', dict(P=2, MODE=5)),
    ('dims-large', 3, 'thorough', dict(P=1, MODE=0, NMAX=2000)), ('dims-large', 2, 'thorough', dict(P=2, MODE=0, NMAX=3000)), ('calls-4', 3, 'thorough', dict(P=2, MODE=2, NOPS=4)), ('calls-4', 2, 'thorough', dict(P=2, MODE=2, NOPS=4)), ('tiles-p3', 3, 'thorough', dict(P=3, MODE=1, NX=2, NY=2, NZ=2, RANGE=2)), ('tiles-large', 3, 'thorough', dict(P=2, MODE=1, NX=4, NY=3, NZ=5, RANGE=100)))] +
    [job(f'{d}d-precision-single', f'valid{d}s', P=1, MODE=4) for d in (2, 3)] + BIGN,
  'one grid dimension -5..600 (2d), -5..500 (3d; to 3000 / 2000 in thorough), or all of them -5..8; every process passes any tile indices from 1000 below to 1000 above the grid (3d: 20), 1 to 3 processes; every sequence of 3 calls (4 in thorough); every tune() argument -1000..1000 (niter to 2, tmax -3..0); every precision argument to a million; four valid grids of 4e9 to 3e10 points', 'output tile indices (the library does not validate them, nor does the property demand it); overlapping tiles whose sizes add up; user buffers given although the library provides them; larger dimensions')
LF = 'PACK=-1'
prop('C11', [job(f'{d}d-{n}', f'life{d}{be}', tier, **k) for n, d, be, tier, k in [(f'{be}', d, be, 'quick', dict(P=2, RSTAGE=0, PACK=-1, COLL=2 if be != 'fftw3' else -2, EXCH=-2, **({'MEM': -1} if d == 3 and be != 'kiss' else {}))) for d in (2, 3) for be in ('fftw3', 'fftw2', 'mkl', 'kiss')] + [
    ('kiss-mid', 3, 'kiss', 'quick', dict(P=1, RSTAGE=0, STAGE=4, COLL=2, EXCH=1, PACK=2, NX=3)), ('kiss-fast', 3, 'kiss', 'quick', dict(P=1, RSTAGE=0, STAGE=4, COLL=2, EXCH=1, PACK=2, NY=3)), ('kiss-none', 3, 'kiss', 'quick', dict(P=1, RSTAGE=0, STAGE=6, COLL=2, EXCH=1, PACK=2, NY=3, NZ=4)), ('kiss-none', 2, 'kiss', 'quick', dict(P=1, RSTAGE=0, STAGE=4, COLL=2, EXCH=1, PACK=2, NY=3)),
    ('remap', 2, 'fftw3', 'quick', dict(P=2, STAGE=0, RMEM=-1, RCOLL=-1, PACK=-1)), ('remap', 3, 'fftw3', 'quick', dict(P=2, STAGE=0, RMEM=-1, RCOLL=-1, PACK=-1)), ('remap-fft', 3, 'fftw3s', 'quick', dict(P=2, STAGE=3, COLL=1, EXCH=1, PERMUTE=2, RMEM=-1, RCOLL=-2, PACK=-1, MEM=-1)), ('two', 2, 'fftw3', 'quick', dict(P=2, NF=2, RSTAGE=0, COLL=2, PERMUTE=1, MEM=-1, PACK=-1, EXCH=1)), ('two', 3, 'fftw3', 'quick', dict(P=2, NF=2, RSTAGE=0, COLL=1, PERMUTE=2, MEM=-1, PACK=-1, EXCH=0)), ('p3', 3, 'fftw3', 'quick', dict(P=3, RSTAGE=0, PACK=-1, MEM=-1, COLL=-2, EXCH=1, PERMUTE=0, NX=3, NZ=3)),
    ('tilings', 2, 'fftw3', 'quick', dict(P=2, LAYOUT=1, RSTAGE=0, STAGE=4, COLL=1, EXCH=1, PACK=-1, MEM=-1)), ('tilings', 3, 'fftw3', 'quick', dict(P=2, LAYOUT=1, RSTAGE=2, STAGE=1, COLL=1, EXCH=1, PACK=-1, MEM=-1, RMEM=-1, RCOLL=1, PERMUTE=0, ORDER=0)),
    ('two-all', 2, 'fftw3', 'thorough', dict(P=2, NF=2, RSTAGE=0, COLL=-2, PERMUTE=-2, MEM=-1, PACK=-1)), ('three', 3, 'fftw3', 'thorough', dict(P=2, NF=3, RSTAGE=3, COLL=2, PERMUTE=2, MEM=-1, PACK=-1, EXCH=1, RCOLL=1)), ('tilings-all', 3, 'fftw3', 'thorough', dict(P=2, LAYOUT=1, RSTAGE=0, PACK=-1, MEM=-1, COLL=-2)), ('p4', 3, 'fftw3', 'thorough', dict(P=4, FAM=1, LAYOUT=1, RSTAGE=0, PACK=-1, MEM=-1, COLL=-2, NX=4, NY=3)), ('kiss-tilings', 2, 'kiss', 'thorough', dict(P=2, LAYOUT=1, RSTAGE=0, PACK=-2, MEM=-2, COLL=2))]],
  'one FFT destroyed after creation, setup, setup_memory, a transform, several operations, tune or a transform after tune; one Remap likewise; two FFTs (three in thorough) and a Remap alive at once, destroyed in 3 orders; every setting; 2 and 3 processes; grids to 3x2x3; all four 1d FFT libraries', 'more objects, more processes, larger grids; memory held inside FFTW and MKL', assume=['a 1d FFT library releases what it holds when its destroy function is called'])
CM = dict(COMM=1)
prop('C13', [job(f'{d}d-keys{s}', f'keys{d}{s}', P=2) for d in (2, 3) for s in ('', 's')] + [job(f'{d}d-remap-{a}', f'remap{d}{a}', P=2, NQ=2, PACK=-2, COMM=int(a == 'f'), **z(d, 2, 3, 2)) for d in (2, 3) for a in 'cf'] +
  [job(f'{d}d-fft-{a}', f'fft{d}{a}', P=2, COMM=int(a == 'f'), INPLACE=1, SCALED=-2, OPS=0x123456789abc % 16**8 if a == 'c' else 0x129a, PERMUTE=-2, EXCH=-2, COLL=0 if a == 'c' else 2, PACK=2, MEM=0, FAM=1, **z(d, 3, 2, 4)) for d in (2, 3) for a in 'cf'] +
  [job(f'{d}d-fft-tilings-{a}', f'fft{d}{a}', P=2, INPLACE=0, SCALED=1, OPS=0x12, PERMUTE=-2, EXCH=0, COLL=2, PACK=2, MEM=1, **z(d, 2, 2, 2)) for d in (2, 3) for a in 'cf'] +
  [job(f'{d}d-tune-{a}', f'tune{d}{a}', P=2, PERMUTE=DIMP, COLL=0, EXCH=1, PACK=0, MEM=0, FLAG=-2 if d == 2 else 0, NITER=1, TFLAG=1 if d == 2 else 0, LAYOUT=0, TMAX=20, TICKS=9) for d, DIMP in ((2, 1), (3, 2)) for a in 'cf'] +
  [job(f'{d}d-fft-all-{a}', f'fft{d}{a}s', 'thorough', P=2, COMM=1, INPLACE=-1, SCALED=1, OPS=0x12, **OPT, **z(d, 2, 2, 2)) for d in (2, 3) for a in 'cf'] + [job(f'{d}d-remap-all-{a}', f'remap{d}{a}', 'thorough', P=3, FAM=1, NQ=3, COMM=1, **z(d, 3, 4, 2)) for d in (2, 3) for a in 'cf'],
  'the properties C01, C02, C04-C06, C12, C15 decided again through the C and the Fortran-callable functions, 2 and 3 processes, asymmetric grids, all settings set by keyword, sub-communicators; every documented keyword with every value', 'the Fortran modules and the Python wrapper themselves (C17); unknown keywords other than those tried')
prop('C16', [job('2d-p1', 'mem2', P=1, PACK=-1), job('2d-p2', 'mem2', P=2, PACK=-1, FIRST=0), job('2d-p2-second', 'mem2', P=2, PACK=2, FIRST=1, COLL=1), job('3d-p2', 'mem3s', P=2, PACK=-1, COLL=2, FIRST=1), job('3d-p3', 'mem3', P=3, FAM=1, PACK=2, COLL=2, NX=3),
  job('2d-p2-all', 'mem2', 'thorough', P=2, PACK=-1, NX=3), job('3d-p2-all', 'mem3', 'thorough', P=2, PACK=-1), job('3d-p4', 'mem3', 'thorough', P=4, FAM=1, PACK=-1, NX=4)],
  'all pairs of tilings of 2x2 / 2x2x2 among 2 processes, block layouts of 3 (4 in thorough), every setting, after setup and after tune, the first object and the second', OUT_FFT)
prop('C18', [job('3d-remap', 'remap3', P=2, LATE=1, **z(3, 2, 2, 2)), job('2d-remap', 'remap2s', P=2, LATE=1, NQ=2, REPS=2, **z(2, 3, 2)), job('3d-remap-p3', 'remap3', P=3, FAM=1, LATE=1, ANY=2, **z(3, 3, 2, 4)), job('2d-remap-p4', 'remap2', P=4, FAM=1, LATE=1, ANY=2, **z(2, 4, 5)), job('3d-remap-c', 'remap3c', P=2, LATE=1, FAM=1, **z(3, 2, 3, 2)), job('2d-remap-f', 'remap2f', P=2, LATE=1, FAM=1, **z(2, 2, 3))] +
  [job(f'{d}d-fft', f'fft{d}fftw3', P=2, FAM=1, LATE=1, INPLACE=1, SCALED=1, OPS=0x12, **dict(OPT, MEM=-2), **z(d, 2, 3, 2)) for d in (2, 3)] + [job(f'{d}d-fft-parts', f'fft{d}fftw3s', P=2, FAM=1, LATE=1, INPLACE=0, SCALED=0, OPS=0x349a56, **dict(OPT, MEM=-2, PACK=2), **z(d, 3, 2, 2)) for d in (2, 3)] + [job('2d-fft-tilings', 'fft2fftw3', P=2, LATE=1, INPLACE=0, SCALED=1, OPS=0x12, **dict(OPT, MEM=-2, COLL=2), **z(2, 2, 2)), job('3d-fft-p4', 'fft3fftw3', P=4, FAM=1, LATE=1, ANY=1, INPLACE=1, SCALED=0, OPS=0x12, **dict(OPT, MEM=-2, PACK=0), **z(3, 4, 3, 2)), job('3d-fft-c', 'fft3c', P=2, FAM=1, LATE=1, INPLACE=1, SCALED=1, OPS=0x1, **dict(OPT, MEM=-2, PACK=0), **z(3, 2, 2, 2)), job('2d-mkl', 'fft2mkl', P=2, FAM=1, LATE=1, INPLACE=1, SCALED=1, OPS=0x12, **dict(OPT, MEM=-2, PACK=0), **z(2, 2, 3))] +
  [job(f'{d}d-fft-all', f'fft{d}fftw3', 'thorough', P=2, LATE=1, INPLACE=-1, SCALED=1, OPS=0x12, **dict(OPT, MEM=-2), **z(d, 2, 2, 2)) for d in (2, 3)] + [job(f'{d}d-remap-p3-all', f'remap{d}', 'thorough', P=3, ALLFORMS=0, LATE=1, ANY=2, COLL=1, PACK=2, PERMUTE=1, **z(d, 2, 2, 2)) for d in (2, 3)],
  RB + '; ' + FB + '; collective, exchange, pack and memory set to any other values right after setup', OUT_FFT + '; values outside the documented ones; the remaponly and scale settings, which may be changed at any time (C06, C15)')
