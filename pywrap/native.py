"""Replays one case on the wrapper with the real ctypes and numpy and the recording library; exit 1 if the property is violated."""
import sys, os, json, types, ctypes, gc
import numpy as np
case = json.load(open(sys.argv[1])); src = open(sys.argv[2]).read(); libdir = sys.argv[3]
def bad(m): print('REPLAY-VIOLATION', m); sys.stdout.flush(); os._exit(1)
comm = types.SimpleNamespace(); cell = (ctypes.c_int if case['commsize'] == 4 else ctypes.c_longlong)(case['comm'])
MPI = types.ModuleType('mpi4py.MPI'); MPI._sizeof = lambda c: case['commsize']; MPI._addressof = lambda c: ctypes.addressof(cell); MPI.Comm = types.SimpleNamespace; MPI._handleof = lambda c: case['comm']
m = types.ModuleType('mpi4py'); m.MPI = MPI; sys.modules['mpi4py'] = m; sys.modules['mpi4py.MPI'] = MPI
g = {'__name__': 'fftmpi', 'print': lambda *a, **k: None, 'xrange': range, 'long': int, 'unicode': str}
exec(compile(src, 'fftmpi.py', 'exec'), g)
g['traceback'] = types.SimpleNamespace(print_exception=lambda *a, **k: None, print_exc=lambda *a, **k: None)
sys.unraisablehook = lambda *a: None
D = {}
if not case['nolib']:
    for d in '32':
        L = ctypes.CDLL(f'{libdir}/libfft{d}dmpi.so', 256); L.vp_log.restype = ctypes.c_char_p; L.vp_set.argtypes = [ctypes.c_void_p, ctypes.c_longlong, ctypes.c_double, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_longlong]; D[d] = L
def prep(outs=(), r=0, dr=0.0, s=b'', iv=(), dv=(), null=0, h=0):
    o = (ctypes.c_int * 8)(*outs); i = (ctypes.c_int * 8)(*iv); d = (ctypes.c_double * 8)(*dv)
    for L in D.values(): L.vp_set(ctypes.addressof(o), r, dr, s, ctypes.addressof(i), ctypes.addressof(d), null, h)
def logs(): return [l for L in D.values() for l in L.vp_log().decode('latin1').split('\n') if l]
objs, dels, scalar, keep = {}, {}, 2, []
for k, c in list(g.items()):
    if isinstance(c, type) and k.endswith('dMPI'):
        dels[k] = c.__dict__.get('__del__')
        if dels[k] is not None: delattr(c, '__del__')
for s in case['steps']:
    cls = s['cls']; pre = 'fft' if cls[0] == 'F' else 'remap'; pre += ('3' if '3d' in cls else '2') + 'd_'; what = f'{cls}.{s["op"]}'; err = r = None; want = []
    if s['op'] == '__init__':
        prep(h=s['handle']); o = g[cls].__new__(g[cls]); objs[s['obj']] = (o, s['handle']); ok = s['prec'] in (1, 2) and not case['nolib']; scalar = s['prec']
        try: o.__init__(comm, s['prec'])
        except (Exception, SystemExit) as e: err = e
        if ok:
            if err is not None: bad(f'{what}: raises {type(err).__name__}: {err}')
            want = [f'{pre}create {case["comm"]}' + (f' {s["prec"]}' if pre[0] == 'f' else '') + ' out']
        elif err is None: bad(f'{what}: an invalid call is not reported')
    elif s['op'] in ('del', 'destroy'):
        prep(); o, h = objs[s['obj']]; want = [f'{pre}destroy {h}'] if s['live'] else []
        try: (o.destroy() if s['op'] == 'destroy' else dels[cls] and dels[cls](o))
        except (Exception, SystemExit) as e: err = e
        if err is not None and s['live']: bad(f'{what}: raises {type(err).__name__}: {err}')
    else:
        o, h = objs[s['obj']]; args, exp = [], []
        for k, v in s['args']:
            if k == 'str': args.append(v.encode()); exp.append(v)
            elif k == 'arr': a = np.zeros(max(v, 1), np.float32 if scalar == 1 else np.float64)[:v]; keep.append(a); args.append(a); exp.append(str(a.ctypes.data))
            elif k == 'same': args.append(args[v]); exp.append(exp[v])
            elif k == 'bad': args.append([0.0, 1.0]); exp.append('')
            else: args.append(v); exp.append('%d' % v if k == 'int' else '%.17g' % v)
        res = s['res']; ret = s.get('ret', 0)
        prep(s['outs'], ret if res in ('int', 'int64') else 0, ret if res == 'double' else 0.0, ret.encode() if res == 'string' else b'', ret if res == 'int_vector' else (), ret if res == 'double_vector' else (), int(s['null']))
        try: r = getattr(o, s['op'])(*args)
        except (Exception, SystemExit) as e: err = e
        if s['bad']:
            if err is None: bad(f'{what}: an invalid call is not reported')
        else:
            if err is not None: bad(f'{what}: raises {type(err).__name__}: {err}')
            want = [' '.join([s['cname']] + [str(h) if c == 'H' else 'out' if c == 'o' else exp[int(c)] for c in s['cargs']])]
            if res in ('int', 'int64', 'double') and r != ret: bad(f'{what}: returns {r!r}, the library answered {ret!r}')
            if res == 'outs' and list(r if isinstance(r, (tuple, list)) else [r]) != s['outs']: bad(f'{what}: returns {r!r}, the library set {s["outs"]}')
            if res == 'string' and r != (None if s['null'] else ret.encode()): bad(f'{what}: returns {r!r}, the library answered {ret!r}')
            if res.endswith('vector') and (r is not None if s['null'] else r is None or list(r) != ret[:s['outs'][0]]): bad(f'{what}: returns {r!r}, the library answered {ret[:s["outs"][0]]}')
    if logs() != want: bad(f'{what}: the library receives {logs()}, documented is {want}')
print('ok'); sys.stdout.flush(); os._exit(0)
