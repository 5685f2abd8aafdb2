#!/opt/veriftools/pyvenv/bin/python3
"""Decides the Python-wrapper property: executes /repo/src/fftmpi.py symbolically against the C prototypes of /repo/src/*_wrap.h;
every obligation is decided by z3, counterexamples are replayed with the real ctypes, numpy and a compiled recording library.
usage: check.py PROPERTY [--tier quick|thorough]"""
import sys, os, json, subprocess, tempfile, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import z3, sym
T0 = time.time()

def protos(dim):
    """C prototypes the library of that dimension exports, from the current headers"""
    src = f'#include "fft{dim}d_wrap.h"\n#include "remap{dim}d_wrap.h"\n'
    r = subprocess.run(['clang++-18', '-x', 'c++', '-fsyntax-only', '-Xclang', '-ast-dump=json', f'-I{V}/model/fake', f'-I{V}/model', f'-I{REPO}/src', '-'], input=src, capture_output=True, text=True)
    if r.returncode: raise SystemExit('CHECK-ERROR cannot parse the headers\n' + r.stderr[-2000:])
    out = {}
    def walk(n):
        if n.get('kind') == 'FunctionDecl' and re.match(rf'(fft|remap){dim}d_', n.get('name', '')):
            t = n['type']['qualType']; m = re.match(r'^(.*?)\s*\((.*)\)', t); ps = [p.strip() for p in m.group(2).split(',')] if m.group(2).strip() not in ('', 'void') else []
            def c(p): p = re.sub(r'\bconst\b', '', p).strip(); return 'comm' if p == 'MPI_Comm' else 'int' if p in ('int', 'MPI_Fint', 'int32_t') else p if p in ('double', 'float') else 'int64_t' if p in ('int64_t', 'long', 'long long') else p
            out[n['name']] = dict(ret=c(m.group(1)), params=[c(p) for p in ps])
        elif n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl', 'NamespaceDecl'):
            for k in n.get('inner', []): walk(k)
    walk(json.loads(r.stdout)); return out

# the documented methods: name -> (argument kinds, C arguments in terms of them, results).  i int, r real, s string, a array; o = int result
def methods(cls):
    d = 3 if '3d' in cls else 2; box = 'i' * (4 * d); g = 'i' * d; m = {}
    def add(n, args, call, res): m[n] = (args, call, res)
    add('set', 'si', 'H01', ''); p = 'fft%dd_' % d if cls.startswith('FFT') else 'remap%dd_' % d
    rng = lambda n: [str(i) for i in range(n)]
    if cls.startswith('FFT'):
        for k in ('int', 'int64', 'double'): add('get_' + k, 's', 'H0', k)
        for k in ('string', 'int_vector', 'double_vector'): add('get_' + k, 's', 'H0o', k)
        a = g + box + 'i'; n = len(a); add('setup', a, ['H'] + rng(n) + ['o'] * 3, 'outs'); add('tune', a + 'iiri', ['H'] + rng(n) + ['o'] * 3 + [str(n + k) for k in range(4)], 'outs')
        add('setup_memory', 'aa', 'H01', ''); add('compute', 'aai', 'H012', ''); add('only_1d_ffts', 'ai', 'H01', ''); add('only_remaps', 'aai', 'H012', ''); add('only_one_remap', 'aaii', 'H0123', '')
    else:
        a = box + 'iii'; n = len(a); add('setup', a, ['H'] + rng(n) + ['o'] * 2, 'outs'); add('remap', 'aaaa', 'H0123', '')
    return {k: (v[0], list(v[1]), v[2], p + k) for k, v in m.items()}
CLASSES = ['FFT3dMPI', 'FFT2dMPI', 'Remap3dMPI', 'Remap2dMPI']

class Run:
    """one scenario on one path"""
    def __init__(self, X, mods, libs, code):
        self.X = X; self.trace = []; X.trace = self.trace; X.cells = []; X.libs = libs; X.expect = None; X.callee = self.callee
        X.commsize = X.fresh('commsize', 4, 8); X.assume(z3.Or(X.commsize == 4, X.commsize == 8)); X.nolib = z3.Bool('nolib'); sym.X = X
        self.comm = sym.Comm(); c = sym.Cell('comm', 'i', 8, None); c.size_t = X.commsize; c.value = X.fresh('commhandle', -2**31, 2**63 - 1); X.assume(z3.Implies(X.commsize == 4, c.value < 2**31)); X.assume(z3.Implies(X.commsize == 8, c.value >= 0)); self.comm._cell = c; X.comm = c
        self.g = sym.load(code); self.dels = {}
        for k in CLASSES:
            if k not in self.g: X.check(False, f'class {k} does not exist')
            self.dels[k] = self.g[k].__dict__.get('__del__')
            if self.dels[k] is not None: delattr(self.g[k], '__del__')
        self.scalar = None; self.objs = []
    def callee(self, name, proto, got):
        X = self.X; e = X.expect
        if e is None: X.check(False, f'{name} is called although nothing was to be done')
        if e['called']: X.check(False, f'{name} is called besides {e["name"]}')
        if name != e['name']: X.check(False, f'{name} is called instead of {e["name"]}')
        e['called'] = True; outs = list(e['outs']); res = []
        if len(proto['params']) != len(e['args']): X.check(False, f'{name}: the C function does not take the documented arguments')
        for i, (g, w) in enumerate(zip(got, e['args'])):
            what = f'{name}, argument {i+1}'
            if g[0] == 'missing': X.check(False, f'{what}: not passed')
            if isinstance(w, str) and w == 'o':
                if g[0] != 'v': X.check(False, f'{what}: not a pointer to an int')
                sym.store(g[1], 'i', 4, outs.pop(0), what)
            elif isinstance(w, str):
                if g[0] != 'v': X.check(False, f'{what}: not a pointer to a handle')
                sym.store(g[1], 'p', 8, e['handle'], what)
            elif isinstance(w, sym.SymStr):
                if g[0] != 'str': X.check(False, f'{what}: not the string given')
                X.check(g[1].t == w.t, f'{what}: not the string given')
            else:
                if g[0] != 'v': X.check(False, f'{what}: not the value given')
                X.check(g[1] == w, f'{what}: not the value given')
        return e.get('raw')
    def call(self, step, f, expect, mayfail=False, mustfail=False):
        X = self.X; self.trace.append(step); X.expect = expect; err = None
        try: r = f()
        except z3.Z3Exception as e:
            import traceback; X.fail('z3: ' + str(e) + traceback.format_exc()[-300:])
        except (Exception, SystemExit) as e: r, err = None, e
        X.expect = None
        if X.sticky: X.fail(X.sticky)
        what = f'{step["cls"]}.{step["op"]}'
        if mustfail:
            if err is None: X.check(False, f'{what}: an invalid call is not reported')
            return None
        if mayfail: return r
        if err is not None: X.check(False, f'{what}: raises {type(err).__name__}: {str(err)[:80]}')
        if expect is not None and not expect['called']: X.check(False, f'{what}: {expect["name"]} is not called')
        return r
    def create(self, cls):
        X = self.X; pre = 'fft' if cls[0] == 'F' else 'remap'; d = '3' if '3d' in cls else '2'
        if self.scalar is None: self.scalar = X.fresh('precision', -2**31, 2**31 - 1)
        prec = self.scalar; o = self.g[cls].__new__(self.g[cls]); h = X.fresh('handle', 1, 2**47)
        for q in self.objs: X.assume(h != q['h'])
        step = dict(op='__init__', cls=cls, prec=prec, handle=h, obj=len(self.objs))
        good = X.decide(z3.Or(prec == 1, prec == 2))
        self.size = 1 if good and X.decide(prec == 1) else 2
        ok = good and not X.decide(X.nolib)
        expect = dict(name=f'{pre}{d}d_create', args=[X.comm.value] + ([prec] if pre == 'fft' else []) + ['O'], outs=[], handle=h, called=False) if ok else None
        self.call(step, lambda: o.__init__(self.comm, sym.SymInt(prec)), expect, mustfail=not ok)
        rec = dict(o=o, cls=cls, h=h, n=len(self.objs)); self.objs.append(rec)
        if not ok: self.delete(rec, live=False); return None
        return rec
    def delete(self, rec, live=True):
        """the object goes away"""
        f = self.dels[rec['cls']]; pre = 'fft' if rec['cls'][0] == 'F' else 'remap'; d = '3' if '3d' in rec['cls'] else '2'
        expect = dict(name=f'{pre}{d}d_destroy', args=[rec['h']], outs=[], called=False) if live else None
        self.call(dict(op='del', cls=rec['cls'], obj=rec['n'], live=live), (lambda: f(rec['o'])) if f else (lambda: None), expect, mayfail=not live)
        if live and not expect['called']: self.X.check(False, f'{rec["cls"]}: the library object is not destroyed')
    def destroy(self, rec):
        pre = 'fft' if rec['cls'][0] == 'F' else 'remap'; d = '3' if '3d' in rec['cls'] else '2'
        self.call(dict(op='destroy', cls=rec['cls'], obj=rec['n'], live=True), rec['o'].destroy, dict(name=f'{pre}{d}d_destroy', args=[rec['h']], outs=[], called=False))
        self.delete(rec, live=False)
    def op(self, rec, which=None, bad=False):
        X = self.X; ms = methods(rec['cls']); names = [k for k in sorted(ms) if not bad or 'a' in ms[k][0]]
        name = which or names[X.choose(len(names), 'op')]; kinds, cargs, res, cname = ms[name]; args, tr = [], []
        arrs = [i for i, k in enumerate(kinds) if k == 'a']; badpos = arrs[X.choose(len(arrs), 'bad')] if bad else None
        alias = len(arrs) > 1 and not bad and X.choose(2, 'inplace') == 1
        for i, k in enumerate(kinds):
            if k == 'i': t = X.fresh(f'arg{i}', -2**31, 2**31 - 1); args.append(sym.SymInt(t)); tr.append(('int', t))
            elif k == 'r': t = X.fresh(f'arg{i}', sort=z3.RealSort()); X.assume(z3.And(t >= -10**6, t <= 10**6)); args.append(sym.SymReal(t)); tr.append(('real', t))
            elif k == 's': t = X.fresh(f'key{i}', sort=z3.StringSort()); X.assume(z3.And(z3.Length(t) >= 1, z3.Length(t) <= 12)); args.append(sym.SymStr(t)); tr.append(('str', t))
            elif i == badpos: args.append([0.0, 1.0]); tr.append(('bad', None))
            elif alias and i == arrs[1]: args.append(args[arrs[0]]); tr.append(('same', arrs[0]))
            else: a = sym.ndarray(f'array{i}', self.size); args.append(a); tr.append(('arr', a._n))
        want = [rec['h'] if c == 'H' else 'o' if c == 'o' else args[int(c)] if isinstance(args[int(c)], sym.SymStr) else args[int(c)]._cell.addr if isinstance(args[int(c)], sym.ndarray) else None if isinstance(args[int(c)], list) else args[int(c)].t for c in cargs]
        outs = [X.fresh(f'out{i}', -2**31, 2**31 - 1) for i in range(cargs.count('o'))]; raw = None; step = dict(op=name, cls=rec['cls'], obj=rec['n'], args=tr, outs=outs, bad=bad)
        if bad: self.call(step, lambda: getattr(rec['o'], name)(*args), None, mustfail=True); return
        if res == 'int': raw = X.fresh('ret', -2**31, 2**31 - 1)
        elif res == 'int64': raw = X.fresh('ret', -2**63, 2**63 - 1)
        elif res == 'double': raw = X.fresh('ret', sort=z3.RealSort()); X.assume(z3.And(raw >= -10**6, raw <= 10**6))
        elif res in ('string', 'int_vector', 'double_vector'):
            null = X.choose(2, 'null') == 1; addr = z3.IntVal(0) if null else X.address('ret'); n = outs[0]
            if res == 'string': s = X.fresh('retstr', sort=z3.StringSort()); X.assume(z3.And(z3.Length(s) >= 1, z3.Length(s) <= 8, n == z3.Length(s))); raw = dict(addr=addr, str=s)
            else:
                X.assume(z3.And(n >= 0, n <= 4)); el = [X.fresh(f'elem{i}', -2**31, 2**31 - 1) if res == 'int_vector' else X.fresh(f'elem{i}', sort=z3.RealSort()) for i in range(4)]
                raw = dict(addr=addr, elems=(el, n, ('i', 4) if res == 'int_vector' else ('d', 8)))
            step['null'] = null
        step['raw'] = raw; step['res'] = res
        r = self.call(step, lambda: getattr(rec['o'], name)(*args), dict(name=cname, args=want, outs=outs, called=False, raw=raw)); what = f'{rec["cls"]}.{name}'
        def val(x, t, w):
            if isinstance(x, sym.SymStr) and t.sort() == z3.StringSort(): X.check(x.t == t, w); return
            v = sym.term(x)
            if v is None or isinstance(x, sym.SymStr): X.check(False, w)
            X.check(v == t, w)
        if res in ('int', 'int64', 'double'): val(r, raw, f'{what}: does not return what the library answered')
        elif res == 'outs':
            if not isinstance(r, (tuple, list)) or len(r) != len(outs): X.check(False, f'{what}: does not return {len(outs)} sizes')
            for x, t in zip(r, outs): val(x, t, f'{what}: a size returned is not the one the library set')
        elif res == 'string':
            if step['null']:
                if r is not None: X.check(False, f'{what}: NULL is not returned as None')
            else: val(r, raw['str'], f'{what}: not the string of the library')
        elif res:
            if step['null']:
                if r is not None: X.check(False, f'{what}: NULL is not returned as None')
            else:
                try: ln = len(r)
                except TypeError: X.check(False, f'{what}: does not return a vector')
                X.check(outs[0] == ln, f'{what}: the vector does not have the length of the library\'s')
                for i in range(ln): val(r[i], raw['elems'][0][i], f'{what}: vector element differs from the library\'s')

def sc_life(R, cls, nops):
    r = R.create(cls)
    if r is None: return
    for _ in range(nops): R.op(r)
    R.destroy(r) if R.X.choose(2, 'end') else R.delete(r)
def sc_bad(R, cls, n):
    r = R.create(cls)
    if r is None: return
    R.op(r, bad=True); R.op(r)
def sc_two(R, cls, n):
    a = R.create(cls)
    if a is None: return
    b = R.create(CLASSES[R.X.choose(4, 'second')]); first = R.X.choose(2, 'which'); x, y = (a, b) if first else (b, a)
    R.op(x); 
    if n > 1: R.op(y)
    R.destroy(x) if R.X.choose(2, 'end') else R.delete(x)
    R.op(y, 'set'); R.delete(y)
def sc_notlib(R, cls, n): pass

# ------------------------------------------------------------------ replay with the real ctypes
def concretise(trace, m, X):
    def ev(t): return m.eval(t, model_completion=True)
    def iv(t): return ev(t).as_long()
    def rv(t): v = ev(t); return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
    def sv(t): return re.sub(r'\\u\{([0-9a-f]+)\}', lambda q: chr(int(q.group(1), 16)), ev(t).as_string())
    out = dict(commsize=iv(X.commsize), comm=iv(X.comm.value), nolib=z3.is_true(ev(X.nolib)), steps=[])
    for s in trace:
        c = dict(op=s['op'], cls=s['cls'], obj=s['obj'])
        if s['op'] == '__init__': c.update(prec=iv(s['prec']), handle=iv(s['handle']))
        elif s['op'] in ('del', 'destroy'): c.update(live=s['live'])
        else:
            c['args'] = [(k, iv(t) if k in ('int', 'arr') else rv(t) if k == 'real' else sv(t) if k == 'str' else t) for k, t in s['args']]; c['outs'] = [iv(t) for t in s['outs']]; c['bad'] = s['bad']; raw = s.get('raw'); res = s.get('res', ''); c['res'] = res; c['null'] = s.get('null', False)
            if not s['bad']:
                kinds, cargs, _, cname = methods(s['cls'])[s['op']]; c['cargs'], c['cname'] = cargs, cname
            if res in ('int', 'int64'): c['ret'] = iv(raw)
            elif res == 'double': c['ret'] = rv(raw)
            elif res == 'string': c['ret'] = sv(raw['str'])
            elif res in ('int_vector', 'double_vector'): c['ret'] = [(iv if res[0] == 'i' else rv)(t) for t in raw['elems'][0]]
        out['steps'].append(c)
    return out

def stub_source(pr, commsize):
    o = ['#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\nstatic char LG[65536]; static int NL; static int OUTS[8]; static long long RET; static double DRET; static char STR[64]; static int IV[8]; static double DV[8]; static int NULLR; static long long HANDLE;',
         'void vp_set(int *o, long long r, double d, char *s, int *iv, double *dv, int nullr, long long h) { memcpy(OUTS, o, 32); RET = r; DRET = d; strcpy(STR, s); memcpy(IV, iv, 32); memcpy(DV, dv, 64); NULLR = nullr; HANDLE = h; NL = 0; LG[0] = 0; }', 'char *vp_log(void) { return LG; }',
         'typedef %s COMM;' % ('int' if commsize == 4 else 'void *')]
    for n, p in pr.items():
        ty = [dict(int='int', double='double', float='float', comm='COMM', int64_t='long long').get(x, 'void *') for x in p['params']]; body = [f'NL += sprintf(LG + NL, "{n}");']; k = 0
        for i, (x, t) in enumerate(zip(p['params'], ty)):
            if x == 'int': body.append(f'NL += sprintf(LG + NL, " %d", a{i});')
            elif x in ('double', 'float'): body.append(f'NL += sprintf(LG + NL, " %.17g", (double)a{i});')
            elif x == 'comm': body.append(f'NL += sprintf(LG + NL, " %lld", (long long)a{i});')
            elif x.startswith('char'): body.append(f'NL += sprintf(LG + NL, " %s", (char *)a{i});')
            elif x == 'int *': body.append(f'*(int *)a{i} = OUTS[{k}]; NL += sprintf(LG + NL, " out");'); k += 1
            elif x == 'void **': body.append(f'*(void **)a{i} = (void *)HANDLE; NL += sprintf(LG + NL, " out");')
            else: body.append(f'NL += sprintf(LG + NL, " %lld", (long long)a{i});')
        body.append('NL += sprintf(LG + NL, "\\n");')
        rt = {'void': 'void', 'int': 'int', 'int64_t': 'long long', 'double': 'double'}.get(p['ret'], 'void *'); r = {'void': '', 'int': 'return (int)RET;', 'int64_t': 'return RET;', 'double': 'return DRET;', 'char *': 'return NULLR ? 0 : STR;', 'int *': 'return NULLR ? 0 : IV;', 'double *': 'return NULLR ? 0 : DV;'}.get(p['ret'], 'return 0;')
        o.append(f'{rt} {n}({", ".join(f"{t} a{i}" for i, t in enumerate(ty))}) {{ {" ".join(body)} {r} }}')
    return '\n'.join(o)
def native(case, wd, tag):
    d = f'{wd}/{tag}'; os.makedirs(d, exist_ok=True); p = f'{d}/case.json'; json.dump(case, open(p, 'w')); lib = f'{wd}/lib{case["commsize"]}'
    env = dict(os.environ, LD_LIBRARY_PATH='' if case['nolib'] else lib, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, f'{HERE}/native.py', p, f'{wd}/fftmpi_py3.py', lib], capture_output=True, text=True, env=env, timeout=120)
    if r.returncode == 0: return 'ok', r.stdout
    m = re.search(r'REPLAY-VIOLATION.*', r.stdout)
    if r.returncode == 1 and m: return 'violation', m.group(0)
    if r.returncode < 0: return 'violation', f'REPLAY-VIOLATION the process dies by signal {-r.returncode}'
    return 'error', r.stdout[-300:] + r.stderr[-600:]

def main():
    pid = sys.argv[1]; tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    wd = tempfile.mkdtemp(prefix=f'vp-{pid}-')
    try: rc = decide(pid, tier, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
def decide(pid, tier, wd):
    pr = {3: protos(3), 2: protos(2)}; libs = {'libfft3dmpi.so': pr[3], 'libfft2dmpi.so': pr[2]}
    py3 = sym.to_py3(open(f'{REPO}/src/fftmpi.py').read()); open(f'{wd}/fftmpi_py3.py', 'w').write(py3)
    try: code = compile(py3, 'fftmpi.py', 'exec')
    except SyntaxError as e: print('CHECK-ERROR the wrapper cannot be translated:', e); return 2
    for cs in (4, 8):
        os.makedirs(f'{wd}/lib{cs}')
        for d in (3, 2):
            open(f'{wd}/s{d}{cs}.c', 'w').write(stub_source(pr[d], cs)); subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', f'{wd}/lib{cs}/libfft{d}dmpi.so', f'{wd}/s{d}{cs}.c'], check=True)
    jobs = [('life', sc_life, c, 1 if tier == 'quick' else 2) for c in CLASSES] + [('bad', sc_bad, c, 0) for c in CLASSES] + [('two', sc_two, c, 1 if tier == 'quick' else 2) for c in CLASSES]
    tot = dict(paths=0, queries=0, solver_s=0.0, assertions=0, steps=0); per, samples, confirmed, unconf, undec, wits = [], [], [], [], [], []
    json.dump(libs, open(f'{wd}/libs.json', 'w'))
    def spawn(j):
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--worker', wd, j[0], j[1].__name__, j[2], str(j[3]), '1' if tier == 'quick' else '4'], capture_output=True, text=True)
        try: return json.loads(r.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError): return dict(job=f'{j[0]}-{j[2]}', tot=dict.fromkeys(tot, 0), violations=[], wits=[], undecided=[(j[0], j[2], 'worker failed: ' + r.stderr[-300:])])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(spawn, jobs):
            for k in tot: tot[k] += r['tot'][k]
            per.append(dict(job=r['job'], paths=r['tot']['paths'], assertions=r['tot']['assertions'], queries=r['tot']['queries'])); wits += r['wits']; undec += r['undecided']
            for msg, case in r['violations']:
                st, er = native(case, wd, f'v{len(confirmed) + len(unconf)}')
                if st == 'violation': confirmed.append((r['job'], msg, case, er))
                else: unconf.append(dict(job=r['job'], solver=msg, native=st, log=er[-300:]))
    validated, vfail = 0, []
    if not confirmed:
        with ThreadPoolExecutor(8) as ex:
            for (job, case), (st, er) in zip(wits, ex.map(lambda a: native(a[1][1], wd, f'w{a[0]}'), enumerate(wits))):
                if st == 'ok': validated += 1; samples.append(dict(job=job, case=case))
                else: vfail.append(dict(job=job, native=st, log=er[-400:]))
    fns = sorted({f'{c}.{m}' for c in CLASSES for m in list(methods(c)) + ['__init__', '__del__', 'destroy']})
    bounds = 'histories: create (any precision value, library present or not, 4- or 8-byte communicator handles), %s operation(s) of any kind with any arguments, end by destroy() or deletion; two objects of any two classes used in turn; vectors up to 4 elements, keywords up to 12 characters' % ('one' if tier == 'quick' else 'two')
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - T0, 1), violations=len(confirmed),
      assumptions=['the wrapper is Python 2; its statements are translated to Python 3 syntax before execution', 'ctypes, numpy arrays and mpi4py handles are modelled (pywrap/sym.py); the model is validated against the real ctypes and numpy on the witnesses replayed', 'x86-64 System V calling convention'],
      coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples[:4] or [p['job'] for p in per[:3]], technique='symbolic execution of /repo/src/fftmpi.py against the prototypes of /repo/src/*_wrap.h; obligations decided by z3', functions_encoded=fns, bounds=bounds, outside_bounds='longer histories, larger vectors; error paths inside the C library (its C side is C13); mpi4py and numpy themselves', assertions=tot['assertions'], solver_queries=tot['queries'], solver_s=round(tot['solver_s'], 1), jobs=per, counterexamples_not_reproduced=unconf[:5], witnesses_not_reproduced=vfail[:5], undecided=undec[:5]))
    os.makedirs(f'{V}/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: {len(per)} jobs, {tot["paths"]} paths, {tot["assertions"]} assertions, {tot["queries"]} queries, solver {tot["solver_s"]:.1f} s, {validated} witnesses replayed, wall {time.time() - T0:.1f} s')
    for u in unconf[:5]: print('counterexample not reproduced with the real ctypes (not reported as a violation):', json.dumps(u)[:600])
    for u in vfail[:5]: print('witness not reproduced:', json.dumps(u)[:600])
    if confirmed:
        job, msg, case, er = confirmed[0]; d = f'{V}/replays/{pid}'; os.makedirs(d, exist_ok=True); p = f'{d}/{job}.json'; json.dump(dict(job=job, solver=msg, native=er, case=case), open(p, 'w'), indent=1)
        for q in sorted({m for _, m, _, _ in confirmed}): print('counterexample:', q)
        print('inputs:', json.dumps(case)[:1500]); print('real ctypes:', er); print(f'VIOLATION property={pid} replay={p}'); return 1
    if undec:
        for u in undec[:5]: print('UNDECIDED', u)
        return 2
    return 0
def worker(a):
    n, fname, cls, k, py3, libs, nw = a; sc = globals()[fname]; code = compile(py3, 'fftmpi.py', 'exec'); X = sym.Explorer(); X.vals = {}; sym.X = X; viol, und, wits, seen = [], [], [], set(); t0 = time.time()
    while True:
        X.start(); kind = 'ok'
        try: R = Run(X, None, libs, code); sc(R, cls, k)
        except sym.Violation as e:
            kind = 'violation'
            if e.msg not in seen and len(viol) < 12: seen.add(e.msg); viol.append((e.msg, concretise(X.trace, e.model, X)))
        except sym.Undecided as e: kind = 'undecided'; und.append((n, cls, str(e)))
        except sym.Infeasible: kind = 'infeasible'
        if kind != 'infeasible': X.paths += 1; X.steps += len(X.trace)
        if kind == 'ok' and (X.paths % max(1, 8 // nw)) == 1:
            m = X.witness()
            if m is not None and len(wits) < 12 * nw: wits.append((f'{n}-{cls}', concretise(X.trace, m, X)))
        if time.time() - t0 > (600 if nw == 1 else 3000): und.append((n, cls, 'out of time')); break
        if not X.next(): break
    return dict(job=f'{n}-{cls}', tot=dict(paths=X.paths, queries=X.queries, solver_s=X.solver_s, assertions=X.assertions, steps=X.steps), violations=viol, undecided=und, wits=wits)
if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        wd, n, f, c, k, nw = sys.argv[2:8]; print(json.dumps(worker((n, f, c, int(k), open(f'{wd}/fftmpi_py3.py').read(), json.load(open(f'{wd}/libs.json')), int(nw))))); sys.stdout.flush(); os._exit(0)
    main()
