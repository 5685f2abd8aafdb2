#!/opt/veriftools/pyvenv/bin/python3
"""Decides the Fortran-module property: for every procedure of the modules a caller in the documented form is generated and compiled
with the modules of /repo/src; the machine code is executed symbolically (arguments symbolic) up to the C entry point, whose parameters
are read by the prototypes of /repo/src/*_wrap.h; z3 decides each obligation; counterexamples and witnesses are replayed natively.
usage: check.py PROPERTY [--tier quick|thorough]"""
import sys, os, json, subprocess, tempfile, shutil, time, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, f'{V}/pywrap')
import z3, importlib.util
spec = importlib.util.spec_from_file_location('pycheck', f'{V}/pywrap/check.py'); PC = importlib.util.module_from_spec(spec); spec.loader.exec_module(PC)
T0 = time.time(); BV = z3.BitVec; bv = z3.BitVecVal
MODULES = {'fft3d_wrap': 'FFT3dMPI', 'fft2d_wrap': 'FFT2dMPI', 'remap3d_wrap': 'Remap3dMPI', 'remap2d_wrap': 'Remap2dMPI'}
class Undecided(Exception): pass
class Bad(Exception):
    def __init__(s, msg, model=None): s.msg, s.model = msg, model

def procedures(mod):
    """documented procedures of a module: name -> (argument kinds, C entry point, expected C arguments); kinds: c handle, h handle written,
    i int, r real(8), k keyword, a array, o int result; result kind"""
    cls = MODULES[mod]; p = mod[:-5]; out = {}
    out[p + '_create'] = ('ii' + 'h' if p[0] == 'f' else 'ih', p + '_create_fortran', '')
    out[p + '_destroy'] = ('c', p + '_destroy', '')
    for m, (kinds, cargs, res, cname) in PC.methods(cls).items():
        ks = ''.join('c' if c == 'H' else 'o' if c == 'o' else {'s': 'k'}.get(kinds[int(c)], kinds[int(c)]) for c in cargs)
        out[cname] = (ks, cname + '_fortran' if m in ('setup', 'tune') else cname, res if res != 'outs' else '')
    return out
DECL = dict(c='type(c_ptr)', h='type(c_ptr)', i='integer', r='real(8)', o='integer')
RES = dict(int='integer', int64='integer(8)', double='real(8)', string='type(c_ptr)', int_vector='type(c_ptr)', double_vector='type(c_ptr)')
def caller(mod, proc, kinds, res, form, scalar):
    """form 0: variables of the caller's arguments; form 1: local variables of the caller"""
    names = [f'v{i}' for i in range(len(kinds))]; ns = names + (["res"] if res else []); hdr = ', &\n  '.join(', '.join(ns[i:i+8]) for i in range(0, len(ns), 8)); L = [f'subroutine vp_{proc}({hdr}) bind(c)', 'use iso_c_binding', f'use {mod}', 'implicit none']
    act, pre, post = [], [], []
    for n, k in zip(names, kinds):
        if k == 'k': L.append(f'character(kind=c_char) :: {n}(*)'); act.append(n)
        elif k == 'a': L.append(f'real({scalar}), target :: {n}(*)'); act.append(f'c_loc({n})')
        else:
            L.append(f'{DECL[k]} :: {n}')
            if form == 1:
                L.append(f'{DECL[k]} :: l{n}'); act.append('l' + n)
                if k in 'cir': pre.append(f'l{n} = {n}')
                else: post.append(f'{n} = l{n}')
            else: act.append(n)
    if res: L.append(f'{RES[res]} :: res')
    lines = act and [', '.join(act[i:i+6]) for i in range(0, len(act), 6)]
    args = ', &\n  '.join(lines)
    L += pre + [(f'res = {proc}({args})' if res else f'call {proc}({args})')] + post + [f'end subroutine vp_{proc}']
    return '\n'.join(L) + '\n'

R64 = 'rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15'.split(); SUB = {}
for r in R64:
    SUB[r] = (r, 64)
    if r[1:].isdigit(): SUB[r + 'd'] = (r, 32); SUB[r + 'w'] = (r, 16); SUB[r + 'b'] = (r, 8)
    else: SUB['e' + r[1:]] = (r, 32); SUB[r[1:]] = (r, 16); SUB[(r[1] + 'l') if r[1:] in ('ax', 'bx', 'cx', 'dx') else r[1:] + 'l'] = (r, 8)
class Machine:
    """symbolic execution of straight-line x86-64 code of the generated callers"""
    def __init__(s, asm):
        s.regs = {r: BV('init_' + r, 64) for r in R64}; s.x = {f'xmm{i}': BV(f'init_xmm{i}', 64) for i in range(16)}; s.S = z3.Solver(); s.S.set('timeout', 60000)
        s.regions = []; s.n = 0; s.queries = s.assertions = 0; s.solver_s = 0.0; s.steps = 0; s.mem = {}; s.words = {}
        s.code = asm; sp = s.region('stack', 4096, init=False); s.regs['rsp'] = sp + 2048 - 8
    def fresh(s, b, n='garbage'): s.n += 1; return BV(f'{n}!{s.n}', b)
    def region(s, name, size, init=True):
        base = BV('base_' + name, 64); i = len(s.regions); s.regions.append((name, base, size)); s.S.add(z3.UGE(base, 65536 + i * 2**40), z3.ULE(base, i * 2**40 + 2**39), base & 7 == 0); s.mem[name] = {}
        if init:
            for k in range(size): s.mem[name][k] = BV(f'{name}_byte{k}', 8)
        return base
    def find(s, a, size, what):
        for name, base, n in s.regions:
            d = z3.simplify(a - base)
            if z3.is_bv_value(d):
                o = d.as_signed_long()
                if 0 <= o and o + size <= n: return name, o
        return None
    def load(s, a, bits, what='load'):
        f = s.find(a, bits // 8, what)
        if f is None: raise Undecided('load from an unknown address')
        w = s.words.get(f[0], {}).get(f[1])
        if w is not None and w.size() == bits: return w
        bs = [s.mem[f[0]].setdefault(f[1] + k, s.fresh(8, 'uninit')) for k in range(bits // 8)]
        return z3.simplify(z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0])
    def store(s, a, v, what='store'):
        n = v.size() // 8; f = s.find(a, n, what)
        if f is None: raise Bad(f'{what}: a pointer to no object of the caller')
        W = s.words.setdefault(f[0], {})
        for o in [o for o, w in W.items() if o < f[1] + n and f[1] < o + w.size() // 8]: del W[o]
        W[f[1]] = v
        for k in range(n): s.mem[f[0]][f[1] + k] = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
    def ea(s, t):
        m = re.match(r'^(-?\w*)\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)$', t)
        if not m: raise Undecided('address ' + t)
        a = bv(int(m.group(1) or '0', 0), 64)
        if m.group(2) == '%rip': raise Undecided('static data ' + t)
        if m.group(2): a = a + s.regs[m.group(2)[1:]]
        if m.group(3): a = a + s.regs[m.group(3)[1:]] * int(m.group(4) or 1)
        return a
    def get(s, t, bits):
        if t[0] == '$': return bv(int(t[1:], 0), bits)
        if t.startswith('%xmm'): return s.x[t[1:]] if bits == 64 else z3.Extract(bits - 1, 0, s.x[t[1:]])
        if t[0] == '%': r, b = SUB[t[1:]]; v = s.regs[r]; return v if b == 64 and bits == 64 else z3.Extract(bits - 1, 0, v)
        return s.load(s.ea(t), bits)
    def put(s, t, v):
        bits = v.size(); v = z3.simplify(v)
        if t.startswith('%xmm'): s.x[t[1:]] = v if bits == 64 else z3.Concat(bv(0, 64 - bits), v)
        elif t[0] == '%':
            r, b = SUB[t[1:]]; s.regs[r] = v if bits == 64 else z3.simplify(z3.ZeroExt(32, v)) if bits == 32 else z3.simplify(z3.Concat(z3.Extract(63, bits, s.regs[r]), v))
        else: s.store(s.ea(t), v)
    def run(s, call):
        for l in s.code:
            s.steps += 1; p = l.split(None, 1); op = p[0]; a = []
            if len(p) > 1:
                depth = 0; cur = ''
                for ch in p[1]:
                    if ch == ',' and not depth: a.append(cur.strip()); cur = ''; continue
                    depth += ch == '('; depth -= ch == ')'; cur += ch
                a.append(cur.strip())
            def wd():
                for t in reversed(a):
                    if t.startswith('%xmm'): return 64
                    if t[0] == '%': return SUB[t[1:]][1]
                return {'b': 8, 'w': 16, 'l': 32, 'q': 64}[op[-1]]
            if op in ('endbr64', 'nop', 'leave') and op != 'leave': pass
            elif op == 'ret': return
            elif op in ('call',): call(s, a[0].split('@')[0])
            elif op == 'pushq': 
                v = s.get(a[0], 64); s.regs['rsp'] = s.regs['rsp'] - 8; s.store(s.regs['rsp'], v)
            elif op == 'popq': v = s.load(s.regs['rsp'], 64); s.regs['rsp'] = s.regs['rsp'] + 8; s.put(a[0], v)
            elif op in ('movq', 'movl', 'movw', 'movb', 'mov', 'movabsq'): b = {'q': 64, 'l': 32, 'w': 16, 'b': 8}[op[-1]] if op[-1] in 'qlwb' else wd(); s.put(a[1], s.get(a[0], b))
            elif op in ('movsd', 'movss', 'movaps', 'movapd', 'movd'): s.put(a[1], s.get(a[0], 32 if op in ('movss', 'movd') else 64))
            elif op in ('movslq', 'movsbl', 'movswl', 'movsbq', 'movswq', 'movzbl', 'movzwl'):
                b = dict(b=8, w=16, l=32)[op[4]]; t = dict(l=32, q=64)[op[5]]; v = s.get(a[0], b); s.put(a[1], (z3.SignExt if op[3] == 's' else z3.ZeroExt)(t - b, v))
            elif op == 'cltq': s.regs['rax'] = z3.SignExt(32, z3.Extract(31, 0, s.regs['rax']))
            elif op in ('leaq',): s.put(a[1], s.ea(a[0]))
            elif op in ('addq', 'subq', 'addl', 'subl', 'andq', 'xorl', 'xorq', 'andl', 'orl', 'sall', 'salq'):
                b = 64 if op[-1] == 'q' else 32; x, y = s.get(a[1], b), s.get(a[0], b) if len(a) > 1 else None; s.put(a[1], {'add': x + y, 'sub': x - y, 'and': x & y, 'xor': x ^ y, 'orl': x | y, 'sal': x << y}[op[:3]])
            elif op in ('pxor', 'xorps') and a[0] == a[1]: s.x[a[0][1:]] = bv(0, 64)
            elif op == 'cvtss2sd' or op == 'cvtsd2ss' or op == 'cvtsi2sdl' or op == 'cvtsi2sdq' or op == 'cvttsd2sil': s.put(a[1], s.fresh(64 if a[1].startswith('%xmm') else 32, 'converted'))
            else: raise Undecided('instruction ' + l)
        raise Undecided('no return')
    def check(s, c, msg):
        s.assertions += 1
        t = time.time(); s.queries += 1; r = s.S.check(z3.Not(c)); s.solver_s += time.time() - t
        if r == z3.sat: raise Bad(msg, s.S.model())
        if r != z3.unsat: raise Undecided('solver gave up')

def decide_proc(proc, kinds, cname, res, asm, proto):
    """runs the caller; returns the machine and the symbolic values by argument"""
    M = Machine(asm); vals, regs6 = [], ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']; bases = []; arg = []
    for i, k in enumerate(kinds):
        size = dict(c=8, h=8, i=4, r=8, o=4, k=16, a=64)[k]; b = M.region(f'v{i}', size); bases.append(b); arg.append(b)
        vals.append(None if k in 'ho' else b if k in 'ka' else M.load(b, size * 8))
    if res: rb = M.region('res', 4 if res == 'int' else 8); arg.append(rb)
    for i, b in enumerate(arg):
        if i < 6: M.regs[regs6[i]] = b
        else: M.store(M.regs['rsp'] + 8 * (i - 6) + 8, b)
    outs = {i: M.fresh(64 if k == 'h' else 32, f'out{i}') for i, k in enumerate(kinds) if k in 'ho'}; raw = M.fresh(32 if res == 'int' else 64, 'ret') if res else None; calls = []
    def call(M, name):
        if name != cname: raise Bad(f'{proc}: calls {name} instead of {cname}')
        if calls: raise Bad(f'{proc}: {cname} is called twice')
        calls.append(name)
        if len(proto['params']) != len(kinds): raise Bad(f'{proc}: the C function does not take the documented arguments')
        ni = nf = ns = 0; sp = M.regs['rsp']
        for i, (p, k) in enumerate(zip(proto['params'], kinds)):
            what = f'{proc}, argument {i+1}'
            if p in ('double', 'float'): g = M.x[f'xmm{nf}']; nf += 1
            elif ni < 6: g = M.regs[regs6[ni]]; ni += 1
            else: g = M.load(sp + 8 * ns, 64); ns += 1
            if k in 'ho':
                if M.find(g, 8 if k == 'h' else 4, what) is None: M.check(z3.BoolVal(False), f'{what}: not the address of the variable given')
                M.store(g, outs[i], what)
            elif p in ('int', 'comm'): M.check(z3.Extract(31, 0, g) == vals[i] if vals[i].size() == 32 else z3.BoolVal(False), f'{what}: not the value given')
            elif p == 'float': raise Undecided('float parameter')
            else: M.check(g == vals[i] if vals[i].size() == 64 else z3.BoolVal(False), f'{what}: not the {"pointer" if k in "cka" else "value"} given')
        for r in ('rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'rax'): M.regs[r] = M.fresh(64)
        for r in M.x: M.x[r] = M.fresh(64)
        rt = proto['ret']
        if rt == 'double': M.x['xmm0'] = raw if raw is not None else M.fresh(64)
        elif rt == 'int' and raw is not None: M.regs['rax'] = z3.Concat(M.fresh(32), z3.Extract(31, 0, raw))
        elif rt != 'void' and raw is not None: M.regs['rax'] = raw if raw.size() == 64 else z3.ZeroExt(32, raw)
    M.vals, M.outs, M.raw = vals, outs, raw
    try:
        M.run(call)
        if not calls: M.check(z3.BoolVal(False), f'{proc}: the C function is not called')
        for i in outs: M.check(M.load(bases[i], outs[i].size()) == outs[i], f'{proc}: what the C function sets in argument {i+1} does not reach the variable given')
        for i, k in enumerate(kinds):
            if k in 'cir': M.check(M.load(bases[i], vals[i].size()) == vals[i], f'{proc}: argument {i+1} is changed')
        if res: M.check(M.load(rb, raw.size()) == raw, f'{proc}: does not return what the library answered')
    except Bad as e: return M, e
    return M, None

def asm_functions(text):
    fns, cur = {}, None
    for l in text.split('\n'):
        l = l.split('#')[0].rstrip(); m = re.match(r'^(\w+):$', l)
        if m and not l.startswith('.L'): cur = fns.setdefault(m.group(1), [])
        elif cur is not None and l.startswith('\t') and not l.strip().startswith('.'): cur.append(' '.join(l.split()))
    return fns

def concrete(M, model, kinds, res):
    def ev(t, signed=True): v = (model.eval(t, model_completion=True) if model is not None else None); return v.as_signed_long() if v is not None else 0
    if model is None: M.S.check(); model = M.S.model()
    o = dict(args=[], outs=[], ret=0)
    for i, k in enumerate(kinds):
        if k in 'ci': o['args'].append(ev(M.vals[i]))
        elif k == 'r': o['args'].append(0.25 + abs(ev(M.vals[i])) % 1000)
        else: o['args'].append(0)
        if k in 'ho': o['outs'].append(ev(M.outs[i]))
    if M.raw is not None: o['ret'] = ev(M.raw)
    return o
def native(mod, proc, kinds, cname, res, proto, c, wd, tag, f90):
    """the same call on the machine; 'ok', 'violation' or 'error'"""
    d = f'{wd}/{tag}'; os.makedirs(d, exist_ok=True); open(f'{d}/caller.f90', 'w').write(f90); ct = dict(c='void *', h='void *', i='int', r='double', o='int')
    rt = {'void': 'void', 'int': 'int', 'int64_t': 'long long', 'double': 'double'}.get(proto['ret'], 'void *'); ty = [dict(int='int', double='double', float='float', comm='int', int64_t='long long').get(x, 'void *') for x in proto['params']]
    L = ['#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>', 'static int n; static char KEY[16] = "keyword"; static double ARR[64][4];', '#define BAD(...) do { printf("REPLAY-VIOLATION " __VA_ARGS__); printf("\\n"); fflush(stdout); _Exit(1); } while (0)']
    oi = 0; body = ['n++;']
    if len(ty) != len(kinds): body.append(f'BAD("{proc}: the C function does not take the documented arguments");')
    else:
        for i, (t, k) in enumerate(zip(ty, kinds)):
            w = f'BAD("{proc}, argument {i+1}: not what was given");'
            if k == 'h': body.append(f'*(long long *)a{i} = {c["outs"][oi]}LL;'); oi += 1
            elif k == 'o': body.append(f'*(int *)a{i} = {c["outs"][oi]};'); oi += 1
            elif k == 'i': body.append(f'if (a{i} != {c["args"][i]}) {w}')
            elif k == 'r': body.append(f'if (a{i} != {c["args"][i]!r}) {w}')
            elif k == 'c': body.append(f'if ((long long)a{i} != {c["args"][i]}LL) {w}')
            elif k == 'k': body.append(f'if ((char *)a{i} != KEY) {w}')
            else: body.append(f'if ((void *)a{i} != (void *)ARR[{i}]) {w}')
    retv = {'void': '', 'double': 'double d; long long r = %dLL; memcpy(&d, &r, 8); return d;' % c['ret']}.get(proto['ret'], 'return (%s)%dLL;' % (rt, c['ret']))
    L.append(f'{rt} {cname}({", ".join(f"{t} a{i}" for i, t in enumerate(ty))}) {{ {" ".join(body)} {retv} }}')
    fa = ', '.join(['void *'] * (len(kinds) + bool(res))); L.append(f'void vp_{proc}({fa});\nint main(void) {{'); call = []
    for i, k in enumerate(kinds):
        if k == 'k': call.append('KEY')
        elif k == 'a': call.append(f'ARR[{i}]')
        else:
            L.append(f'  {dict(c="long long", h="long long", i="int", r="double", o="int")[k]} v{i} = {repr(c["args"][i]) + ("LL" if k == "c" else "")};'); call.append(f'&v{i}')
    if res: L.append('  %s res = 0;' % ('int' if res == 'int' else 'long long')); call.append('&res')
    L.append(f'  vp_{proc}({", ".join(call)});\n  if (n != 1) BAD("{proc}: the C function is called %d times", n);'); oi = 0
    for i, k in enumerate(kinds):
        if k in 'ho': L.append(f'  if (v{i} != {c["outs"][oi]}{"LL" if k == "h" else ""}) BAD("{proc}: argument {i+1} is not what the library set");'); oi += 1
        elif k == 'i': L.append(f'  if (v{i} != {c["args"][i]}) BAD("{proc}: argument {i+1} is changed");')
    if res: L.append(f'  if (res != {"(int)" if res == "int" else ""}{c["ret"]}LL) BAD("{proc}: returns %lld, not what the library answered", (long long)res);')
    L.append('  puts("ok"); return 0; }'); open(f'{d}/main.c', 'w').write('\n'.join(L).replace('-9223372036854775808LL', '(-9223372036854775807LL-1)').replace('= -2147483648;', '= (-2147483647-1);'))
    b = subprocess.run(f'cd {d} && gcc -w -fno-builtin -c main.c -o main.o && gfortran -w -O1 -I{wd}/mod -c caller.f90 -o caller.o && gfortran main.o caller.o -o t', shell=True, capture_output=True, text=True)
    if b.returncode:
        if 'undefined reference' in b.stderr: return 'violation', f'REPLAY-VIOLATION {proc}: ' + re.search(r"undefined reference to `\w+'", b.stderr).group(0) + f' instead of {cname}'
        return 'error', b.stderr[-400:]
    r = subprocess.run([f'{d}/t'], capture_output=True, text=True, timeout=20)
    if r.returncode == 0: return 'ok', ''
    if r.returncode < 0: return 'violation', f'REPLAY-VIOLATION {proc}: the program dies by signal {-r.returncode}'
    return ('violation', r.stdout.strip()) if 'REPLAY-VIOLATION' in r.stdout else ('error', r.stdout + r.stderr)

def main():
    pid = sys.argv[1]; tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick'); wd = tempfile.mkdtemp(prefix=f'vp-{pid}-')
    try: rc = decide(pid, tier, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)
def decide(pid, tier, wd):
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(f'{wd}/mod'); pr = {}
    for d in (3, 2): pr.update(PC.protos(d))
    for mod in MODULES:
        r = subprocess.run(['gfortran', '-w', '-c', f'{REPO}/src/{mod}.f90', '-J', f'{wd}/mod', '-o', f'{wd}/mod/{mod}.o'], capture_output=True, text=True)
        if r.returncode: print('CHECK-ERROR', r.stderr[-600:]); return 2
    todo = [(m, p, k, c, r, f, s, o) for m in MODULES for p, (k, c, r) in procedures(m).items() for f in (0, 1) for s in ((8, 4) if 'a' in k else (8,)) for o in (('-O1',) if tier == 'quick' else ('-O0', '-O1', '-O2'))]
    def one(it):
        n, (mod, proc, kinds, cname, res, form, scalar, opt) = it; tag = f'j{n}'; d = f'{wd}/{tag}'; os.makedirs(d); f90 = caller(mod, proc, kinds, res, form, scalar); open(f'{d}/c.f90', 'w').write(f90); name = f'{proc}-{"local" if form else "argument"}-real{scalar}{opt}'
        r = subprocess.run(['gfortran', '-w', opt, '-S', '-fcf-protection=none', '-fno-stack-protector', '-fomit-frame-pointer', '-fno-optimize-sibling-calls', '-fno-asynchronous-unwind-tables', '-fno-tree-vectorize', f'-I{wd}/mod', '-o', f'{d}/c.s', f'{d}/c.f90'], capture_output=True, text=True)
        if r.returncode: return dict(name=name, violation=(f'{proc}: the documented call does not compile', 'REPLAY-VIOLATION the documented call does not compile: ' + ' '.join(r.stderr.split())[-300:], f90))
        asm = asm_functions(open(f'{d}/c.s').read()).get(f'vp_{proc}')
        if asm is None: return dict(name=name, undecided='no code')
        if cname not in pr: return dict(name=name, violation=(f'{proc}: the library has no {cname}', f'REPLAY-VIOLATION no {cname} in the headers', f90))
        try: M, e = decide_proc(proc, kinds, cname, res, asm, pr[cname])
        except Undecided as u: return dict(name=name, undecided=str(u))
        out = dict(name=name, M=dict(q=M.queries, a=M.assertions, s=M.solver_s, st=M.steps)); c = concrete(M, e.model if e else None, kinds, res); st, log = native(mod, proc, kinds, cname, res, pr[cname], c, wd, tag + 'n', f90)
        if e is None: out['witness'] = (st, log, c)
        elif st == 'violation': out['violation'] = (e.msg, log, f90, c)
        else: out['unconfirmed'] = (e.msg, st, log)
        return out
    # z3 objects are used from one thread at a time: separate processes
    import pickle; parts = [list(enumerate(todo))[i::8] for i in range(8)]; procs = []
    for i, p in enumerate(parts):
        pid_ = os.fork()
        if pid_ == 0:
            try: json.dump([one(x) for x in p], open(f'{wd}/r{i}.json', 'w'))
            except BaseException as e: json.dump([dict(name='worker', undecided=repr(e))], open(f'{wd}/r{i}.json', 'w'))
            os._exit(0)
        procs.append(pid_)
    for q in procs: os.waitpid(q, 0)
    rs = [x for i in range(8) for x in json.load(open(f'{wd}/r{i}.json'))]
    viol = [r for r in rs if 'violation' in r]; und = [r for r in rs if 'undecided' in r]; unc = [r for r in rs if 'unconfirmed' in r]; ok = [r for r in rs if r.get('witness', [''])[0] == 'ok']; vf = [r for r in rs if 'witness' in r and r['witness'][0] != 'ok']
    s = lambda k: sum(r.get('M', {}).get(k, 0) for r in rs)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - T0, 1), violations=len(viol), assumptions=['x86-64 System V calling convention, gfortran as installed', 'callers in the documented form are generated; the C entry points are those of C13'],
      coverage=dict(states=len(rs), transitions=s('st'), traces_validated_against_impl=len(ok), samples=[dict(call=r['name'], values=r['witness'][2]) for r in ok[:4]] or [r['name'] for r in rs[:3]], technique='symbolic execution of the machine code compiled from /repo/src/*_wrap.f90 with generated callers, against the prototypes of /repo/src/*_wrap.h; obligations decided by z3 (bit-vectors)', functions_encoded=sorted({t[1] for t in todo}), bounds='every procedure of the four modules, every value of every argument; arguments held in dummy arguments and in local variables of the caller, single and double precision arrays' + ('' if tier == 'quick' else ', three optimisation levels'), outside_bounds='other Fortran compilers and calling conventions; argument keywords; expressions and literals as arguments', assertions=s('a'), solver_queries=s('q'), solver_s=round(s('s'), 2), undecided=[(r['name'], r['undecided']) for r in und][:5], counterexamples_not_reproduced=[r['unconfirmed'] for r in unc][:5], witnesses_not_reproduced=[r['witness'][:2] for r in vf][:5]))
    os.makedirs(f'{V}/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: {len(rs)} calls, {s("a")} assertions, {s("q")} queries, solver {s("s"):.2f} s, {len(ok)} witnesses replayed, wall {time.time() - T0:.1f} s')
    for r in unc[:5]: print('counterexample not reproduced (not reported):', r['name'], r['unconfirmed'])
    for r in vf[:5]: print('witness not reproduced:', r['name'], r['witness'][:2])
    if viol:
        d = f'{V}/replays/{pid}'; os.makedirs(d, exist_ok=True); r = viol[0]; p = f'{d}/{r["name"]}.json'; json.dump(r, open(p, 'w'), indent=1)
        for m in sorted({x['violation'][0] for x in viol}): print('counterexample:', m)
        print('compiled code:', r['violation'][1]); print(f'VIOLATION property={pid} replay={p}'); return 1
    if und:
        for r in und[:5]: print('UNDECIDED', r['name'], r['undecided'])
        return 2
    return 0
if __name__ == '__main__': main()
