"""Symbolic execution of the Python wrapper: path exploration by re-execution, values over z3, a model of ctypes at the
level of the calling convention (what the C function receives), numpy arrays and mpi4py communicators."""
import z3, re, types, builtins

class Undecided(BaseException): pass          # the engine cannot model what the code does
class Infeasible(BaseException): pass

class Explorer:
    def __init__(self):
        self.prefix, self.queries, self.solver_s, self.assertions, self.paths, self.violations = [], 0, 0.0, 0, 0, []
        self.steps = 0; self.sticky = None
    def start(self): self.s = z3.Solver(); self.s.set('timeout', 60000); self.pos = 0; self.taken = []; self.n = 0; self.sticky = None; self.addrs = []
    def sat(self, *c):
        import time; t = time.time(); r = self.s.check(*c); self.solver_s += time.time() - t; self.queries += 1
        if r == z3.unknown: self.fail('solver gave up')
        return r == z3.sat
    def fail(self, why): self.sticky = self.sticky or why; raise Undecided(why)
    def assume(self, c):
        self.s.add(c)
    def decide(self, c):
        """truth of c on this path; both ways are explored when both are possible"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix): b = self.prefix[self.pos][0]
        else:
            t, f = self.sat(c), self.sat(z3.Not(c))
            if not t and not f: raise Infeasible
            b = t; self.prefix.append((b, t and f))
        self.pos += 1; self.s.add(c if b else z3.Not(c)); self.taken.append(b); return b
    def choose(self, n, name):
        """one of n alternatives, as a symbolic choice"""
        v = z3.Int(f'choice_{name}_{self.fresh_n()}'); self.assume(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.decide(v == i): return i
        return n - 1
    def next(self):
        while self.prefix and not (self.prefix[-1][1] and self.prefix[-1][0]): self.prefix.pop()
        if not self.prefix: return False
        self.prefix[-1] = (False, False); return True
    def fresh_n(self): self.n += 1; return self.n
    def fresh(self, name, lo=None, hi=None, sort=z3.IntSort()):
        v = z3.Const(f'{name}!{self.fresh_n()}', sort)
        if lo is not None: self.assume(z3.And(v >= lo, v <= hi))
        return v
    def address(self, name):
        v = z3.IntVal(2**40 + 4096 * len(self.addrs))
        self.addrs.append(v); return v
    def check(self, cond, msg):
        """cond must hold for every value on this path"""
        self.assertions += 1; cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        if self.sat(z3.Not(cond)):
            self.s.push(); self.s.add(z3.Not(cond)); self.s.check(); m = self.s.model(); self.s.pop(); raise Violation(msg, m)
        return True
    def witness(self): return self.s.model() if self.sat() else None

class Violation(BaseException):
    def __init__(self, msg, model): self.msg, self.model = msg, model

X = None                                       # the current explorer
def term(v):
    if isinstance(v, (SymInt, SymReal)): return v.t
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float): return z3.RealVal(repr(v))
    return None
def wrap32(t):
    return z3.simplify(t) if z3.is_int_value(z3.simplify(t)) and -2**31 <= z3.simplify(t).as_long() < 2**31 else (t + 2**31) % 2**32 - 2**31
def wrapu(t, bits): return t % 2**bits
def wraps(t, bits): return (t + 2**(bits-1)) % 2**bits - 2**(bits-1)

class SymBool:
    def __init__(self, t): self.t = t
    def __bool__(self): return X.decide(self.t)
    def __invert__(self): return ~int(bool(self))
    def __eq__(self, o): return bool(self) == bool(o)
    __hash__ = None
class SymNum:
    def __init__(self, t): self.t = t
    def _b(self, o, f, r=False):
        u = term(o)
        if u is None: return NotImplemented
        a, b = (u, self.t) if r else (self.t, u)
        t = f(a, b); return SymReal(t) if t.sort() == z3.RealSort() else SymInt(t)
    def _c(self, o, f):
        u = term(o)
        return NotImplemented if u is None else SymBool(f(self.t, u))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: a + b, True)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._b(o, lambda a, b: a * b, True)
    def __neg__(s): return type(s)(-s.t)
    def __pos__(s): return s
    def __abs__(s): return -s if bool(s < 0) else s
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b)
    __hash__ = None
    def __bool__(s): return X.decide(s.t != 0)
    def __str__(s): return 'symbolic'
    __repr__ = __str__
    def __format__(s, f): return 'symbolic'
class SymInt(SymNum):
    def __index__(s):
        t = z3.simplify(s.t)
        if z3.is_int_value(t): return t.as_long()
        for _ in range(9):
            if not X.sat(): raise Infeasible
            v = X.s.model().eval(s.t, model_completion=True).as_long()
            if X.pos < len(X.prefix): v = X.vals[X.pos]          # the value tried on the recorded path
            else: X.vals[X.pos] = v
            if X.decide(s.t == v): return v
        X.fail('a value with no small bound is used as a Python integer')
    __int__ = __index__
    def __floordiv__(s, o): return s._b(o, lambda a, b: a / b)
    def __mod__(s, o): return s._b(o, lambda a, b: a % b)
    def __float__(s): X.fail('conversion to float')
class SymReal(SymNum):
    def __float__(s): X.fail('conversion to a Python float')
    def __int__(s): X.fail('conversion to a Python int')
class SymStr:
    def __init__(s, t): s.t = t
    def _t(s, o): return o.t if isinstance(o, SymStr) else z3.StringVal(o) if isinstance(o, str) else z3.StringVal(o.decode()) if isinstance(o, bytes) else None
    def __eq__(s, o):
        u = s._t(o); return False if u is None else SymBool(s.t == u)
    def __ne__(s, o):
        u = s._t(o); return True if u is None else SymBool(s.t != u)
    __hash__ = None
    def __add__(s, o): return SymStr(z3.Concat(s.t, s._t(o)))
    def __radd__(s, o): return SymStr(z3.Concat(s._t(o), s.t))
    def __len__(s): return SymInt(z3.Length(s.t)).__index__()
    def __bool__(s): return X.decide(z3.Length(s.t) > 0)
    def __getitem__(s, i):
        n = z3.Length(s.t)
        if isinstance(i, slice):
            if i.step not in (None, 1): X.fail('string slice with a step')
            def at(v, d):
                if v is None: return d
                v = term(v); v = z3.If(v < 0, n + v, v); return z3.If(v < 0, 0, z3.If(v > n, n, v))
            a, b = at(i.start, z3.IntVal(0)), at(i.stop, n); return SymStr(z3.SubString(s.t, a, z3.If(b > a, b - a, 0)))
        X.fail('string index')
    def encode(s, *a, **k): return s
    def decode(s, *a, **k): return s
    def __str__(s): X.fail('formatting of a symbolic string')

# ------------------------------------------------------------------ C side
class Cell:
    """one C object: address, size in bytes, kind and contents"""
    def __init__(s, name, kind, size, value): s.addr, s.kind, s.size, s.value, s.name = X.address(name), kind, size, value, name; X.cells.append(s)
def cell_at(a):
    for c in X.cells:
        if z3.eq(z3.simplify(c.addr), z3.simplify(a)): return c
    for c in X.cells:
        if not X.sat(c.addr != a): return c
def store(a, kind, size, v, what):
    """the C function stores v through pointer a"""
    c = cell_at(a)
    if c is None: X.check(False, f'{what}: the C function is given a pointer to no object of the wrapper')
    if c.size < size: X.check(False, f'{what}: the C function writes past the object it is given')
    if c.kind == kind and c.size == size: c.value = v
    elif c.kind in ('i', 'u', 'p') and kind in ('i', 'p') and c.size > size: old = c.value; c.value = wraps(wrapu(v, 8 * size) + old - wrapu(old, 8 * size), 8 * c.size)
    elif c.kind == 'u' and kind == 'i' and c.size == size: c.value = wrapu(v, 8 * size)
    else: c.value = X.fresh('garbage', sort=z3.RealSort() if c.kind == 'd' else z3.IntSort())

class _Simple:
    _kind = 'i'; _size = 4
    def __init__(self, value=None):
        self._cell = Cell(type(self).__name__, self._kind, self._size, z3.RealVal(0) if self._kind == 'd' else z3.IntVal(0)); self._keep = None
        if value is not None: self.value = value
    def _get(self):
        v = self._cell.value
        if self._kind == 'p': return None if X.decide(v == 0) else SymInt(v)
        if self._kind == 's': return None if self._keep is None else self._keep
        return SymReal(v) if self._kind == 'd' else SymInt(v)
    def _set(self, v):
        if self._kind == 's': self._keep = v; return
        if v is None and self._kind == 'p': self._cell.value = z3.IntVal(0); return
        self._cell.value = type(self)._conv(v)
    value = property(_get, _set)
    def __bool__(self): return X.decide(self._cell.value != 0)
    @classmethod
    def _conv(cls, v):
        t = term(v)
        if t is None: raise TypeError(f'{cls.__name__}: wrong type {type(v).__name__}')
        if cls._kind == 'd':
            t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
            return t if cls._size == 8 else X.fresh('rounded_to_float', sort=z3.RealSort())
        if t.sort() == z3.RealSort(): raise TypeError('float where an int is expected')
        return wraps(t, 8 * cls._size) if cls._kind == 'i' else wrapu(t, 8 * cls._size)
    @classmethod
    def from_param(cls, v):
        if isinstance(v, cls): return cls, v._cell.value
        if hasattr(v, '_as_parameter_'): return cls.from_param(v._as_parameter_)
        return cls, cls._conv(v)
    @classmethod
    def from_address(cls, a):
        t = term(a)
        if t is None: raise TypeError('integer expected')
        c = cell_at(t)
        if c is None: X.check(False, 'the wrapper reads memory at an address that belongs to nothing')
        if X.decide(c.size_t < cls._size) if hasattr(c, 'size_t') else c.size < cls._size: X.check(False, 'the wrapper reads past the communicator handle')
        o = cls(); v = c.value; o._cell.value = wraps(v, 32) if cls._size == 4 and cls._kind == 'i' else wrapu(v, 8 * cls._size); return o
    @classmethod
    def in_dll(cls, *a): X.fail('in_dll')
    def __class_getitem__(cls, n): X.fail('ctypes arrays')
class _Meta(type):
    def __mul__(cls, n): X.fail('ctypes arrays are not modelled')
def _mk(name, kind, size): return _Meta(name, (_Simple,), dict(_kind=kind, _size=size, __module__='ctypes'))
C = types.SimpleNamespace()
for n, k, z in [('c_int', 'i', 4), ('c_int32', 'i', 4), ('c_uint', 'u', 4), ('c_uint32', 'u', 4), ('c_long', 'i', 8), ('c_longlong', 'i', 8), ('c_int64', 'i', 8), ('c_ulong', 'u', 8), ('c_ulonglong', 'u', 8), ('c_uint64', 'u', 8), ('c_size_t', 'u', 8), ('c_ssize_t', 'i', 8), ('c_short', 'i', 2), ('c_byte', 'i', 1), ('c_double', 'd', 8), ('c_float', 'd', 4), ('c_void_p', 'p', 8), ('c_char_p', 's', 8)]: setattr(C, n, _mk(n, k, z))
C.c_int32 = C.c_int; C.c_int64 = C.c_longlong = C.c_long; C.c_uint32 = C.c_uint; C.c_uint64 = C.c_size_t = C.c_ulonglong = C.c_ulong; C.c_ssize_t = C.c_long

class _Ref:                                    # byref()
    def __init__(s, o): s.o = o
class _Ptr:                                    # an instance of POINTER(T)
    _type_ = None
    def __init__(s, o=None):
        if o is None: s.addr = z3.IntVal(0)
        elif not isinstance(o, s._type_): raise TypeError(f'expected {s._type_.__name__}')
        else: s.addr = o._cell.addr
        s.o = o; s.elems = None
    def _contents(s):
        if s.o is None: raise ValueError('NULL pointer access')
        return s.o
    contents = property(_contents)
    def __bool__(s): return X.decide(s.addr != 0)
    def __getitem__(s, i):
        if not bool(s): raise ValueError('NULL pointer access')
        if isinstance(i, slice):
            if i.stop is None: raise ValueError('slice stop is required')
            a = 0 if i.start is None else i.start.__index__(); b = i.stop.__index__(); st = 1 if i.step is None else i.step.__index__()
            return [s._at(k) for k in range(a, b, st)]
        return s._at(i.__index__())
    def _at(s, k):
        if s.elems is None:
            if s.o is not None and k == 0: return s.o.value
            X.check(False, 'the wrapper reads through a pointer to unknown memory')
        els, n, kind = s.elems
        if k < 0 or k >= len(els): X.check(False, 'the wrapper reads outside the vector the library returned')
        X.check(n > k, 'the wrapper reads past the length the library returned')
        if kind != (s._type_._kind, s._type_._size): return SymReal(X.fresh('garbage', sort=z3.RealSort())) if s._type_._kind == 'd' else SymInt(X.fresh('garbage'))
        return SymReal(els[k]) if kind[0] == 'd' else SymInt(els[k])
_ptrs = {}
def POINTER(T):
    if T is None: return C.c_void_p
    if T not in _ptrs: _ptrs[T] = type('LP_' + T.__name__, (_Ptr,), dict(_type_=T, _kind='p', _size=8, __module__='ctypes', from_param=classmethod(_ptr_from)))
    return _ptrs[T]
def _ptr_from(cls, v):
    if v is None: return cls, z3.IntVal(0)
    if isinstance(v, cls): return cls, v.addr
    if isinstance(v, _Ref) and isinstance(v.o, cls._type_): return cls, v.o._cell.addr
    if isinstance(v, cls._type_): return cls, v._cell.addr
    raise TypeError(f'expected {cls.__name__} instance instead of {type(v).__name__}')
@classmethod
def _void_from(cls, v):
    if v is None: return cls, z3.IntVal(0)
    if isinstance(v, _Ref): return cls, v.o._cell.addr
    if isinstance(v, _Ptr): return cls, v.addr
    if isinstance(v, C.c_void_p): return cls, v._cell.value
    if isinstance(v, SymStr): return cls, ('str', v)
    t = term(v)
    if t is None or t.sort() != z3.IntSort(): raise TypeError(f'c_void_p: wrong type {type(v).__name__}')
    return cls, wrapu(t, 64)
C.c_void_p.from_param = _void_from
@classmethod
def _char_from(cls, v):
    if v is None: return cls, z3.IntVal(0)
    if isinstance(v, C.c_char_p): v = v._keep; return cls, (z3.IntVal(0) if v is None else ('str', v))
    if isinstance(v, (str, bytes)): v = SymStr(z3.StringVal(v if isinstance(v, str) else v.decode()))
    if isinstance(v, SymStr): return cls, ('str', v)
    raise TypeError(f'c_char_p: wrong type {type(v).__name__}')
C.c_char_p.from_param = _char_from

def byref(o, off=0):
    if not isinstance(o, _Simple): raise TypeError('byref() argument must be a ctypes instance')
    if off: X.fail('byref with an offset')
    return _Ref(o)
def pointer(o): return POINTER(type(o))(o)
def sizeof(o): return (o if isinstance(o, type) else type(o))._size
def addressof(o): return SymInt(o._cell.addr)
def cast(o, T):
    p = T.__new__(T)
    if isinstance(o, _Ptr): a = o.addr
    elif isinstance(o, C.c_void_p): a = o._cell.value
    elif isinstance(o, _Ref): a = o.o._cell.addr
    elif term(o) is not None: a = term(o)
    elif o is None: a = z3.IntVal(0)
    else: X.fail('cast of ' + type(o).__name__)
    if T is C.c_void_p: p = T(); p._cell.value = a; return p
    if not issubclass(T, _Ptr): X.fail('cast to ' + T.__name__)
    p.addr, p.o, p.elems = a, None, getattr(o, 'elems', None); return p
class ArgumentError(Exception): pass

class _Func:
    def __init__(s, lib, name, proto): s.lib, s.name, s.proto, s.argtypes, s.restype, s.errcheck = lib, name, proto, None, C.c_int, None; s.__name__ = name
    def __call__(s, *args, **kw):
        if kw: X.fail('keyword arguments of a C function')
        if s.errcheck is not None: X.fail('errcheck')
        at = list(s.argtypes) if s.argtypes is not None else []
        if len(args) < len(at): raise TypeError(f'this function takes at least {len(at)} arguments ({len(args)} given)')
        regs = []
        for i, v in enumerate(args):
            if i < len(at):
                try: T, t = at[i].from_param(v)
                except TypeError as e: raise ArgumentError(f'argument {i+1}: {e}')
            elif v is None: T, t = C.c_void_p, z3.IntVal(0)
            elif isinstance(v, _Simple): T, t = type(v).from_param(v)
            elif isinstance(v, _Ptr): T, t = type(v), v.addr
            elif isinstance(v, _Ref): T, t = C.c_void_p, v.o._cell.addr
            elif isinstance(v, SymStr): T, t = C.c_char_p, ('str', v)
            elif isinstance(v, (str, bytes)): T, t = C.c_char_p, ('str', SymStr(z3.StringVal(v if isinstance(v, str) else v.decode())))
            elif term(v) is not None and term(v).sort() == z3.IntSort(): T, t = C.c_int, wraps(term(v), 32)
            else: raise ArgumentError(f"argument {i+1}: Don't know how to convert parameter {i+1}")
            regs.append((T, t))
        # what the C function finds in its parameters (System V convention: integer and floating registers, in order)
        ints = [(T, t) for T, t in regs if T._kind != 'd']; flts = [(T, t) for T, t in regs if T._kind == 'd']; got = []
        for p in s.proto['params']:
            src = flts if p in ('double', 'float') else ints
            if not src: got.append(('missing', None)); continue
            T, t = src.pop(0)
            if p == 'int': got.append(('v', X.fresh('garbage', -2**31, 2**31 - 1) if isinstance(t, tuple) else t if T._kind == 'i' and T._size == 4 else wraps(t, 32)))
            elif p == 'double' or p == 'float': got.append(('v', t if T._size == (8 if p == 'double' else 4) else X.fresh('garbage', sort=z3.RealSort())))
            elif p == 'comm': got.append(('v', X.fresh('garbage') if isinstance(t, tuple) else wraps(t, 32) if X.decide(X.commsize == 4) else t if T._size == 8 else X.fresh('garbage')))
            elif isinstance(t, tuple): got.append(t)
            else: got.append(('v', t if T._size == 8 else X.fresh('garbage')))      # pointers: 8 bytes
        raw = X.callee(s.name, s.proto, got)
        R = s.restype; ret = s.proto['ret']
        if R is None: return None
        if ret == 'void': return SymInt(X.fresh('garbage', -2**31, 2**31 - 1))
        rk = dict(int=('i', 4), int64_t=('i', 8), double=('d', 8)).get(ret, ('p', 8))
        if (rk[0] == 'd') != (R._kind == 'd') or rk[0] == 'd' and R._size != rk[1]: return SymReal(X.fresh('garbage', sort=z3.RealSort())) if R._kind == 'd' else SymInt(X.fresh('garbage'))
        if ret == 'int': return SymInt(raw if R._kind == 'i' and R._size == 4 else wrapu(raw, 32) if R._kind == 'u' and R._size == 4 else X.fresh('garbage'))
        if ret == 'int64_t': return SymInt(raw if R._kind == 'i' and R._size == 8 else wraps(raw, 8 * R._size) if R._kind == 'i' else wrapu(raw, 8 * R._size))
        if ret == 'double': return SymReal(raw)
        if ret == 'char *':
            if R is C.c_char_p: return None if X.decide(raw['addr'] == 0) else SymStr(raw['str'])
            if R is C.c_void_p: return None if X.decide(raw['addr'] == 0) else SymInt(raw['addr'])
            X.fail('a string result read as ' + R.__name__)
        if isinstance(R, type) and issubclass(R, _Ptr): p = R.__new__(R); p.addr, p.o, p.elems = raw['addr'], None, raw['elems']; return p
        if R is C.c_void_p: return None if X.decide(raw['addr'] == 0) else SymInt(raw['addr'])
        return SymInt(wraps(raw['addr'], 32)) if R is C.c_int else X.fail('a pointer result read as ' + R.__name__)
class _Lib:
    def __init__(s, name, mode=None, **k):
        s.__dict__['_f'] = {}
        if X.decide(X.nolib): raise OSError(f'{name}: cannot open shared object file')
        import os; b = os.path.basename(name) if isinstance(name, str) else X.fail('library name')
        if b not in X.libs: raise OSError(f'{name}: cannot open shared object file')
        s.__dict__['_p'] = X.libs[b]; s.__dict__['_name'] = name
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        if n not in s._p: raise AttributeError(f'{s._name}: undefined symbol: {n}')
        f = _Func(s, n, s._p[n]); s.__dict__[n] = f; return f
    def __getitem__(s, n):
        if n not in s._p: raise AttributeError(f'{s._name}: undefined symbol: {n}')
        return _Func(s, n, s._p[n])
class _Loader:
    def LoadLibrary(s, n): return _Lib(n)
def mod(name, **k): m = types.ModuleType(name); m.__dict__.update(k); return m
fake_ctypes = mod('ctypes', **{k: v for k, v in C.__dict__.items()}, POINTER=POINTER, byref=byref, pointer=pointer, sizeof=sizeof, addressof=addressof, cast=cast, CDLL=_Lib, PyDLL=_Lib, cdll=_Loader(), RTLD_GLOBAL=256, RTLD_LOCAL=0, DEFAULT_MODE=0, ArgumentError=ArgumentError)

# ------------------------------------------------------------------ numpy and mpi4py
class ndarray:
    def __init__(s, name, scalar):
        s._cell = Cell(name, 'array', 0, None); s._n = X.fresh('len_' + name, 0, 2); s.dtype = _dt[scalar]; s.ndim = 1; s.itemsize = scalar * 4
        s.size = SymInt(s._n); s.shape = (s.size,); s.nbytes = SymInt(s._n * s.itemsize); a = s
        class _c:
            data = SymInt(a._cell.addr)
            def data_as(self, T):
                if T is C.c_void_p: p = T(); p._cell.value = a._cell.addr; return p
                p = T.__new__(T); p.addr, p.o, p.elems = a._cell.addr, None, None; return p
        s.ctypes = _c(); s.flags = types.SimpleNamespace(c_contiguous=True, contiguous=True, writeable=True); s.flags_ = s.flags; s.__array_interface__ = dict(data=(SymInt(a._cell.addr), False))
    def __len__(s): return SymInt(s._n).__index__()
ndarray.__module__ = 'numpy'
_dt = {1: 'float32', 2: 'float64'}
fake_numpy = mod('numpy', ndarray=ndarray, float32='float32', float64='float64', dtype=lambda x: x)
class Comm:
    pass
def _sizeof(c): return SymInt(X.commsize) if isinstance(c, Comm) or c is Comm else 8
def _addressof(c): return SymInt(c._cell.addr)
fake_MPI = mod('mpi4py.MPI', _sizeof=_sizeof, _addressof=_addressof, Comm=Comm, _handleof=lambda c: SymInt(c._cell.value)); fake_mpi4py = mod('mpi4py', MPI=fake_MPI)
fake_tb = mod('traceback', print_exception=lambda *a, **k: None, print_exc=lambda *a, **k: None, format_exc=lambda *a, **k: '')

# ------------------------------------------------------------------ the wrapper's source
def to_py3(src):
    """the Python 2 wrapper as Python 3 (statement forms only)"""
    try: compile(src, 'fftmpi.py', 'exec'); return src
    except SyntaxError: pass
    out = []
    for l in src.split('\n'):
        m = re.match(r'^(.*?:\s*|\s*)print\s*>>\s*([\w.]+)\s*,\s*(.*)$', l)
        if m and not l.lstrip().startswith('#'): l = f'{m.group(1)}print({m.group(3)}, file={m.group(2)})'
        else:
            m = re.match(r'^(\s*(?:(?:if|else|elif|except|for|while|try)\b[^"\'#]*:\s*)?)print\b[ \t]+(?!\()(.+)$', l)
            if m: l = f'{m.group(1)}print({m.group(2)})'
            elif re.match(r'^\s*print\s*$', l): l = l.rstrip() + '()'
        m = re.match(r'^(.*?\braise\s+[\w.]+)\s*,\s*(.+)$', l)
        if m: l = f'{m.group(1)}({m.group(2)})'
        l = re.sub(r'^(\s*except\s+[\w.()]+(?:\s*,\s*[\w.]+\))?)\s*,\s*(\w+)\s*:', r'\1 as \2:', l)
        out.append(l)
    return '\n'.join(out)
def load(code):
    b = dict(vars(builtins)); real = builtins.__import__
    fakes = {'ctypes': fake_ctypes, 'numpy': fake_numpy, 'mpi4py': fake_mpi4py, 'mpi4py.MPI': fake_MPI, 'traceback': fake_tb}
    def imp(name, g=None, l=None, fl=(), lv=0):
        if name in fakes: return fakes[name] if fl or '.' not in name else fakes[name.split('.')[0]]
        return real(name, g, l, fl, lv)
    def isinst(o, T):
        Ts = T if isinstance(T, tuple) else (T,)
        return isinstance(o, T) or isinstance(o, SymInt) and int in Ts or isinstance(o, SymReal) and float in Ts or isinstance(o, SymStr) and (str in Ts or bytes in Ts)
    b['isinstance'] = isinst; b['__import__'] = imp; b['print'] = lambda *a, **k: None; b['unicode'] = str; b['xrange'] = range; b['long'] = int
    g = {'__name__': 'fftmpi', '__builtins__': b}; exec(code, g); return g
