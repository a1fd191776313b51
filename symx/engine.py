"""Harness execution: symbolic exploration of the instrumented library and concrete replay
on the plain build."""
import ctypes as ct, json, math, os, pickle, random, signal, struct, sys, time, traceback
from fractions import Fraction
import numpy as np
from .alg import *
from .path import *

TAG = 0x7FFA << 48
def f2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2f(u): return struct.unpack('<d', struct.pack('<Q', u))[0]
ZERO = 0

class Abort(Exception): pass
class LibError(Exception): pass

LIB = None     # instrumented library (symbolic mode)

def _bits(x):
    if isinstance(x, Sym): return x.b
    return f2b(float(x))

class Sym:
    __slots__ = ('b',)
    __array_priority__ = 1000
    def __init__(s, b): s.b = b
    def _o(s, op, o, rev=False):
        if isinstance(o, np.ndarray): return NotImplemented
        x, y = (_bits(o), s.b) if rev else (s.b, _bits(o))
        return mk(LIB.sx_bi(op, x, y))
    def __add__(s, o): return s._o(2, o)
    def __radd__(s, o): return s._o(2, o, True)
    def __sub__(s, o): return s._o(3, o)
    def __rsub__(s, o): return s._o(3, o, True)
    def __mul__(s, o): return s._o(4, o)
    def __rmul__(s, o): return s._o(4, o, True)
    def __truediv__(s, o): return s._o(5, o)
    def __rtruediv__(s, o): return s._o(5, o, True)
    def __neg__(s): return mk(LIB.sx_un(6, s.b))
    def __pos__(s): return s
    def __pow__(s, n):
        n = int(n); r = 1.0
        for _ in range(n): r = r*s
        return r
    def __lt__(s, o): return Cond(4, s, o)
    def __le__(s, o): return Cond(5, s, o)
    def __gt__(s, o): return Cond(2, s, o)
    def __ge__(s, o): return Cond(3, s, o)
    def eq(s, o): return Cond(1, s, o)
    def ne(s, o): return Cond(6, s, o)
    def __repr__(s): return f'Sym({LIB.sx_shadow(s.b):.6g})'
    def shadow(s): return LIB.sx_shadow(s.b)
def mk(b):
    if (b >> 48) == 0x7FFA: return Sym(b)
    return b2f(b)

class Cond:
    """an unevaluated comparison; bool() forks the path"""
    __slots__ = ('p', 'a', 'b')
    def __init__(s, p, a, b): s.p = p; s.a = a; s.b = b
    def __bool__(s): return bool(LIB.sx_cmp(s.p, _bits(s.a), _bits(s.b)))
class And:
    def __init__(s, *cs): s.cs = cs
    def __bool__(s): return all(bool(c) for c in s.cs)
class Or:
    def __init__(s, *cs): s.cs = cs
    def __bool__(s): return any(bool(c) for c in s.cs)
def Implies(a, b):
    return Or(Not(a), b)
def Not(a):
    if isinstance(a, Cond): return Cond(NEGP[a.p], a.a, a.b)
    if isinstance(a, And): return Or(*[Not(x) for x in a.cs])
    if isinstance(a, Or): return And(*[Not(x) for x in a.cs])
    return not a
def EQ(a, b): return Cond(1, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a == b

def bind(path):
    L = ct.CDLL(path)
    u64, d = ct.c_uint64, ct.c_double
    if hasattr(L, 'sx_reset'):
        L.sx_input.argtypes = [ct.c_uint32, d]; L.sx_input.restype = u64
        L.sx_un.argtypes = [ct.c_int, u64]; L.sx_un.restype = u64
        L.sx_bi.argtypes = [ct.c_int, u64, u64]; L.sx_bi.restype = u64
        L.sx_cmp.argtypes = [ct.c_int, u64, u64]; L.sx_cmp.restype = ct.c_int
        L.sx_node.argtypes = [u64]; L.sx_node.restype = ct.c_uint32
        L.sx_shadow.argtypes = [u64]; L.sx_shadow.restype = d
        for f in ('sx_nnodes', 'sx_nbr', 'sx_ndom', 'sx_opcount'): getattr(L, f).restype = ct.c_long
        L.sx_note.restype = ct.c_char_p
        L.sx_set_prefix.argtypes = [ct.c_void_p, ct.c_long]
        L.sx_set_maxbr.argtypes = [ct.c_long]
        L.sx_nodes.argtypes = [ct.c_void_p]*4 + [ct.c_long]
    return L

def flat(x):
    if isinstance(x, np.ndarray): return list(x.ravel())
    if isinstance(x, (list, tuple)):
        r = []
        for y in x: r += flat(y)
        return r
    return [x]

class Input:
    def __init__(s, name, lo, hi, gen): s.name = name; s.lo = lo; s.hi = hi; s.gen = gen

class Base:
    """common to symbolic and concrete execution"""
    sym = False
    def call(s, fname, *args, out=0):
        """extern "C" long fname(in..., double* out): float arrays -> double*, ints -> long, handles as ints"""
        f = getattr(s.lib, fname)
        f.restype = ct.c_long
        cargs = []; keep = []
        for a in args:
            if isinstance(a, (bool, int, np.integer)): cargs.append(ct.c_long(int(a)))
            else:
                fl = flat(a)
                buf = (ct.c_uint64*max(1, len(fl)))(*[_bits(x) for x in fl])
                keep.append(buf); cargs.append(ct.cast(buf, ct.c_void_p))
        ob = None
        if out:
            ob = (ct.c_uint64*out)(*([f2b(0.0)]*out)); cargs.append(ct.cast(ob, ct.c_void_p))
        r = f(*cargs)
        if r == -999999:
            g = s.lib.hx_error; g.restype = ct.c_char_p
            raise LibError(f'{fname}: ' + g().decode(errors='replace'))
        s.ret = r
        if out: return np.array([mk(x) if s.sym else b2f(x) for x in ob], dtype=object if s.sym else float)
        return r
    def handle(s, fname, *args):
        return s.call(fname, *args)
    # matrices
    def arr(s, x): return np.array(x, dtype=object if s.sym else float)
    def hat(s, w): return s.arr([[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]])
    def eye(s, n): return s.arr([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])
    def zeros(s, *sh):
        return np.full(sh, 0.0, dtype=object if s.sym else float)
    def reals(s, name, n, lo=None, hi=None, **kw):
        return s.arr([s.real(f'{name}{i}', lo, hi, **kw) for i in range(n)])
    def quatrot(s, q):
        """rotation matrix of the unit quaternion q=(w,x,y,z)"""
        w, x, y, z = q
        return s.arr([[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)],
                      [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)],
                      [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]])
    def rot(s, name): return s.quatrot(s.unit(name, 4))
    def pose(s, name, lo=None, hi=None):
        R = s.rot(name + '_q'); t = s.reals(name + '_t', 3, lo, hi)
        return s.mat4(R, t)
    def mat4(s, R, t):
        T = s.eye(4); T[:3, :3] = R; T[:3, 3] = t
        return T
    def inv4(s, T):
        R = T[:3, :3].T; return s.mat4(R, -(R @ T[:3, 3]))
    def hat6(s, x):
        M = s.zeros(4, 4); M[:3, :3] = s.hat(x[:3]); M[:3, 3] = x[3:6]; return M
    def rodrigues(s, u, si, co):
        U = s.hat(u); return s.eye(3) + si*U + (1-co)*(U @ U)
    def dot(s, a, b):
        r = 0.0
        for x, y in zip(flat(a), flat(b)): r = r + x*y
        return r

class SymE(Base):
    sym = True
    def __init__(s, lib, job, stats, opts):
        s.lib = lib; s.stats = stats; s.opts = opts; s.job = job
        lib.sx_reset()
        lib.sx_set_maxbr(opts.get('maxbr', 400))
        pre = job['prefix']
        arr = (ct.c_long*max(1, len(pre)))(*pre)
        lib.sx_set_prefix(arr, len(pre))
        s.path = Path(stats, opts.get('qtimeout', 4000)); s.path.divs = opts.setdefault('_divs', {})
        if opts.get('terms'): s.path.c.termlimit = opts['terms']; MULLIM[0] = 50*opts['terms']
        s.nin = 0
        s.goals = []          # (label, kind, payload)
        s.assumes = []
        s.rng_salt = job.get('salt', 0)
        s.seeds = job['seeds']
        s.used = {}
        s.varof = {}
        s.marks = []          # (nbranches, label) for goal positions
        s.covers = []
    # inputs
    def _seed(s, name, lo, hi, gen=None):
        if name in s.seeds: v = s.seeds[name]
        else:
            r = random.Random(f'{name}|{s.rng_salt}|{s.opts.get("seed", 1)}')
            if gen: v = gen(r)
            else:
                a = -2.0 if lo is None else float(lo); b = 2.0 if hi is None else float(hi)
                if lo is not None and hi is None: b = a + 3.0
                if hi is not None and lo is None: a = b - 3.0
                v = r.uniform(a, b) if b > a else a
        s.used[name] = v
        return v
    def _mkin(s, name, lo=None, hi=None, gen=None, kind='input'):
        v = s._seed(name, lo, hi, gen)
        var = s.path.real(name, _fr(lo), _fr(hi), v, kind)
        i = s.nin; s.nin += 1
        s.path.inputs[i] = s.path.c.f(var)
        x = mk(LIB.sx_input(i, float(v)))
        s.varof[name] = var
        return x, var
    def real(s, name, lo=None, hi=None, gen=None): return s._mkin(name, lo, hi, gen)[0]
    def angle(s, name, lo=None, hi=None, div=1, gen=None):
        """an angle with (cos, sin) atoms; lo, hi in radians (floats or fractions of pi as ('pi', q))"""
        x, v = s._mkin(name, _flo(lo), _fhi(hi), gen or (lambda r: r.uniform(_num(lo, -3.0), _num(hi, 3.0))))
        s.path.angle(v, div)
        c = s.path.c
        for b, p in ((lo, 3), (hi, 5)):
            if isinstance(b, tuple):
                s.path.facts.append((c.sub(c.f(v), c.mul(s.path.pivar(), c.const(Fraction(b[1])))), p))
        return x
    def unit(s, name, n):
        """unit vector of n symbolic components"""
        r = random.Random(f'{name}|{s.rng_salt}|{s.opts.get("seed", 1)}')
        vals = [s.seeds.get(f'{name}{i}', r.gauss(0, 1)) for i in range(n)]
        nr = math.sqrt(sum(x*x for x in vals)) or 1.0
        vals = [x/nr for x in vals]
        xs = []; vs = []
        for i in range(n):
            s.seeds[f'{name}{i}'] = vals[i]
            x, v = s._mkin(f'{name}{i}', -1, 1)
            xs.append(x); vs.append(v)
        c = s.path.c
        rhs = c.const(1)
        for v in vs[1:]: rhs = c.sub(rhs, Frac({c.mono(v, 2): 1}))
        c.rule(vs[0], rhs)
        return s.arr(xs)
    def eps(s):
        x, v = s._mkin('eps', 0, 0, kind='eps')
        v.lo = v.hi = None
        s.path.c.eps = v
        s.path.c.rule(v, Frac({}))
        return x
    # math
    def sin(s, x): return mk(LIB.sx_un(8, x.b)) if isinstance(x, Sym) else math.sin(x)
    def cos(s, x): return mk(LIB.sx_un(9, x.b)) if isinstance(x, Sym) else math.cos(x)
    def sqrt(s, x): return mk(LIB.sx_un(7, x.b)) if isinstance(x, Sym) else math.sqrt(x)
    def acos(s, x): return mk(LIB.sx_un(12, x.b)) if isinstance(x, Sym) else math.acos(x)
    def atan2(s, y, x):
        if isinstance(y, Sym) or isinstance(x, Sym): return mk(LIB.sx_bi(14, _bits(y), _bits(x)))
        return math.atan2(y, x)
    @property
    def pi(s):
        if not hasattr(s, '_pi'):
            i = s.nin; s.nin += 1
            s.path.inputs[i] = s.path.pivar()
            s._pi = mk(LIB.sx_input(i, math.pi))
        return s._pi
    # assumptions and goals
    def assume(s, cond): s.assumes.append((cond, LIB.sx_nbr()))
    def check_zero(s, label, xs, tol=1e-7, scale=1.0):
        s.goals.append((label, 'zero', flat(xs), LIB.sx_nbr()))
    def check_eq(s, label, a, b, tol=1e-7, scale=1.0):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb): s.goals.append((label, 'false', f'sizes {len(fa)} vs {len(fb)}', LIB.sx_nbr())); return
        s.goals.append((label, 'zero', [x-y for x, y in zip(fa, fb)], LIB.sx_nbr()))
    def check_same(s, label, a, b):
        """bit-for-bit equality (same DAG node / same double)"""
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb): s.goals.append((label, 'false', f'sizes {len(fa)} vs {len(fb)}', LIB.sx_nbr())); return
        if all(_bits(x) == _bits(y) for x, y in zip(fa, fb)): s.goals.append((label, 'true', None, LIB.sx_nbr()))
        else: s.goals.append((label, 'zero', [x-y for x, y in zip(fa, fb)], LIB.sx_nbr()))
    def check(s, label, cond, slack=1e-9):
        if isinstance(cond, (Cond, And, Or)): s.goals.append((label, 'cond', cond, LIB.sx_nbr()))
        else: s.goals.append((label, 'true' if cond else 'false', None, LIB.sx_nbr()))
    def check_close(s, label, a, b, tol):
        """|a-b| <= tol for all inputs (tol a number): exact-real claim with tolerance"""
        s.goals.append((label, 'close', ([x-y for x, y in zip(flat(a), flat(b))], tol), LIB.sx_nbr()))
    def check_angle(s, label, a, b, tol=1e-7):
        """a == b modulo 2 pi"""
        fa, fb = flat(a), flat(b)
        zs = []
        for x, y in zip(fa, fb):
            zs += [s.sin(x)-s.sin(y), s.cos(x)-s.cos(y)]
        s.goals.append((label, 'zero', zs, LIB.sx_nbr()))
    def check_deriv(s, label, f, expected, tol=1e-5):
        """d f / d eps at eps = 0 equals expected"""
        s.goals.append((label, 'deriv', (flat(f), flat(expected)), LIB.sx_nbr()))
    def cover(s, name): s.covers.append(name)
    def note_error(s, label, msg): s.goals.append((label, 'false', msg, LIB.sx_nbr()))
    # decompositions answered by contract
    def decomp(s, kind, M, *parts):
        """kind 'eig': parts (values, vectors by column); 'svd': (values, U, V): what the solver answers when given M"""
        if not hasattr(s, '_dec'):
            s._dec = []
            T = ct.CFUNCTYPE(ct.c_int, ct.c_int, ct.c_long, ct.c_void_p, ct.c_void_p)
            s._cb = T(s._answer)
            s.lib.dec_hook(ct.cast(s._cb, ct.c_void_p))
        s._dec.append((kind, [M[i][j] for i in range(len(M)) for j in range(len(M))], [flat(p) for p in parts]))
    def decomp_any(s):
        """the decompositions are an arbitrary function of the matrix: equal matrices, equal answers"""
        s._free = {}
        if not hasattr(s, '_dec'): s.decomp('none', [])
    def _anyof(s, kind, n, m, out):
        k = (kind, *[_bits(x) for x in m])
        if k not in s._free:
            A = np.array([x.shadow() if isinstance(x, Sym) else float(x) for x in m]).reshape(n, n)
            if not np.isfinite(A).all(): A = np.zeros((n, n))
            if kind == 'eig': w, V = np.linalg.eigh(A); r = [*w, *V.ravel()]
            else: U, w, Vt = np.linalg.svd(A); r = [*w, *U.ravel(), *Vt.T.ravel()]
            i = len(s._free); sym = any(isinstance(x, Sym) for x in m)
            s._free[k] = [_bits(s.real(f'dec{i}_{j}', gen=lambda _, x=x: float(x)) if sym else float(x)) for j, x in enumerate(r)]
        for j, x in enumerate(s._free[k]): out[j] = x
        return 0
    def _answer(s, kind, n, mp, op):
        try:
            kind = 'svd' if kind else 'eig'
            m = [mk(x) for x in (ct.c_uint64*(n*n)).from_address(mp)]
            sh = lambda x: x.shadow() if isinstance(x, Sym) else float(x)
            if hasattr(s, '_free'): return s._anyof(kind, n, m, (ct.c_uint64*(n+n*n*(2 if kind == 'svd' else 1))).from_address(op))
            v = [sh(x) for x in m]; out = (ct.c_uint64*(n+n*n*(2 if kind == 'svd' else 1))).from_address(op)
            tr = lambda x: [x[j*n+i] for i in range(n) for j in range(n)]
            for one, (k, M, parts) in [(1, d) for d in s._dec] + [(0, d) for d in s._dec]:   # an exact match first
                if k != kind or len(M) != n*n: continue
                for flip in ((0, 1) if kind == 'svd' else (0,)):
                    M2 = tr(M) if flip else M; w = [sh(x) for x in M2]
                    i = max(range(n*n), key=lambda j: abs(w[j])); c = 1.0
                    if abs(w[i]) > 1e-12:
                        c = v[i]/w[i]; f = Fraction(c).limit_denominator(1000) if c == c else None
                        if f is None or f <= 0 or abs(float(f)-c) > 1e-9*abs(c) or one and f != 1: continue
                        c = float(f)
                    if any(abs(x-c*y) > 1e-7*(1e-9+max(map(abs, w))) for x, y in zip(v, w)): continue
                    s.check_eq('matrix given to the ' + ('singular value' if kind == 'svd' else 'eigenvalue') + ' solver', m, [c*y for y in M2])
                    vals = [c*x for x in parts[0]]; rest = parts[1:]
                    if flip: rest = rest[::-1]
                    for j, x in enumerate(vals + [y for p in rest for y in p]): out[j] = _bits(x)
                    return 0
            if all(not isinstance(x, Sym) for x in m) and np.isfinite(v).all():
                A = np.array(v).reshape(n, n)
                if kind == 'eig': w, V = np.linalg.eigh(A); r = [*w, *V.ravel()]
                else: U, w, Vt = np.linalg.svd(A); r = [*w, *U.ravel(), *Vt.T.ravel()]
                for j, x in enumerate(r): out[j] = f2b(float(x))
                return 0
            s.note_error('decomposition', 'unexpected matrix ' + ' '.join('%.6g' % x for x in v))
            return 1
        except Exception as x:
            s.note_error('decomposition', 'oracle: ' + repr(x)); return 1

def _num(b, d):
    if b is None: return d
    if isinstance(b, tuple): return float(b[1])*math.pi
    return float(b)
def _flo(b):
    if isinstance(b, tuple): return 0 if b[1] >= 0 else None if b[1] < -4 else Fraction(math.floor(float(b[1])*math.pi*1000)-1, 1000)
    return b
def _fhi(b):
    if isinstance(b, tuple): return 0 if b[1] == 0 else Fraction(math.ceil(float(b[1])*math.pi*1000)+1, 1000)
    return b
def _fr(x):
    if x is None or isinstance(x, (int, Fraction)): return x
    return Fraction(repr(float(x)))

class Special:
    """the same harness on a subspace of its inputs: 'a+b_t+c=d' fixes groups a and b_t to zero (vectors), the
    identity (rotations, poses) or e0 (unit vectors), and lets group c repeat the values of d; the rest stays symbolic"""
    def __init__(s, E, spec):
        d = s.__dict__; d['_E'] = E; d['_zero'] = set(); d['_same'] = {}; d['_seen'] = {}
        for x in spec.split('+'):
            if '=' in x: a, b = x.split('='); s._same[a] = b
            else: s._zero.add(x)
        d['_used'] = set()
    def __getattr__(s, n): return getattr(s._E, n)
    def __setattr__(s, n, v): setattr(s._E, n, v)
    def _sp(s, name, zero, mkv):
        if name in s._zero: return zero()
        if s._same.get(name) in s._seen: return s._seen[s._same[name]]
        v = mkv(); s._seen[name] = v
        return v
    def real(s, name, *a, **k): return s._sp(name, lambda: 0.0, lambda: s._E.real(name, *a, **k))
    def reals(s, name, n, *a, **k):
        b = s._seen.get(s._same.get(name))
        if b is not None and len(b) != n: s._same.pop(name)
        return s._sp(name, lambda: s._E.zeros(n), lambda: s._E.arr([s.real(f'{name}{i}', *a, **k) for i in range(n)]))
    def unit(s, name, n): return s._sp(name, lambda: s._E.arr([1.0]+[0.0]*(n-1)), lambda: s._E.unit(name, n))
    def rot(s, name): return s._sp(name, lambda: s._E.eye(3), lambda: s._E.quatrot(s.unit(name, 4)))
    def pose(s, name, lo=None, hi=None):
        return s._sp(name, lambda: s._E.eye(4), lambda: s._E.mat4(s.rot(name+'_q'), s.reals(name+'_t', 3, lo, hi)))

class Recorder:
    """notes the input groups a harness asks for: name, kind, whether zero is allowed"""
    def __init__(s, E): s.__dict__.update(_E=E, _g={}, _depth=0)
    def __getattr__(s, n): return getattr(s._E, n)
    def __setattr__(s, n, v): setattr(s._E, n, v)
    def _rec(s, name, kind, lo, hi):
        if sys._getframe(2).f_code.co_name == 'choose': return
        z = all(b is None or (not isinstance(b, tuple) and sg*float(b) <= 0) for b, sg in ((lo, 1), (hi, -1)))
        s._g.setdefault(name, (kind, z))
    def real(s, name, lo=None, hi=None, **k): s._rec(name, f'real {lo} {hi}', lo, hi); return s._E.real(name, lo, hi, **k)
    def reals(s, name, n, lo=None, hi=None, **k): s._rec(name, f'reals{n} {lo} {hi}', lo, hi); return s._E.reals(name, n, lo, hi, **k)
    def unit(s, name, n): s._rec(name, f'unit{n}', None, None); return s._E.unit(name, n)
    def rot(s, name): s._rec(name, 'rot', None, None); return s._E.rot(name)
    def pose(s, name, lo=None, hi=None): s._rec(name, f'pose {lo} {hi}', lo, hi); return s._E.pose(name, lo, hi)
def discover(h, lib, seed=1):
    """the input groups of a harness, from one concrete run"""
    e = Recorder(ConcE(lib, {}, 0.0, 0, seed))
    try: h(e)
    except BaseException: pass
    return dict(e._g)
class ConcE(Base):
    """concrete execution on the plain build; records failed checks"""
    def __init__(s, lib, inputs, epsval=0.0, salt=0, seed=1):
        s.lib = lib; s.inputs = inputs; s.fails = []; s.n = 0; s.epsv = epsval
        s.derivs = []; s.diffs = []; s.ok_assume = True; s.salt = salt; s.seed = seed; s.used = {}
        s.covers = []
    def _get(s, name, lo, hi, gen=None):
        if name in s.inputs: v = float(s.inputs[name])
        else:
            r = random.Random(f'{name}|{s.salt}|{s.seed}')
            if gen: v = gen(r)
            else:
                a = -2.0 if lo is None else float(lo); b = 2.0 if hi is None else float(hi)
                if lo is not None and hi is None: b = a + 3.0
                if hi is not None and lo is None: a = b - 3.0
                v = r.uniform(a, b)
        if lo is not None and not isinstance(lo, tuple): v = max(v, float(lo))
        if hi is not None and not isinstance(hi, tuple): v = min(v, float(hi))
        s.used[name] = v
        return v
    def real(s, name, lo=None, hi=None, gen=None): return s._get(name, lo, hi, gen)
    def angle(s, name, lo=None, hi=None, div=1, gen=None):
        v = s._get(name, None, None, gen or (lambda r: r.uniform(_num(lo, -3.0), _num(hi, 3.0))))
        if lo is not None: v = max(v, _num(lo, 0))
        if hi is not None: v = min(v, _num(hi, 0))
        return v
    def unit(s, name, n):
        r = random.Random(f'{name}|{s.salt}|{s.seed}')
        d = [r.gauss(0, 1) for i in range(n)]
        v = np.array([float(s.inputs.get(f'{name}{i}', d[i])) for i in range(n)])
        nr = np.linalg.norm(v)
        v = v/nr if nr > 0 else np.eye(n)[0]
        for i in range(n): s.used[f'{name}{i}'] = float(v[i])
        return v
    def eps(s): return s.epsv
    def sin(s, x): return math.sin(x)
    def cos(s, x): return math.cos(x)
    def sqrt(s, x): return math.sqrt(x) if x >= 0 else math.nan
    def acos(s, x): return math.acos(x) if -1 <= x <= 1 else math.nan
    def atan2(s, y, x): return math.atan2(y, x)
    pi = math.pi
    def assume(s, cond):
        if not _cb(cond): s.ok_assume = False
    def _fail(s, label, msg, diff=None, scale=None):
        s.fails.append((label, msg)); s.diffs.append((label, diff, scale))
    def check_zero(s, label, xs, tol=1e-7, scale=1.0):
        s.n += 1
        for i, x in enumerate(flat(xs)):
            if not abs(x) <= tol*max(1.0, scale): s._fail(label, f'component {i} is {x!r}, expected 0'); return
    def check_eq(s, label, a, b, tol=1e-7, scale=1.0):
        s.n += 1
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb): s._fail(label, f'sizes {len(fa)} vs {len(fb)}'); return
        m = max([1.0, scale] + [abs(y) for y in fb if y == y])
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not abs(x-y) <= tol*m: s._fail(label, f'component {i}: got {float(x)!r}, expected {float(y)!r}', x-y, m if tol else None); return
    def check_same(s, label, a, b):
        s.n += 1
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb): s._fail(label, f'sizes {len(fa)} vs {len(fb)}'); return
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not (x == y): s._fail(label, f'component {i}: {x!r} differs from {y!r}'); return
    def check(s, label, cond, slack=1e-9):
        s.n += 1
        if not _cb(cond): s._fail(label, 'condition is false')
    def check_close(s, label, a, b, tol):
        s.n += 1
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            if not abs(x-y) <= tol*1.01 + 4e-16*max(1.0, abs(x), abs(y)): s._fail(label, f'component {i}: {float(x)!r} vs {float(y)!r} beyond {tol}', x-y, max(1.0, abs(x), abs(y))); return
    def check_angle(s, label, a, b, tol=1e-7):
        s.n += 1
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            if not (abs(math.sin(x)-math.sin(y)) <= tol and abs(math.cos(x)-math.cos(y)) <= tol):
                s._fail(label, f'component {i}: angle {x!r} vs {y!r}'); return
    def check_deriv(s, label, f, expected, tol=1e-5): s.derivs.append((label, [float(x) for x in flat(f)], [float(x) for x in flat(expected)], tol))
    def cover(s, name): s.covers.append(name)
    def decomp(s, kind, M, *parts): pass
    def decomp_any(s): pass
    def note_error(s, label, msg): s.n += 1; s._fail(label, msg)
def _cb(c):
    return bool(c)

def run_concrete(h, lib, inputs, salt=0, seed=1):
    """Returns (fails, ran, used inputs)."""
    def one(eps):
        e = ConcE(lib, inputs, eps, salt, seed)
        try: h(e)
        except LibError as x: e._fail('library-exception', str(x))
        except Abort: e.ok_assume = False
        return e
    e0 = one(0.0)
    fails = list(e0.fails)
    if not e0.ok_assume: return [], 0, e0.used
    n = e0.n
    # small deviations: keep only those that stand out of the rounding noise (inputs moved by an ulp or two)
    if any(d is not None and sc is not None and d == d and abs(d) < 1e-4*sc for _, d, sc in e0.diffs):
        runs = []
        for k in range(5):
            r = random.Random(f'ulp{k}')
            ins = {nm: (v*(1+r.choice((-3e-16, -1.5e-16, 1.5e-16, 3e-16))) if isinstance(v, float) else v) for nm, v in e0.used.items()}
            e = ConcE(lib, ins, 0.0, salt, seed)
            try: h(e)
            except Exception: continue
            runs.append(dict((l, d) for l, d, sc in reversed(e.diffs) if d is not None))
        keep = []
        for f, (l, d, sc) in zip(fails, e0.diffs):
            if d is None or sc is None or d != d or abs(d) >= 1e-4*sc: keep.append(f); continue
            ds = [q.get(l, 0.0) for q in runs] + [d]
            if max(ds)-min(ds) <= 0.25*abs(d): keep.append(f)
        fails = keep
    if e0.derivs:
        hh = 1e-6
        ep, em = one(hh), one(-hh)
        for i, (label, f, ex, tol) in enumerate(e0.derivs):
            n += 1
            if i >= len(ep.derivs) or i >= len(em.derivs): continue
            fp, fm = ep.derivs[i][1], em.derivs[i][1]
            for j, x in enumerate(ex):
                d = (fp[j]-fm[j])/(2*hh)
                d1, d2 = (fp[j]-f[j])/hh, (f[j]-fm[j])/hh
                if abs(d1-d2) > 1e-2*(1+abs(d)): continue     # not differentiable here (wrap-around)
                if not abs(d-x) <= tol*max(1.0, abs(x), abs(d))*10: fails.append((label, f'derivative component {j}: numeric {d!r}, reported {x!r}')); break
    return fails, n, e0.used

# ---------------------------------------------------------------- symbolic exploration
class Result:
    def __init__(s, name):
        s.name = name; s.paths = 0; s.infeasible = 0; s.frontier = 0; s.obl = 0; s.disch = 0; s.trivial = 0
        s.incon = []; s.viol = []; s.samples = []; s.branches = 0; s.nodes = 0; s.stats = Stats(); s.notes = []
        s.err = None; s.covers = {}; s.wall = 0; s.domain = 0; s.ops = 0; s.maxdec = 0; s.witness = 0; s.validated = 0; s.inexact = 0
    def to(s):
        d = dict(s.__dict__); d['stats'] = s.stats.d(); return d

def explore(h, lib, opts, res, replay, deadline):
    """Exploration of harness h: inequalities before equalities, shallow decisions first. replay(inputs) -> list of failures."""
    global LIB
    LIB = lib
    todo = [dict(prefix=[], seeds={}, salt=i) for i in range(1)]
    maxp = opts.get('max_paths', 64)
    seen = set()
    for sd in opts.get('seeds', []): todo.append(dict(prefix=[], seeds=dict(sd), salt=0, nofork=False))
    done = set(); errs = 0
    while todo:
        if res.paths >= maxp or time.time() > deadline:
            res.frontier += len(todo); break
        i = min(range(len(todo)), key=lambda j: (todo[j].get('eqs', 0), len(todo[j]['prefix']), -j)); job = todo.pop(i)
        k = tuple(job['prefix'])
        if k in seen and job['prefix']: continue
        seen.add(k)
        try:
            for _ in range(6):
                keep = {q: list(v) if isinstance(v, list) else v for q, v in res.__dict__.items()}, list(todo), set(done), set(opts.get('_flipseen', ())), {q: set(v) for q, v in opts.get('_ints', {}).items()}
                try: one_path(h, lib, opts, res, replay, job, todo, deadline, done); break
                except Rebase as x: res.__dict__.update(keep[0]); todo[:] = keep[1]; done.clear(); done |= keep[2]; opts['_flipseen'] = keep[3]; opts['_ints'] = keep[4]; opts['_divs'][x.name] = x.mult
        except Exception as x:      # the encoding of this path failed: its witness is still run on the real code
            import traceback
            errs += 1; res.obl += 1; msg = f'path not encodable: {type(x).__name__}: {str(x)[:200]}'
            if os.environ.get('SYMX_DEBUG'): traceback.print_exc()
            ins = dict(job['seeds'])
            E = opts.get('_E')
            if E is not None: ins = dict(E.used)
            fails = replay(ins)
            if fails: res.viol.append(dict(label=fails[0][0], msg=fails[0][1], inputs=ins, how='witness of a path that could not be encoded', note=msg))
            else: res.incon.append(('path', msg))
            if errs > 5: res.frontier += len(todo); break
        if res.viol and not opts.get('all_violations'): break

def one_path(h, lib, opts, res, replay, job, todo, deadline, done):
    job = dict(job); job['seeds'] = dict(job['seeds'])
    opts['_cur'] = job
    if opts.get('_state'): opts['_state'](job)
    opts['_E'] = None
    E = SymE(lib, job, res.stats, opts); opts['_E'] = E
    P = E.path
    err = None
    try: h(E)
    except LibError as x: E.goals.append(('library-exception', 'false', str(x), LIB.sx_nbr()))
    except Abort: return
    nb = lib.sx_nbr()
    kind = (ct.c_int*max(1, nb))(); pred = (ct.c_int*max(1, nb))(); ba = (ct.c_uint32*max(1, nb))(); bb = (ct.c_uint32*max(1, nb))(); out = (ct.c_long*max(1, nb))()
    lib.sx_branches(kind, pred, ba, bb, out)
    nd = lib.sx_ndom(); dn = (ct.c_uint32*max(1, nd))(); db = (ct.c_uint32*max(1, nd))(); lib.sx_doms(dn, db)
    # materialise condition operands of goals before importing the DAG
    goals = []
    for g in E.goals: goals.append(prepare_goal(g))
    assumes = [(prepare_cond(c), k) for c, k in E.assumes]
    n = lib.sx_nnodes()
    op = np.empty(n, np.uint8); a = np.empty(n, np.uint32); b = np.empty(n, np.uint32); v = np.empty(n, np.float64)
    lib.sx_nodes(op.ctypes.data, a.ctypes.data, b.ctypes.data, v.ctypes.data, n)
    P.load(op.tolist(), a.tolist(), b.tolist(), v.tolist())
    res.ops += lib.sx_opcount()
    flags = lib.sx_flags()
    if flags & 1: res.notes.append('branch budget reached on a path (outside the bound)')
    if flags & 2: res.notes.append('unsupported: ' + lib.sx_note().decode())
    sys.setrecursionlimit(100000)
    full = [int(out[i]) for i in range(nb)]
    res.maxdec = max(res.maxdec, nb)
    if tuple(full) in done: return
    # assumptions first (they constrain everything)
    bad = False
    try:
        for c, k in assumes:
            r = zcond_facts(P, c)
            if r is False: bad = True
    except (Budget, Undefined, NonDiff) as x:
        res.notes.append(f'assumption not encodable: {x}')
    if bad: res.infeasible += 1; return
    # branches in order
    flips = []
    nfacts_at = [len(P.facts)]
    try:
        for i in range(nb):
            if time.time() > deadline + 5: break
            if kind[i] == 1:
                fa = P.node(ba[i])
                k = int(out[i])
                # trunc semantics: k = trunc(fa)
                conds = trunc_cond(P, fa, k)
                if P.c.is_const(fa):
                    q = P.c.cval(fa); kk = math.trunc(q)
                    if kk != k:
                        todo.append(dict(prefix=full[:i]+[kk], seeds=job['seeds'], salt=job['salt'])); res.infeasible += 1; return
                else:
                    if i >= len(job['prefix']): flips.append((i, 'int', fa, k))
                    P.facts += conds
                nfacts_at.append(len(P.facts)); continue
            fa, fb = P.node(ba[i]), P.node(bb[i])
            d = P.c.sub(fa, fb)
            p = pred[i] if out[i] else NEGP[pred[i]]
            if P.c.eps is not None: d0, d1 = P.split(d)
            else: d0 = d
            if P.c.is_const(d0):
                q = P.c.cval(d0)
                truth = {1: q == 0, 2: q > 0, 3: q >= 0, 4: q < 0, 5: q <= 0, 6: q != 0}[pred[i]]
                if truth != bool(out[i]):
                    todo.append(dict(prefix=full[:i]+[int(truth)], seeds=job['seeds'], salt=job['salt'])); res.infeasible += 1
                    return
            else:
                if i >= len(job['prefix']): flips.append((i, 'cmp', d0, NEGP[p], len(P.facts)))
                P.addfact(d0, p)
                P.norm_bound(ba[i], bb[i], p)
            nfacts_at.append(len(P.facts))
    except (Budget, NonDiff) as x:
        res.notes.append(f'path condition beyond the algebra budget: {x}')
        nfacts_at += [len(P.facts)]*(nb+1-len(nfacts_at))
    except Undefined as x:
        res.notes.append(f'undefined value in a branch: {x}')
        nfacts_at += [len(P.facts)]*(nb+1-len(nfacts_at))
    res.branches += nb
    # is this path feasible at all?
    if job['prefix'] or assumes:
        try: st, m = P.query([], timeout=opts.get('ftimeout', 3000))
        except Budget: st, m = 'unknown', None
        if st == 'unsat': res.infeasible += 1; feasible = False
        else: feasible = True
        if feasible and st == 'sat': res.witness += 1
        if feasible and st == 'unknown' and shadow_ok(P): res.witness += 1
    else:
        feasible = True; res.witness += 1
    # schedule flips
    for fl in flips:
        i = fl[0]
        if fl[1] == 'cmp':
            _, _, d, np_, nf = fl
            pre = full[:i] + [1-full[i]]
            if tuple(pre) in opts.setdefault('_flipseen', set()): continue
            opts['_flipseen'].add(tuple(pre))
            try:
                dl = [(d, np_)] + [q for q in [P.squared(d, np_)] if q]
                if any(len(f.num) > 6 for f, _ in dl):
                    keep = P.facts; P.facts = P.facts[:nf]
                    try: un = P.relax(dl)
                    finally: P.facts = keep
                    if un: continue
            except Budget: pass
            try: st, m = P.query([(d, np_)], timeout=opts.get('ftimeout', 3000), upto=nf, model=True)
            except Budget: st, m = 'unknown', None
            if st == 'unsat': continue
            seeds = dict(job['seeds'])
            if st == 'sat': seeds.update(input_seeds(E, P, m, P.touched))
            todo.append(dict(prefix=pre, seeds=seeds, salt=job['salt'], eqs=job.get('eqs', 0)+(np_ == 1)))
        else:
            _, _, fa, k = fl
            # other integer values: ask the solver for one not yet seen
            key = (tuple(full[:i]),)
            tried = opts.setdefault('_ints', {}).setdefault(key, set()); tried.add(k)
            nf = nfacts_at[i]
            ex = []
            for t in tried:
                cs = trunc_cond(P, fa, t)
                ex.append((z3.Not(z3.And([P.zcond(f, p) for f, p in cs])), set().union(*[P.c.varset(f) for f, p in cs])))
            st, m = P.query(ex, timeout=opts.get('ftimeout', 3000), upto=nf, model=True)
            if st == 'sat':
                mv = P.model_values(m)
                vals = [mv.get(v.name, v.shadow) for v in P.c.vars]
                kk = math.trunc(P.c.evalf(fa, vals))
                if kk in tried:
                    res.notes.append('integer part: model rounding')
                else:
                    tried.add(kk)
                    seeds = dict(job['seeds']); seeds.update(input_seeds(E, P, m, P.touched))
                    todo.append(dict(prefix=full[:i]+[kk], seeds=seeds, salt=job['salt']))
            elif st == 'unknown': res.frontier += 1
    if not feasible: return
    done.add(tuple(full))
    res.paths += 1
    for cname in E.covers: res.covers[cname] = res.covers.get(cname, 0)+1
    res.nodes += n
    # domain obligations
    if opts.get('domain', True):
        domset = set()
        live = cone(P, goals, ba, bb, nb)       # only values that reach an observed result or a decision
        for i in range(nd):
            x = dn[i]
            if db[i] >= len(nfacts_at) or x not in live: continue
            try: check_domain(P, E, x, nfacts_at[db[i]], res, replay, opts, domset)
            except (Budget, NonDiff, Undefined) as ex:
                pass
            if res.viol and not opts.get('all_violations'): return
    # goals
    for g in goals:
        if time.time() > deadline:
            res.obl += 1; res.incon.append((g[0], 'time limit')); continue
        discharge(P, E, g, nfacts_at, res, replay, opts, job)
        if res.viol and not opts.get('all_violations'): return
    res.inexact += P.inexact

def shadow_ok(P):
    try:
        for f, p in P.facts:
            if not isinstance(f, Frac): continue
            v = P.c.evalf(f)
            if not {1: abs(v) < 1e-9, 2: v > -1e-12, 3: v >= -1e-12, 4: v < 1e-12, 5: v <= 1e-12, 6: True}[p]: return False
        return True
    except Exception: return False

def trunc_cond(P, fa, k):
    c = P.c
    if k > 0: return [(c.sub(fa, c.const(k)), 3), (c.sub(fa, c.const(k+1)), 4)]
    if k < 0: return [(c.sub(fa, c.const(k)), 5), (c.sub(fa, c.const(k-1)), 2)]
    return [(c.sub(fa, c.const(1)), 4), (c.add(fa, c.const(1)), 2)]

def input_seeds(E, P, m, only=None):
    mv = P.model_values(m)
    out = {}
    for name, var in E.varof.items():
        if only is not None and var.i not in only: continue
        if name in mv: out[name] = mv[name]
    # angles: reconcile theta with (cos, sin)
    for (th, cv, sv) in P.trig:
        if not isinstance(cv, Var): continue
        nm = None
        if len(th.num) == 1 and not th.den:
            (mm, cf), = th.num.items()
            for name, var in E.varof.items():
                if P.c.mono(var) == mm: nm = name; q = Fraction(cf, th.k)
        if nm is None: continue
        if cv.name in mv and sv.name in mv:
            al = math.atan2(mv[sv.name], mv[cv.name])/float(q)
            t = out.get(nm)
            per = 2*math.pi/abs(float(q))
            if t is not None:
                al += round((t-al)/per)*per
            var = E.varof[nm]
            lo = float(var.lo) if var.lo is not None else -1e18; hi = float(var.hi) if var.hi is not None else 1e18
            if al < lo and al+per <= hi: al += per
            if al > hi and al-per >= lo: al -= per
            if t is None or abs(math.cos(t*float(q))-mv[cv.name]) > 1e-6: out[nm] = min(max(al, lo), hi)
    return out

def prepare_cond(c):
    if isinstance(c, Cond): return ('c', c.p, LIB.sx_node(_bits(c.a)), LIB.sx_node(_bits(c.b)))
    if isinstance(c, And): return ('and', [prepare_cond(x) for x in c.cs])
    if isinstance(c, Or): return ('or', [prepare_cond(x) for x in c.cs])
    return ('b', bool(c))
def prepare_goal(g):
    label, kind, pl, nbr = g
    nd = lambda xs: [LIB.sx_node(_bits(x)) if not (isinstance(x, float) and not math.isfinite(x)) else None for x in xs]
    if kind == 'zero': return (label, kind, nd(pl), nbr)
    if kind == 'close': return (label, kind, (nd(pl[0]), pl[1]), nbr)
    if kind == 'deriv': return (label, kind, (nd(pl[0]), nd(pl[1])), nbr)
    if kind == 'cond': return (label, kind, prepare_cond(pl), nbr)
    return g
def zform(P, c):
    """prepared condition -> (z3 expr, varset)"""
    if c[0] == 'c':
        d = P.c.sub(P.node(c[2]), P.node(c[3]))
        if P.c.eps is not None: d = P.split(d)[0]
        if P.c.is_const(d):
            q = P.c.cval(d)
            v = {1: q == 0, 2: q > 0, 3: q >= 0, 4: q < 0, 5: q <= 0, 6: q != 0}[c[1]]
            return z3.BoolVal(v), set()
        vs = P.c.varset(d)
        return P.zcond(d, c[1]), vs
    if c[0] == 'b': return z3.BoolVal(c[1]), set()
    zs = [zform(P, x) for x in c[1]]
    vs = set().union(*[z[1] for z in zs]) if zs else set()
    return (z3.And if c[0] == 'and' else z3.Or)([z[0] for z in zs]), vs
def zcond_facts(P, c):
    if c[0] == 'c':
        d = P.c.sub(P.node(c[2]), P.node(c[3]))
        if P.c.is_const(d):
            q = P.c.cval(d)
            return {1: q == 0, 2: q > 0, 3: q >= 0, 4: q < 0, 5: q <= 0, 6: q != 0}[c[1]]
        P.facts.append((d, c[1])); return None
    if c[0] == 'and':
        r = None
        for x in c[1]:
            if zcond_facts(P, x) is False: r = False
        return r
    if c[0] == 'b': return None if c[1] else False
    e, vs = zform(P, c)
    P.facts.append((e, vs)); return None

def cone(P, goals, ba, bb, nb):
    st = [int(ba[i]) for i in range(nb)] + [int(bb[i]) for i in range(nb)]
    def collect(x):
        if isinstance(x, (list, tuple)):
            for y in x: collect(y)
        elif isinstance(x, (int, np.integer)) and not isinstance(x, bool): st.append(int(x))
    for g in goals: collect(g[2])
    n = len(P.op); live = set()
    while st:
        x = st.pop()
        if x in live or not 0 <= x < n: continue
        live.add(x); o = P.op[x]
        if o <= 1: continue
        st.append(int(P.a[x]))
        if o in (2, 3, 4, 5, 14, 16, 17): st.append(int(P.b[x]))
    return live

def check_domain(P, E, x, nf, res, replay, opts, domset):
    c = P.c
    o = P.op[x]
    if o == 5: f = P.node(P.b[x]); bad = [(f, 1)]; what = 'division by zero'
    elif o == 7:
        if P.sos(P.a[x]) is not None: res.obl += 1; res.domain += 1; res.disch += 1; res.trivial += 1; return
        f = P.node(P.a[x]); bad = [(f, 4)]; what = 'square root of a negative value'
    elif o in (11, 12): return  # acos/asin arguments: handled by goals (rounding), see DESIGN
    elif o == 19: f = P.node(P.a[x]); bad = [(f, 5)]; what = 'logarithm of a non-positive value'
    else: return
    f0 = P.split(f)[0]
    if c.is_const(f0):
        q = c.cval(f0)
        if (o == 5 and q == 0) or (o == 7 and q < 0): pass
        else: return
    key = (o, tuple(sorted(f0.num.items())), nf)
    if key in domset: return
    domset.add(key)
    res.obl += 1; res.domain += 1
    # a sum of squares or a radicand created as such is never negative
    if o == 7 and P.sign(f0) == 1: res.disch += 1; return
    if o == 5 and len(f0.num) > 1:
        # non-zero num: factor-wise is too strong to ask; query directly
        pass
    st, m = P.query([(f0, bad[0][1])], timeout=opts.get('dtimeout', 1500), upto=nf, model=True)
    if st == 'unsat': res.disch += 1; return
    if st == 'sat':
        ins = dict(E.used); ins.update(input_seeds(E, P, m))
        fails = replay(ins)
        if fails:
            res.viol.append(dict(label=f'{what}: ' + fails[0][0], msg=fails[0][1], inputs=ins, how='domain')); return
    res.incon.append((what, st + ': ' + c.str(f0)[:200]))

def discharge(P, E, g, nfacts_at, res, replay, opts, job):
    label, kind, pl, nbr = g
    c = P.c
    res.obl += 1
    t0 = time.time()
    if kind == 'true': res.disch += 1; res.trivial += 1; return
    if kind == 'false':
        candidates(P, E, None, label, res, replay, opts, job, note=str(pl)); return
    try:
        if kind == 'cond':
            e, vs = zform(P, pl)
            neg = z3.Not(e)
            st, m = P.query([(neg, vs)], model=True)
            negs = [(neg, vs)]
        else:
            if kind == 'deriv':
                fs = []
                for nf_, ne in zip(*pl):
                    if nf_ is None or ne is None: raise Undefined('non-finite component')
                    f = P.node(nf_); f0, f1 = P.split(f)
                    x = P.node(ne); x0, _ = P.split(x)
                    fs.append(c.sub(f1 if f1 is not None else c.const(0), x0))
            else:
                nodes = pl[0] if kind == 'close' else pl
                if any(x is None for x in nodes): raise Undefined('non-finite component')
                fs = [P.node(x) for x in nodes]
                if c.eps is not None: fs = [P.split(f)[0] for f in fs]
            bad = [f for f in fs if f.num]
            if not bad and kind != 'close' or (kind == 'close' and not bad):
                # the negated goal reduces to 0 != 0: ground-unsatisfiable
                P.stats.queries += 1; P.stats.unsat += 1; P.stats.nf += 1
                res.disch += 1
                if len(res.samples) < 6: res.samples.append(f'{res.name}: {label}: {len(fs)} component(s) reduce to 0 on a path with {len(P.facts)} condition(s); unsat')
                return
            negs = []
            if kind == 'close':
                st = prove_close(P, bad, pl[1], opts)
                if st == 'unsat': res.disch += 1; return
                m = None
                if isinstance(st, tuple): st, m, negs = st
            else:
                zs = [z3.simplify(P.zpoly(f.num) != 0) for f in bad]
                vs = set().union(*[c.varset(f) for f in bad])
                big = sum(len(f.num) for f in bad)
                neg = z3.Or(zs); negs = [(neg, vs)]
                if big > 1500: st, m = 'unknown', None
                elif len(bad) > 24: st, m = P.query(negs, model=True)
                elif len(bad) == 1: st, m = zero_query(P, bad[0])
                else:
                    st, m = 'unsat', None; seen_ = set()
                    for f, z_ in zip(bad, zs):
                        kk = tuple(sorted(f.num.items()))
                        if kk in seen_: continue
                        seen_.add(kk)
                        st, m = zero_query(P, f)
                        if st != 'unsat': negs = [(z_, c.varset(f))]; bad = [f]; break
        if st == 'unsat':
            res.disch += 1
            if len(res.samples) < 6: res.samples.append(f'{res.name}: {label}: negation unsat under {len(P.facts)} path condition(s) ({time.time()-t0:.2f}s)')
            return
        note = f'solver: {st}'
        if kind not in ('cond',) and bad: note += '; residual ' + c.str(bad[0])[:300]
    except (Budget, NonDiff, Undefined) as x:
        st, m = 'unknown', None; note = f'{type(x).__name__}: {x}'; negs = None
    candidates(P, E, m, label, res, replay, opts, job, note=note)

def zero_query(P, f, depth=0, conds=()):
    """Is f != 0 possible under the path condition? Splits on the sign of the absolute values in f."""
    c = P.c
    if not f.num: return 'unsat', None
    ab = [i for i in sorted(c.varset(f)) if c.vars[i].kind == 'abs' and isinstance(c.vars[i].info, Frac)]
    if ab and depth < 4:
        i = ab[0]; x = c.vars[i].info
        worst = ('unsat', None)
        for g, p in ((x, 3), (c.neg(x), 3)):
            try: h = c.subst(f, {i: g})
            except ZeroDivisionError: h = None
            if h is not None and not h.num: P.stats.queries += 1; P.stats.unsat += 1; continue
            cs = list(conds) + [(g, 3)]
            st, m = P.query(cs, timeout=1500)
            if st == 'unsat': continue
            if h is None: st, m = 'unknown', None
            else: st, m = zero_query(P, h, depth+1, cs)
            if st == 'sat': return st, m
            if st == 'unknown': worst = (st, m)
        return worst
    return P.query(list(conds) + [(z3.simplify(P.zpoly(f.num) != 0), c.varset(f))], model=True)

def prove_close(P, bad, tol, opts):
    """|f| <= tol for each f under the path condition; uses Taylor enclosures of the trig atoms"""
    c = P.c
    extra = []
    for (th, cv, sv) in P.trig:
        C = c.f(cv) if isinstance(cv, Var) else cv; S = c.f(sv) if isinstance(sv, Var) else sv
        if th.den or C.den or S.den: continue
        extra += P.trigfine(P.zpoly(th.num)/th.k, P.zpoly(C.num)/C.k, P.zpoly(S.num)/S.k)
    T = c.const(Fraction(repr(tol)))
    for f in bad:
        if any(c.vars[i].kind == 'abs' for i in c.varset(f)):
            try:
                if zero_query(P, f)[0] == 'unsat': continue
            except Budget: pass
        try:
            if P.close_by_intervals(f, tol): continue
        except Budget: pass
        for sg in (1, -1):
            d = c.sub(f if sg > 0 else c.neg(f), T)
            st, m = P.query([(d, 2)], extra=extra, model=True, timeout=opts.get('ctimeout', 8000))
            if st == 'unsat': continue
            if P.trig:
                # sharper: enclosures around pi too, and a counterexample that stands out of the tolerance if there is one
                ex2 = list(extra)
                for (th, cv, sv) in P.trig:
                    C = c.f(cv) if isinstance(cv, Var) else cv; S = c.f(sv) if isinstance(sv, Var) else sv
                    if th.den or C.den or S.den: continue
                    ex2 += P.trigfine(P.z(P._pii()) - P.zpoly(th.num)/th.k, -(P.zpoly(C.num)/C.k), P.zpoly(S.num)/S.k)
                st2 = None
                for k in (10, 1):
                    d2 = c.sub(f if sg > 0 else c.neg(f), c.const(Fraction(repr(tol))*k))
                    st2, m2 = P.query([(d2, 2)], extra=ex2, model=True, timeout=opts.get('ctimeout', 8000)//2)
                    if st2 == 'sat': return st2, m2, []
                if st2 == 'unsat': continue
            return st, m, []
    return 'unsat'

def candidates(P, E, m, label, res, replay, opts, job, note=''):
    """The goal is not proved: look for a concrete counterexample that the real code reproduces."""
    tried = []
    def attempt(ins, how):
        fails = replay(ins)
        if fails:
            f = next((f for f in fails if f[0] == label), fails[0])
            res.viol.append(dict(label=f[0], msg=f[1], inputs=ins, how=how, note=note)); return True
        return False
    if m is not None:
        ins = dict(E.used); ins.update(input_seeds(E, P, m))
        if attempt(ins, 'solver model'): return
    # ground instances: the solver problem with every input fixed (shadow of this path first)
    if attempt(dict(E.used), 'path witness'): return
    base = dict(E.used)
    n = opts.get('ground', 12)
    for i in range(n):
        ins = dict(base)
        r = random.Random(f'{label}{i}{opts.get("seed", 1)}')
        if m is not None and i % 2:
            ins.update(input_seeds(E, P, m))
        for kk in list(ins):
            if kk == 'eps': continue
            if m is None or r.random() < 0.5:
                v = E.varof.get(kk)
                w = 10.0**r.choice([-6, -3, -1, 0, 0])
                x = ins[kk] + w*r.uniform(-1, 1)
                if v is not None and v.lo is not None: x = max(x, float(v.lo))
                if v is not None and v.hi is not None: x = min(x, float(v.hi))
                ins[kk] = x
        if attempt(ins, 'ground instance'): return
    for i in range(4):
        if attempt({}, 'ground instance') : return
        break
    if os.environ.get('SYMX_DEBUG'):
        print('-- inconclusive', label, note[:200], file=sys.stderr)
        for f, p in P.facts: print('   fact', (P.c.str(f)[:300], CMPN[p]) if isinstance(f, Frac) else str(f)[:200], file=sys.stderr)
        for v in P.c.vars: print('   var', v.name, v.kind, v.lo, v.hi, 'rule', P.c.str(v.rhs)[:100] if v.rhs is not None else None, 'info', P.c.str(v.info)[:100] if isinstance(v.info, Frac) else '', file=sys.stderr)
    res.incon.append((label, note[:600]))
