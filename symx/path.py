"""Normal forms of DAG nodes along one path, path condition, and solver queries."""
import math, time
from fractions import Fraction
import z3
from .alg import *

OPS = ['CONST','INPUT','ADD','SUB','MUL','DIV','NEG','SQRT','SIN','COS','TAN','ASIN','ACOS','ATAN','ATAN2','ABS','FMOD','POW','EXP','LOG','FLOOR','CEIL','TRUNC','RINT','ROUND','COPYSIGN','SINH','COSH','TANH','CBRT','ITE']
OPN = {n: i for i, n in enumerate(OPS)}

class NonDiff(Exception): pass
class Undefined(Exception): pass

def ideal(c):
    """The real number a double constant stands for: (kind, Fraction) with kind 'q' or 'pi'."""
    if c == int(c) and abs(c) < 2**53: return 'q', Fraction(int(c))
    r = repr(c)
    digs = r.replace('-', '').replace('.', '').split('e')[0].strip('0')
    if len(digs) <= 9: return 'q', Fraction(r)
    f = Fraction(c).limit_denominator(5040)
    if f and abs(float(f) - c) <= 2.3e-16*abs(c): return 'q', f
    for k in (1, 2, -1, -2):
        pk = math.pi**k
        f = Fraction(c/pk).limit_denominator(360)
        if f and abs(f) < 10000 and abs(float(f)*pk - c) <= (3e-16 if k == 1 else 6e-16)*abs(c): return k, f
    # scaled rationals (1e-5/6 ...)
    if abs(c) < 1e-3 or abs(c) > 1e4:
        e = math.floor(math.log10(abs(c)))
        m = c/10.0**e
        f = Fraction(m).limit_denominator(720)
        if f and abs(float(f) - m) <= 3e-16*abs(m): return 'q', f*Fraction(10)**e
    return 'x', Fraction(c)

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unsat = 0; s.sat = 0; s.unknown = 0; s.nf = 0
    def d(s): return dict(queries=s.queries, solver_s=round(s.time, 3), unsat=s.unsat, sat=s.sat, unknown=s.unknown)

CMPN = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!='}
NEGP = {1: 6, 2: 5, 3: 4, 4: 3, 5: 2, 6: 1}

def v_frac(v): return v.rhs

class Rebase(BaseException):
    """a finer fraction of an angle occurs than the sine/cosine atoms cover: the path is encoded again with finer atoms"""
    def __init__(s, name, mult): s.name = name; s.mult = mult

class Path:
    """One execution path: algebra context + facts + NF cache."""
    def __init__(s, stats=None, qtimeout=4000):
        s.c = Ctx(); s.nf = {}; s.inputs = {}     # input id -> Frac
        s.facts = []                              # (Frac, pred) meaning Frac pred 0
        s.zfacts = None
        s.angles = {}                             # monomial -> [D, cosFrac, sinFrac]
        s.fangles = []                            # non-monomial arguments: (Frac, cos, sin)
        s.atoms = {}                              # kind -> list of (args, Frac)
        s.stats = stats or Stats()
        s.qtimeout = qtimeout
        s.pi = None; s.rebase = True
        s.zv = {}
        s.extra = []                              # extra z3 constraints
        s.trig = []                               # (theta Frac, cvar, svar)
        s.divs = {}                               # angle name -> refinement of its atoms
        s.signcache = {}
        s.signq = 0
        s.inexact = 0
    # ------------------------------------------------------------ variables
    def pivar(s):
        if s.pi is None:
            s.pi = s.c.var('pi', 'pi', shadow=math.pi)
        return s.c.f(s.pi)
    def real(s, name, lo=None, hi=None, shadow=0.0, kind='input'):
        v = s.c.var(name, kind, shadow=shadow); v.lo = lo; v.hi = hi
        return v
    def angle(s, v, div=1):
        """register sin/cos atoms of v/div"""
        c = s.c
        div = div*s.divs.get(v.name, 1)
        cv = c.var(f'cos({v.name}/{div})' if div != 1 else f'cos({v.name})', 'cos', shadow=math.cos(v.shadow/div))
        sv = c.var(f'sin({v.name}/{div})' if div != 1 else f'sin({v.name})', 'sin', shadow=math.sin(v.shadow/div))
        cv.lo, cv.hi, sv.lo, sv.hi = -1, 1, -1, 1
        c.rule(sv, c.sub(c.const(1), Frac({c.mono(cv, 2): 1})))
        s.angles[c.mono(v)] = [div, c.f(cv), c.f(sv)]
        s.trig.append((c.mul(c.f(v), c.const(Fraction(1, div))), cv, sv))
        return cv, sv
    # ------------------------------------------------------------ node -> NF
    def load(s, ops, a, b, val):
        s.op, s.a, s.b, s.val = ops, a, b, val
    def node(s, n):
        r = s.nf.get(n)
        if r is not None: return r
        st = [n]
        nf = s.nf
        while st:
            x = st[-1]
            if x in nf: st.pop(); continue
            o = s.op[x]
            if o <= 1: nf[x] = s._leaf(x, o); st.pop(); continue
            ch = (s.a[x], s.b[x]) if o in (2, 3, 4, 5, 14, 16, 17) else (s.a[x],)
            miss = [y for y in ch if y not in nf]
            if miss: st.extend(miss); continue
            nf[x] = s._apply(x, o, [nf[y] for y in ch]); st.pop()
        return nf[n]
    def _leaf(s, x, o):
        if o == 1: return s.inputs[int(s.a[x])]
        return s.constant(float(s.val[x]))
    def constant(s, v):
        if math.isnan(v) or math.isinf(v): raise Undefined(f'constant {v}')
        k, q = ideal(v)
        if isinstance(k, int):
            r = s.c.const(q)
            for _ in range(abs(k)): r = s.c.mul(r, s.pivar()) if k > 0 else s.c.div(r, s.pivar())
            return r
        if k == 'x': s.inexact += 1
        return s.c.const(q)
    def _apply(s, x, o, args):
        c = s.c
        if o == 2: return c.add(*args)
        if o == 3: return c.sub(*args)
        if o == 4: return c.mul(*args)
        if o == 5:
            if not args[1].num: raise Undefined('division by zero')
            return c.div(*args)
        if o == 6: return c.neg(args[0])
        if o == 7: return s.sqrt(args[0])
        if o == 8: return s.sincos(args[0])[0]
        if o == 9: return s.sincos(args[0])[1]
        if o == 10:
            si, co = s.sincos(args[0]); return c.div(si, co)
        if o == 12: return s.acos(args[0])
        if o == 14: return s.atan2(*args)
        if o == 13: return s.atan2(args[0], c.const(1))
        if o == 16: return s.fmod(*args)
        if o in (20, 21, 22, 23, 24): return s.rounding(OPS[o], args[0])
        return s.generic(OPS[o], args)
    def squared(s, f, p):
        """a comparison of one square root with a non-negative constant, squared: (Frac, pred) or None"""
        c = s.c
        if f.den or len(f.num) > 2: return None
        c0 = Fraction(f.num.get(0, 0), f.k); v = None
        for m, cf in f.num.items():
            if m:
                if v is not None: return None
                v = m; mm = m; i = 0; hs = False
                while mm:
                    if mm & VM:
                        w = c.vars[i]
                        if w.lo is None or w.lo < 0: return None
                        if w.kind in ('sqrt', 'abs'): hs = True
                    mm >>= BITS; i += 1
                if not hs: return None
                a = Fraction(cf, f.k)
        if v is None: return None
        # a v + c0 p 0   ->  v p' t
        t = -c0/a
        if a < 0: p = {1: 1, 6: 6, 2: 4, 4: 2, 3: 5, 5: 3}[p]
        if t < 0: return None
        M = Frac({v: 1})
        return c.sub(c.mul(M, M), c.const(t*t)), p
    def relax(s, conds, B=None):
        """linear relaxation: every monomial an independent variable within its interval; True when unsatisfiable"""
        c = s.c
        B = B or s.vbounds()
        zs = []; mons = {}
        def lin(f, p):
            num = f.num if p in (1, 6) else s.signed(f)
            ts = []
            for m, cf in num.items():
                if m == 0: ts.append(z3.RealVal(cf)); continue
                x = mons.get(m)
                if x is None: x = mons[m] = z3.Real(f'm{len(mons)}')
                ts.append(z3.RealVal(cf)*x)
            e = z3.Sum(ts) if ts else z3.RealVal(0)
            return {1: e == 0, 2: e > 0, 3: e >= 0, 4: e < 0, 5: e <= 0, 6: e != 0}[p]
        for f, p in conds: zs.append(lin(f, p))
        for f, p in s.facts:
            if isinstance(f, Frac) and len(f.num) <= 40: zs.append(lin(f, p))
        for m, x in mons.items():
            lo = hi = Fraction(1); mm = m; i = 0; ok = True
            while mm:
                e = mm & VM
                if e:
                    l, h = B.get(i, [None, None])
                    if l is None or h is None:
                        if l is not None and l >= 0 or e % 2 == 0: lo2, hi2 = (l**e if l is not None and l >= 0 else Fraction(0)), None
                        else: ok = False; break
                    elif e % 2 == 0 and l < 0 < h: lo2, hi2 = Fraction(0), max(-l, h)**e
                    else: lo2, hi2 = sorted((l**e, h**e))
                    if hi2 is None or hi is None: lo, hi = (Fraction(0) if lo >= 0 else None), None
                    else:
                        cs = [lo*lo2, lo*hi2, hi*lo2, hi*hi2]; lo, hi = min(cs), max(cs)
                    if lo is None: ok = False; break
                mm >>= BITS; i += 1
            if not ok: continue
            if lo is not None: zs.append(x >= z3.Q(lo.numerator, lo.denominator))
            if hi is not None: zs.append(x <= z3.Q(hi.numerator, hi.denominator))
        sol = z3.SolverFor('QF_LRA'); sol.set('timeout', 3000); sol.add(*zs)
        t0 = time.time(); st = str(sol.check())
        s.stats.queries += 1; s.stats.time += time.time()-t0
        setattr(s.stats, st, getattr(s.stats, st)+1)
        return st == 'unsat'
    def sos(s, n):
        """nodes x with n = sum x*x (+ non-negative constants), or None"""
        out = []; st = [n]
        while st:
            x = st.pop(); o = s.op[x]
            if o == 2: st += [s.a[x], s.b[x]]
            elif o == 4 and s.a[x] == s.b[x]: out.append(int(s.a[x]))
            elif o == 0 and float(s.val[x]) >= 0: pass
            else: return None
            if len(out) > 200: return None
        return out
    def norm_bound(s, na, nb, p):
        """the comparison na p nb holds; if it says sqrt(sum x_i^2) <= c, every |x_i| <= c"""
        if p in (2, 3): na, nb, p = nb, na, {2: 4, 3: 5}[p]
        if p not in (4, 5) or s.op[nb] != 0: return
        if s.op[na] != 7: return
        xs = s.sos(s.a[na])
        if not xs: return
        cb = s.node(nb)
        for x in xs:
            f = s.split(s.node(x))[0]
            if s.c.is_const(f): continue
            s.facts.append((s.c.sub(f, cb), 5)); s.facts.append((s.c.add(f, cb), 3))
    def addfact(s, f, p):
        s.facts.append((f, p))
        g = s.squared(f, p)
        if g: s.facts.append(g)
        # sqrt(A) op sqrt(B)  =>  A op B
        if len(f.num) == 2:
            (m1, c1), (m2, c2) = f.num.items()
            if c1 == -c2:
                vs = []
                for m in (m1, m2):
                    v = s.c.vars[(m.bit_length()-1)//BITS] if m else None
                    if v is None or v.kind != 'sqrt' or m != s.c.mono(v) or v.rhs.den: return
                    vs.append(v)
                d = s.c.sub(v_frac(vs[0]), v_frac(vs[1]))
                if c1 < 0: d = s.c.neg(d)
                if all((s.c.vars[(s.c.factors[fid].__iter__().__next__().bit_length()-1)//BITS].lo or -1) >= 0 and len(s.c.factors[fid]) == 1 or e % 2 == 0 or s.sign(Frac(s.c.factors[fid])) == 1 for fid, e in f.den):
                    s.facts.append((d, p))
                    # d = +- monomial with one factor of unknown sign
    # ---- helper: find an atom of the same kind with equal arguments
    def lookup(s, kind, args):
        sh = [s.c.evalf(a) for a in args]
        for (ar, shv, val) in s.atoms.get(kind, ()):
            if all(abs(x-y) <= 1e-6*(1+abs(x)) for x, y in zip(sh, shv)) and all(s.c.eq(p, q) for p, q in zip(ar, args)):
                return val
        return None
    def remember(s, kind, args, val):
        s.atoms.setdefault(kind, []).append((args, [s.c.evalf(a) for a in args], val))
        return val
    def split(s, f):
        """(f0, f1) of f0 + eps f1, f1 None when absent"""
        if s.c.eps is None: return f, None
        f0, f1 = s.c.eps_split(f)
        if not f1.num: return f, None
        return f0, f1
    def eps(s, f1): return s.c.mul(f1, s.c.f(s.c.eps))
    def generic(s, kind, args):
        for a in args:
            if s.split(a)[1] is not None: raise NonDiff(kind)
        r = s.lookup(kind, args)
        if r is not None: return r
        sh = [s.c.evalf(a) for a in args]
        fn = {'EXP': math.exp, 'LOG': math.log, 'POW': math.pow, 'ASIN': math.asin, 'SINH': math.sinh, 'COSH': math.cosh, 'TANH': math.tanh}.get(kind)
        try: val = fn(*sh)
        except Exception: val = 0.5
        v = s.c.var(f'{kind.lower()}#{len(s.c.vars)}', 'func', (kind, args), val)
        if kind == 'EXP': v.lo = 0
        return s.remember(kind, args, s.c.f(v))
    def fmod(s, x, m):
        r = s.lookup('FMOD', [x, m])
        if r is not None: return r
        c = s.c
        q = c.evalf(x)/c.evalf(m)
        v = c.var(f'trunc#{len(c.vars)}', 'trunc', ('trunc', c.div(x, m)), float(math.trunc(q) if q == q else 0)); v.integer = True
        s.zfacts = None
        return s.remember('FMOD', [x, m], c.sub(x, c.mul(m, c.f(v))))
    def rounding(s, kind, x):
        r = s.lookup(kind, [x])
        if r is not None: return r
        c = s.c
        if c.is_const(x):
            q = c.cval(x)
            f = {'FLOOR': math.floor, 'CEIL': math.ceil, 'TRUNC': math.trunc}.get(kind, round)
            return c.const(f(q))
        xv = c.evalf(x)
        f = {'FLOOR': math.floor, 'CEIL': math.ceil, 'TRUNC': math.trunc}.get(kind, round)
        v = c.var(f'{kind.lower()}#{len(c.vars)}', kind.lower(), (kind.lower(), x), float(f(xv) if xv == xv else 0)); v.integer = True
        s.zfacts = None
        return s.remember(kind, [x], c.f(v))
    # ---- square roots
    def sqrt(s, f):
        c = s.c
        f0, f1 = s.split(f)
        if f1 is not None:
            if not f0.num: raise NonDiff('sqrt at 0')
            r0 = s.sqrt(f0)
            return c.add(r0, s.eps(c.div(f1, c.mul(c.const(2), r0))))
        if not f.num: return f
        r = s.lookup('SQRT', [f])
        if r is not None: return r
        return s.remember('SQRT', [f], s._sqrt(f))
    def _sqrt(s, f):
        c = s.c
        # f = N / (k^2 prod f_i^(2 ceil))
        N = p_scale(f.num, f.k); outk = f.k
        outden = c.const(1)
        for fid, e in f.den:
            fp = Frac(c.factors[fid])
            if e % 2:
                N2, kk = c.reduce(p_mulraw(N, c.factors[fid]), 1)
                if kk != 1: N2 = p_scale(N2, kk); outk *= kk
                N = N2; e += 1
            a = s.absval(fp)
            for _ in range(e//2): outden = c.mul(outden, a)
        root = s._sqrt_poly(N)
        return c.div(c.mul(root, c.const(Fraction(1, outk))), outden)
    def _sqrt_poly(s, N):
        c = s.c
        cont = content(N)
        lead = N[max(N)]
        prim = {m: v//cont for m, v in N.items()}
        mb = max(abs(v).bit_length() for v in prim.values())
        if mb > 1500: raise Budget(f'square root with coefficients of {mb} bits')
        # content square part
        sq, rest = sqpart(cont)
        out = c.const(sq)
        if prim == {0: 1}:
            if rest == 1: return out
            return c.mul(out, s._sqrt_atom({0: rest}))
        # monomial squares
        mc = c.mincontent(prim)
        if mc:
            i = 0; mm = mc; take = 0
            while mm:
                e = mm & VM
                if e >= 2:
                    a = s.absval(c.f(c.vars[i]))
                    for _ in range(e//2): out = c.mul(out, a)
                    take |= (e - e % 2) << (i*BITS)
                mm >>= BITS; i += 1
            if take: prim = {m - take: v for m, v in prim.items()}
        if len(prim) > 1:
            r = s._rulematch(prim)
            if r is not None:
                pass
            elif len(prim) <= 400:
                facs = s._factor(prim)
                if facs:
                    odd = {0: 1}
                    for fp, e in facs:
                        if e >= 2:
                            a = s.absval(Frac(fp))
                            for _ in range(e//2): out = c.mul(out, a)
                        if e % 2: odd = p_mulraw(odd, fp)
                    # sign/content bookkeeping: prim = sgn*prod fp^e
                    tot = {0: 1}
                    for fp, e in facs:
                        for _ in range(e): tot = p_mulraw(tot, fp)
                    if tot == prim: prim = odd
                    elif tot == p_neg(prim): prim = p_neg(odd)
                    else: raise Budget('factorisation mismatch')
        g = p_scale(prim, rest)
        if set(g) == {0}:
            q, rr = sqpart(g[0]) if g[0] > 0 else (1, g[0])
            out = c.mul(out, c.const(q))
            if rr == 1: return out
            return c.mul(out, s._sqrt_atom({0: rr}))
        return c.mul(out, s._sqrt_atom(g))
    def _rulematch(s, p):
        """variable v with v^2 -> rhs proportional to p: returns (v, ratio) with p = ratio * v^2"""
        c = s.c
        for v in c.vars:
            if v.power == 2 and v.rhs is not None and v.rhs.num and not v.rhs.den and len(v.rhs.num) == len(p):
                pr, cr = c.prim(v.rhs.num)
                pp, cp = c.prim(p)
                if pr == pp: return v, Fraction(cp*v.rhs.k, cr)
        return None
    def _sqrt_atom(s, g):
        """sqrt of a square-free polynomial g: reuse atoms, else a new one"""
        c = s.c
        if set(g) == {0} and g[0] > 1:      # constants: one atom per prime
            ps = primes(g[0])
            if len(ps) > 1:
                out = c.const(1)
                for q in ps: out = c.mul(out, s._sqrt_atom({0: q}))
                return out
            for v in c.vars:
                if v.power == 2 and v.rhs is not None and not v.rhs.den and v.kind == 'sqrt' and v.rhs.num == {0: g[0]} and v.rhs.k == 1: return c.f(v)
            v = c.var(f'sqrt#{len(c.vars)}', 'sqrt', Frac(g), math.sqrt(g[0])); v.lo = 0; c.rule(v, Frac(g)); s.zfacts = None
            return c.f(v)
        r = s._rulematch(g)
        if r is not None and r[1] > 0:
            v, q = r
            a = s.absval(c.f(v))
            n, d = q.numerator, q.denominator
            sq, rest = sqpart(n*d)
            t = c.mul(a, c.const(Fraction(sq, d)))
            if rest != 1: t = c.mul(t, s._sqrt_atom({0: rest}))
            return t
        # partial match: a rule right-hand side divides g
        if len(g) > 1:
            for v in list(c.vars):
                if v.power == 2 and v.rhs is not None and v.rhs.num and not v.rhs.den and 1 < len(v.rhs.num) < len(g):
                    pr, cr = c.prim(v.rhs.num)
                    q = c.divexact(g, pr)
                    if q is not None:
                        # g = pr*q = v^2 * (k/cr) * q
                        k = Fraction(v.rhs.k, cr)
                        n, d = k.numerator, k.denominator
                        if n < 0: q = p_neg(q); n = -n
                        a = s.absval(c.f(v))
                        return c.mul(a, s._sqrt(Frac(p_scale(q, n), d)))
        sh = c.evalp(g, [v.shadow for v in c.vars])
        v = c.var(f'sqrt#{len(c.vars)}', 'sqrt', Frac(g), math.sqrt(sh) if sh > 0 else 0.0)
        v.lo = 0
        c.rule(v, Frac(g))
        s.zfacts = None
        return c.f(v)
    def _factor(s, p):
        import sympy
        c = s.c
        vs = sorted(c.varset(Frac(p)))
        syms = [sympy.Symbol(f'x{i}') for i in vs]
        d = {}
        for m, cf in p.items():
            d[tuple((m >> (i*BITS)) & VM for i in vs)] = cf
        pol = sympy.Poly(d, *syms, domain='ZZ')
        if len(p) > 60:
            sl = pol.sqf_list()
        else:
            sl = pol.factor_list()
        out = []
        if abs(sl[0]) != 1: return None
        for f, e in sl[1]:
            q = {}
            for ex, cf in f.terms():
                q[sum(int(x) << (i*BITS) for x, i in zip(ex, vs))] = int(cf)
            out.append((q, e))
        return out
    # ---- signs
    def absval(s, f):
        c = s.c
        sg = s.sign(f)
        if sg == 1: return f
        if sg == -1: return c.neg(f)
        r = s.lookup('ABS', [f])
        if r is not None: return r
        v = c.var(f'abs#{len(c.vars)}', 'abs', f, abs(c.evalf(f))); v.lo = 0
        c.rule(v, c.mul(f, f)) if not f.den else None
        s.zfacts = None
        return s.remember('ABS', [f], c.f(v))
    def sign(s, f):
        """1 if f >= 0 on the path, -1 if f <= 0, else 0"""
        c = s.c
        if not f.num: return 1
        if c.is_const(f): return 1 if c.cval(f) >= 0 else -1
        if len(f.num) == 1 and not f.den:
            (m, cf), = f.num.items()
            sg = 1 if cf > 0 else -1; ok = True; i = 0
            while m:
                e = m & VM
                if e % 2:
                    v = c.vars[i]
                    if v.lo is not None and v.lo >= 0: pass
                    elif v.hi is not None and v.hi <= 0: sg = -sg
                    else: ok = False; break
                m >>= BITS; i += 1
            if ok: return sg
        key = (tuple(sorted(f.num.items())), f.den, len(s.facts))
        r = s.signcache.get(key)
        if r is not None: return r
        if s.signq > 60: return 0
        sh = c.evalf(f)
        order = [1, -1] if not sh < 0 else [-1, 1]
        res = 0
        s.signq += 1
        for sg in order:
            st, _ = s.query([(f, 4 if sg == 1 else 2)], timeout=1500)
            if st == 'unsat': res = sg; break
            if st == 'unknown' : break
        s.signcache[key] = res
        return res
    # ---- angles
    def sincos(s, f):
        c = s.c
        f0, f1 = s.split(f)
        if f1 is not None:
            si, co = s.sincos(f0)
            return c.add(si, s.eps(c.mul(f1, co))), c.sub(co, s.eps(c.mul(f1, si)))
        if not f.num: return c.const(0), c.const(1)
        if f.den: return s._sincos_atom(f)
        S, C = c.const(0), c.const(1)
        for m, cf in sorted(f.num.items()):
            q = Fraction(cf, f.k)
            s1, c1 = s._term_sincos(m, q)
            S, C = c.add(c.mul(S, c1), c.mul(C, s1)), c.sub(c.mul(C, c1), c.mul(S, s1))
        return S, C
    def _term_sincos(s, m, q):
        c = s.c
        if s.pi is not None and m == c.mono(s.pi):
            t = q*2
            if t.denominator == 1:
                t = int(t) % 4
                return c.const((0, 1, 0, -1)[t]), c.const((1, 0, -1, 0)[t])
        if s.pi is not None and q.denominator == 1 and q.numerator % 2 == 0:
            for v in c.vars:
                if getattr(v, 'integer', False) and m == c.mono(s.pi)+c.mono(v): return c.const(0), c.const(1)    # whole turns
        r = s.angles.get(m)
        if r is None:
            D = q.denominator*s.divs.get(c.str(Frac({m: 1})), 1)
            arg = Frac({m: 1}, D)
            sh = c.evalf(arg)
            cv = c.var(f'cos({c.str(arg)})', 'cos', shadow=math.cos(sh)); sv = c.var(f'sin({c.str(arg)})', 'sin', shadow=math.sin(sh))
            cv.lo, cv.hi, sv.lo, sv.hi = -1, 1, -1, 1
            c.rule(sv, c.sub(c.const(1), Frac({c.mono(cv, 2): 1})))
            r = s.angles[m] = [D, c.f(cv), c.f(sv)]
            s.trig.append((arg, cv, sv)); s.zfacts = None
        D, cf, sf = r
        n = q*D
        if 1 < n.denominator <= 4 and s.rebase:
            nm = c.str(Frac({m: 1})); old = s.divs.get(nm, 1)
            if old*n.denominator <= 6 and len(cf.num) == 1 and not cf.den and c.vars[(next(iter(cf.num)).bit_length()-1)//BITS].kind == 'cos': raise Rebase(nm, old*n.denominator)
        if n.denominator != 1 or abs(n) > 12: return s._sincos_atom(Frac({m: q.numerator}, q.denominator))
        n = int(n); sg = 1
        if n < 0: n, sg = -n, -1
        S, C = c.const(0), c.const(1)
        for _ in range(n): S, C = c.add(c.mul(S, cf), c.mul(C, sf)), c.sub(c.mul(C, cf), c.mul(S, sf))
        return (S if sg > 0 else c.neg(S)), C
    def _sincos_atom(s, f):
        c = s.c
        for g, si, co in s.fangles:
            if c.eq(f, g): return si, co
            if c.eq(f, c.neg(g)): return c.neg(si), co
        sh = c.evalf(f)
        n = len(c.vars)
        cv = c.var(f'cos#{n}', 'cos', f, math.cos(sh)); sv = c.var(f'sin#{n}', 'sin', f, math.sin(sh))
        cv.lo, cv.hi, sv.lo, sv.hi = -1, 1, -1, 1
        c.rule(sv, c.sub(c.const(1), Frac({c.mono(cv, 2): 1})))
        s.trig.append((f, cv, sv)); s.zfacts = None
        s.fangles.append((f, c.f(sv), c.f(cv)))
        return c.f(sv), c.f(cv)
    def _vrange(s, f):
        """known interval of q*v (single variable)"""
        c = s.c
        if len(f.num) == 1 and not f.den:
            (m, cf), = f.num.items()
            for v in c.vars:
                if c.mono(v) == m:
                    q = Fraction(cf, f.k)
                    lo = None if v.lo is None else v.lo*q; hi = None if v.hi is None else v.hi*q
                    return (lo, hi) if q > 0 else (hi, lo)
        return None, None
    def within(s, f, lo, hi, strict=False):
        """is lo <= f <= hi implied (lo, hi in multiples of pi)?"""
        c = s.c
        P = s.pivar()
        if lo is not None:
            st, _ = s.query([(c.sub(f, c.mul(P, c.const(lo))), 5 if strict else 4)], timeout=1500)
            if st != 'unsat': return False
        if hi is not None:
            st, _ = s.query([(c.sub(f, c.mul(P, c.const(hi))), 2)], timeout=1500)
            if st != 'unsat': return False
        return True
    def acos(s, f):
        c = s.c
        f0, f1 = s.split(f)
        if f1 is not None:
            den = s.sqrt(c.sub(c.const(1), c.mul(f0, f0)))
            if not den.num: raise NonDiff('acos at +-1')
            return c.sub(s.acos(f0), s.eps(c.div(f1, den)))
        if c.is_const(f):
            q = c.cval(f)
            tab = {Fraction(1): 0, Fraction(0): Fraction(1, 2), Fraction(-1): 1, Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
            if q in tab: return c.mul(s.pivar(), c.const(tab[q])) if tab[q] else c.const(0)
        r = s.lookup('ACOS', [f])
        if r is not None: return r
        for m, (D, co, si) in list(s.angles.items()):
            for n in ([1] if D == 1 else [1, D]):
                a = Frac({m: n}, D)
                cn = s.sincos(a)[1]
                if c.eq(f, cn):
                    if s.within(a, 0, 1): return s.remember('ACOS', [f], a)
                    if s.within(c.neg(a), 0, 1): return s.remember('ACOS', [f], c.neg(a))
                if c.eq(f, c.neg(cn)) and s.within(a, 0, 1):
                    return s.remember('ACOS', [f], c.sub(s.pivar(), a))
        sh = c.evalf(f)
        v = c.var(f'acos#{len(c.vars)}', 'acos', f, math.acos(max(-1, min(1, sh))) if sh == sh else 1.0)
        v.lo = 0; v.hi = Fraction(31416, 10000)
        sv = s.sqrt(c.sub(c.const(1), c.mul(f, f)))
        s.angles[c.mono(v)] = [1, f, sv]
        s.trig.append((c.f(v), f, sv)); s.zfacts = None
        return s.remember('ACOS', [f], c.f(v))
    def atan2(s, y, x):
        c = s.c
        y0, y1 = s.split(y); x0, x1 = s.split(x)
        if y1 is not None or x1 is not None:
            y1 = y1 or c.const(0); x1 = x1 or c.const(0)
            r2 = c.add(c.mul(x0, x0), c.mul(y0, y0))
            if not r2.num: raise NonDiff('atan2 at 0')
            return c.add(s.atan2(y0, x0), s.eps(c.div(c.sub(c.mul(x0, y1), c.mul(y0, x1)), r2)))
        r = s.lookup('ATAN2', [y, x])
        if r is not None: return r
        if not y.num and c.is_const(x) and c.cval(x) > 0: return c.const(0)
        if not y.num and s.sign(x) == 1: return c.const(0)
        for m, (D, co, si) in list(s.angles.items()):
            a = Frac({m: 1}, D)
            if c.is_zero(c.sub(c.mul(y, co), c.mul(x, si))):
                rr = c.add(c.mul(x, co), c.mul(y, si))
                if s.sign(rr) == 1 and s.within(a, -1, 1): return s.remember('ATAN2', [y, x], a)
        rad = s.sqrt(c.add(c.mul(x, x), c.mul(y, y)))
        v = c.var(f'atan2#{len(c.vars)}', 'atan2', (y, x), math.atan2(c.evalf(y), c.evalf(x)))
        v.lo = -Fraction(31416, 10000); v.hi = Fraction(31416, 10000)
        cf, sf = c.div(x, rad), c.div(y, rad)
        s.angles[c.mono(v)] = [1, cf, sf]
        s.trig.append((c.f(v), cf, sf)); s.zfacts = None
        return s.remember('ATAN2', [y, x], c.f(v))
    # ------------------------------------------------------------ solver
    def z(s, i):
        r = s.zv.get(i)
        if r is None:
            v = s.c.vars[i]
            r = z3.Int(f'v{i}_{v.name}') if v.integer else z3.Real(f'v{i}_{v.name}')
            if v.integer: r = z3.ToReal(r)
            s.zv[i] = r
        return r
    def zpoly(s, p, sub=None):
        ts = []
        for m, cf in p.items():
            fs = []
            i = 0
            while m:
                e = m & VM
                if e:
                    zv = s.z(i) if sub is None or i not in sub else sub[i]
                    fs.extend([zv]*e)
                m >>= BITS; i += 1
            if not fs: ts.append(z3.RealVal(cf))
            else:
                t = fs[0]
                for x in fs[1:]: t = t*x
                ts.append(t if cf == 1 else z3.RealVal(cf)*t)
        if not ts: return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def signed(s, f):
        """polynomial with the sign of f (denominator factors of odd exponent multiplied in)"""
        c = s.c
        num = f.num
        for fid, e in f.den:
            if e % 2:
                fp = c.factors[fid]
                if len(fp) == 1:
                    (m, cf), = fp.items()
                    i = (m.bit_length()-1)//BITS
                    v = c.vars[i]
                    if v.lo is not None and v.lo >= 0: continue
                num, _ = c.reduce(p_mulraw(num, fp), 1)
        return num
    def zcond(s, f, pred, sub=None):
        if pred in (1, 6): p = f.num
        else: p = s.signed(f)
        e = s.zpoly(p, sub); zero = z3.RealVal(0)
        r = {1: e == zero, 2: e > zero, 3: e >= zero, 4: e < zero, 5: e <= zero, 6: e != zero}[pred]
        # positive k does not matter; odd denominator factors must be non-zero for the sign argument
        return r
    def axioms(s, vs, level=1):
        """z3 axioms for the closure of variable indices vs; returns list"""
        c = s.c
        seen = set(); todo = list(vs); out = []
        tr = {}
        for (th, cv, sv) in s.trig:
            ids = set()
            if isinstance(cv, Var): ids |= {cv.i, sv.i}
            else: ids |= c.varset(cv) | c.varset(sv)
            tr.setdefault(None, []).append((th, cv, sv, ids))
        trl = tr.get(None, [])
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            v = c.vars[i]
            zi = s.z(i)
            if v.kind == 'pi':
                out += [zi > z3.Q(314159265358979, 10**14), zi < z3.Q(314159265358980, 10**14)]
            if v.kind == 'eps': out.append(zi == 0)
            if v.lo is not None: out.append(zi >= z3.RealVal(str(v.lo)))
            if v.hi is not None: out.append(zi <= z3.RealVal(str(v.hi)))
            if v.kind in ('acos', 'atan2'):
                out.append(zi <= s.z(s._pii())); todo.append(s._pii())
                if v.kind == 'atan2': out.append(zi >= -s.z(s._pii()))
            if v.rhs is not None and v.kind != 'eps':
                t = zi
                for _ in range(v.power-1): t = t*zi
                out.append(z3.RealVal(v.rhs.k)*t == s.zpoly(v.rhs.num))
                todo += list(c.varset(v.rhs))
            if v.kind in ('trunc', 'floor', 'ceil', 'rint', 'round'):
                kind, x = v.info
                todo += list(c.varset(x))
                d = c.sub(x, c.f(v))
                if kind == 'floor': out += [s.zcond(d, 3), s.zcond(c.sub(d, c.const(1)), 4)]
                elif kind == 'ceil': out += [s.zcond(d, 5), s.zcond(c.add(d, c.const(1)), 2)]
                elif kind == 'trunc':
                    out.append(z3.Or(z3.And(s.zcond(x, 3), s.zcond(d, 3), s.zcond(c.sub(d, c.const(1)), 4)), z3.And(s.zcond(x, 5), s.zcond(d, 5), s.zcond(c.add(d, c.const(1)), 2))))
                else: out += [s.zcond(c.sub(d, c.const(Fraction(1, 2))), 5), s.zcond(c.add(d, c.const(Fraction(1, 2))), 3)]
            if v.kind in ('cos', 'sin') and isinstance(v.info, Frac): pass
            for (th, cv, sv, ids) in trl:
                if i in ids: todo += [j for j in ids]
        if level >= 1:
            for (th, cv, sv, ids) in trl:
                tv = c.varset(th)
                if tv <= seen and ids & seen and not th.den:
                    C = c.f(cv) if isinstance(cv, Var) else cv
                    S = c.f(sv) if isinstance(sv, Var) else sv
                    if C.den or S.den: continue
                    if not (c.varset(C) | c.varset(S)) <= seen: continue
                    out += s.trigaxioms(s.zpoly(th.num)/th.k, s.zpoly(C.num)/C.k, s.zpoly(S.num)/S.k, s.z(s._pii()))
                    if s._pii() not in seen:
                        seen.add(s._pii()); zi = s.z(s._pii())
                        out += [zi > z3.Q(314159265358979, 10**14), zi < z3.Q(314159265358980, 10**14)]
        return out, seen
    def _pii(s):
        s.pivar(); return s.pi.i
    def trigaxioms(s, t, co, si, pi):
        q = lambda a, b: z3.Q(a, b)
        hp = pi/2
        out = [z3.Implies(z3.And(t >= 0, t <= pi), si >= 0), z3.Implies(z3.And(t > 0, t < pi), si > 0), z3.Implies(z3.And(t <= 0, t >= -pi), si <= 0),
               z3.Implies(z3.And(t < 0, t > -pi), si < 0),
               z3.Implies(t == 0, z3.And(co == 1, si == 0)), z3.Implies(t == pi, z3.And(co == -1, si == 0)),
               z3.Implies(z3.And(t > -hp, t < hp), co > 0), z3.Implies(z3.And(t > hp, t <= pi), co < 0), z3.Implies(z3.And(t < -hp, t >= -pi), co < 0),
               z3.Implies(t == hp, z3.And(co == 0, si == 1)),
               z3.Implies(z3.And(t != 0, t > -pi - pi, t < pi + pi), co < 1),
               z3.Implies(z3.And(t > -pi, t < pi), co > -1),
               co >= 1 - t*t/2, z3.Implies(t >= 0, si <= t), z3.Implies(t <= 0, si >= t)]
        return out
    def trigfine(s, t, co, si):
        t2 = t*t
        return [co <= 1 - t2/2 + t2*t2/24, co >= 1 - t2/2 + t2*t2/24 - t2*t2*t2/720,
                z3.Implies(t >= 0, z3.And(si >= t - t2*t/6, si <= t - t2*t/6 + t2*t2*t/120)),
                z3.Implies(t <= 0, z3.And(si <= t - t2*t/6, si >= t - t2*t/6 + t2*t2*t/120))]
    def query(s, conds, timeout=None, upto=None, facts=True, level=1, extra=(), sub=None, model=False, hint_only=False):
        """Is path and conds satisfiable?  conds: list of (Frac, pred) or z3 expressions. Returns (status, model)"""
        c = s.c
        t0 = time.time()
        st, mdl = None, None
        zs = []; vs = set()
        fl = s.facts if upto is None else s.facts[:upto]
        for cd in conds:
            if isinstance(cd, tuple) and len(cd) == 2 and isinstance(cd[0], Frac):
                f, p = cd
                if c.is_const(f):
                    v = c.cval(f)
                    ok = {1: v == 0, 2: v > 0, 3: v >= 0, 4: v < 0, 5: v <= 0, 6: v != 0}[p]
                    if not ok: st = 'unsat'
                    continue
                zs.append(s.zcond(f, p, sub)); vs |= c.varset(f)
            elif isinstance(cd, tuple):
                zs.append(cd[0]); vs |= set(cd[1])
            else: zs.append(cd)
        s.stats.queries += 1
        if st == 'unsat':
            # ground query, decided by evaluation inside the solver too
            s.stats.unsat += 1
            return 'unsat', None
        fc = [(f, p) for f, p in [cd for cd in conds if isinstance(cd, tuple) and len(cd) == 2 and isinstance(cd[0], Frac)]]
        if facts is True and upto is None and len(fc) == len(conds) and any(len(f.num) > 6 for f, p in fc + [q for q in [s.squared(f, p) for f, p in fc] if q]):
            fc = fc + [q for q in [s.squared(f, p) for f, p in fc] if q]
            if s.relax(fc): return 'unsat', None
        if facts == True and len(fl) > 3 and not hint_only:
            # first the facts that are small and share variables with the goal: unsat from a subset is unsat
            small = [(f, p) for f, p in fl if isinstance(f, Frac) and not f.den and len(f.num) <= 3]
            if small and len(small) < len(fl):
                st1, _ = s.query(conds, timeout=400, facts=small, level=level, extra=extra, sub=sub)
                if st1 == 'unsat': return 'unsat', None
        if facts:
            for f, p in (fl if facts is True else facts):
                if isinstance(f, Frac): zs.append(s.zcond(f, p, sub)); vs |= c.varset(f)
                else: zs.append(f); vs |= set(p)
        if model: s.touched = s.axioms(set(vs), level)[1]     # variables that the conditions constrain; the others keep their values
        for v in c.vars:   # all inputs with ranges
            if v.kind == 'input' and model: vs.add(v.i)
        ax, seen = s.axioms(vs, level)
        zs += ax
        for e, ev in s.extra:
            zs.append(e)
        zs += list(extra)
        if sub: zs = [z3.substitute(e, *[(s.z(i), v) for i, v in sub.items()]) for e in zs]
        hasint = any(c.vars[i].integer for i in seen)
        sol = z3.Solver() if hasint else z3.SolverFor('QF_NRA')
        sol.set('timeout', int(timeout or s.qtimeout))
        for e in zs: sol.add(e)
        try: r = sol.check()
        except z3.Z3Exception: r = z3.unknown
        st = str(r)
        if st == 'sat': mdl = sol.model()
        dt = time.time()-t0
        s.stats.time += dt
        setattr(s.stats, st, getattr(s.stats, st)+1)
        return st, mdl
    def vbounds(s):
        """interval of each variable: declared bounds plus single-variable linear facts"""
        c = s.c
        B = {}
        for v in c.vars:
            lo = v.lo; hi = v.hi
            if v.kind == 'pi': lo, hi = Fraction(314159, 100000), Fraction(31416, 10000)
            B[v.i] = [None if lo is None else Fraction(lo), None if hi is None else Fraction(hi)]
        for _ in range(2):
          for f, p in s.facts:
            if not isinstance(f, Frac) or f.den or len(f.num) > 3: continue
            # a*v + (linear in bounded variables) op 0
            lin = []; cst = Fraction(0); ok = True
            for m, cf in f.num.items():
                if m == 0: cst += Fraction(cf, f.k); continue
                sh = (m.bit_length()-1)//BITS
                if m != 1 << (sh*BITS): ok = False; break
                lin.append((sh, Fraction(cf, f.k)))
            if not ok or not lin: continue
            for vi, a in lin:
                # a v op -(cst + rest)
                mn = mx = cst
                for vj, b in lin:
                    if vj == vi: continue
                    lo, hi = B[vj]
                    if b > 0: l, h = lo, hi
                    else: l, h = hi, lo
                    mn = None if mn is None or l is None else mn + b*l
                    mx = None if mx is None or h is None else mx + b*h
                # a v <= -mn ... for p in (<=,<,==);   a v >= -mx for (>=,>,==)
                if p in (4, 5, 1) and mn is not None:
                    x = -mn/a
                    if a > 0: B[vi][1] = x if B[vi][1] is None else min(B[vi][1], x)
                    else: B[vi][0] = x if B[vi][0] is None else max(B[vi][0], x)
                if p in (2, 3, 1) and mx is not None:
                    x = -mx/a
                    if a > 0: B[vi][0] = x if B[vi][0] is None else max(B[vi][0], x)
                    else: B[vi][1] = x if B[vi][1] is None else min(B[vi][1], x)
        return B
    def close_by_intervals(s, f, tol):
        """try to show |f| <= tol: Taylor-substitute small trig atoms, bound every monomial, linear solver query"""
        c = s.c
        B = s.vbounds()
        sub = {}
        errs = {}
        nv0 = len(c.vars)
        for (th, cv, sv) in s.trig:
            if not isinstance(cv, Var) or th.den or len(th.num) != 1: continue
            (m, cf), = th.num.items()
            vi = (m.bit_length()-1)//BITS
            if m != 1 << (vi*BITS): continue
            lo, hi = B[vi]
            if lo is None or hi is None: continue
            b = max(abs(lo), abs(hi))*abs(Fraction(cf, th.k))
            if b > Fraction(1, 20): continue
            es = c.var(f'es#{len(c.vars)}', 'err'); ec = c.var(f'ec#{len(c.vars)}', 'err')
            B[es.i] = [-b**9/362880, b**9/362880]; B[ec.i] = [-b**8/40320, b**8/40320]
            t2 = c.mul(th, th); t3 = c.mul(t2, th); t4 = c.mul(t2, t2)
            S = c.add(c.sub(th, c.mul(t3, c.const(Fraction(1, 6)))), c.add(c.mul(c.mul(t4, th), c.const(Fraction(1, 120))), c.sub(c.f(es), c.mul(c.mul(t4, t3), c.const(Fraction(1, 5040))))))
            C = c.add(c.sub(c.const(1), c.mul(t2, c.const(Fraction(1, 2)))), c.add(c.mul(t4, c.const(Fraction(1, 24))), c.sub(c.f(ec), c.mul(c.mul(t4, t2), c.const(Fraction(1, 720))))))
            sub[sv.i] = S; sub[cv.i] = C
        den = Fraction(1)
        num = f.num
        for fid, e in f.den:
            fp = c.factors[fid]
            if len(fp) != 1: return False
            (m, cf), = fp.items()
            vi = (m.bit_length()-1)//BITS
            lo, hi = B[vi]
            if lo is not None and lo > 0: den *= lo**e
            elif hi is not None and hi < 0: den *= (-hi)**e
            else: return False
        r = c.const(0)
        if sub:
            for m, cf in num.items():
                t = c.const(cf); mm = m; i = 0; rest = 0
                while mm:
                    e = mm & VM
                    if e:
                        if i in sub:
                            for _ in range(e): t = c.mul(t, sub[i])
                        else: rest |= e << (i*BITS)
                    mm >>= BITS; i += 1
                r = c.add(r, c.mul(t, Frac({rest: 1})))
        else: r = Frac(num)
        lim = Fraction(repr(tol))*den*f.k
        terms = []
        zs = []
        for n, (m, cf) in enumerate(r.num.items()):
            b = Fraction(1); mm = m; i = 0
            while mm:
                e = mm & VM
                if e:
                    lo, hi = B.get(i, [None, None])
                    if lo is None or hi is None: return False
                    b *= max(abs(lo), abs(hi))**e
                mm >>= BITS; i += 1
            x = z3.Real(f'm{n}')
            bb = z3.Q(b.numerator, b.denominator)
            zs += [x <= bb, x >= -bb]
            terms.append(z3.Q(cf, r.k)*x)
        tot = z3.Sum(terms) if terms else z3.RealVal(0)
        L = z3.Q(lim.numerator, lim.denominator)
        sol = z3.SolverFor('QF_LRA'); sol.set('timeout', 4000)
        sol.add(*zs); sol.add(z3.Or(tot > L, tot < -L))
        t0 = time.time()
        st = str(sol.check())
        s.stats.queries += 1; s.stats.time += time.time()-t0
        setattr(s.stats, st, getattr(s.stats, st)+1)
        return st == 'unsat'
    def model_values(s, mdl):
        """input name -> float from a z3 model"""
        out = {}
        for v in s.c.vars:
            if v.i not in s.zv: continue
            zv = s.zv[v.i]
            r = mdl.eval(zv, model_completion=False)
            try:
                if z3.is_rational_value(r): out[v.name] = float(r.as_fraction())
                elif z3.is_algebraic_value(r): out[v.name] = float(r.approx(20).as_fraction())
            except Exception: pass
        return out

def primes(n):
    """square-free n: its prime factors below 5000 and the cofactor"""
    out = []; d = 2
    while d*d <= n and d < 5000:
        if n % d == 0: out.append(d); n //= d
        else: d += 1
    if n > 1 or not out: out.append(n)
    return out
def sqpart(n):
    """n = sq^2 * rest (small trial division)"""
    sq = 1; rest = 1
    n = int(n)
    r = math.isqrt(n)
    if r*r == n: return r, 1
    d = 2
    while d*d <= n and d < 5000:
        e = 0
        while n % d == 0: n //= d; e += 1
        sq *= d**(e//2)
        if e % 2: rest *= d
        d += 1
    r = math.isqrt(n)
    if r*r == n: return sq*r, rest
    return sq, rest*n
