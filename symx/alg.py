"""Exact algebra used by the symbolic executor: polynomials with integer coefficients over
named real variables, modulo monic rewriting rules y^k -> p (k = 2 for algebraic and
trigonometric atoms, eps^2 -> 0 for first-order perturbations), and fractions of them."""
import math
from fractions import Fraction
from math import gcd

BITS = 12
VM = (1 << BITS) - 1

class Budget(Exception): pass

def p_add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def p_scale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: c*k for m, c in a.items()}

def p_neg(a): return {m: -c for m, c in a.items()}

MULLIM = [4000000]
def p_mulraw(a, b, lim=None):
    lim = lim or MULLIM[0]
    if len(a) > len(b): a, b = b, a
    if len(a)*len(b) > lim: raise Budget(f'product of {len(a)} x {len(b)} terms')
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1*c2
    return {m: c for m, c in r.items() if c}

def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1: return 1
    return g

class Var:
    __slots__ = ('i', 'name', 'kind', 'info', 'shadow', 'lo', 'hi', 'power', 'rhs', 'integer')
    def __init__(s, i, name, kind, info=None, shadow=0.0):
        s.i = i; s.name = name; s.kind = kind; s.info = info; s.shadow = shadow
        s.lo = s.hi = None; s.power = 0; s.rhs = None; s.integer = False

class Frac:
    """num / (k * prod f_i^e_i);  num: dict of ints, k > 0 int, den: tuple of (factor id, exponent)."""
    __slots__ = ('num', 'k', 'den')
    def __init__(s, num, k=1, den=()):
        s.num = num; s.k = k; s.den = den

class Ctx:
    def __init__(s):
        s.vars = []; s.byname = {}
        s.maskbits = 0            # bits >= 1 of the exponents of ruled variables (exponent >= 2)
        s.factors = []            # denominator factors: primitive polynomials
        s.fkey = {}
        s.eps = None
        s.termlimit = 60000
        s.rw = 0
    # ---- variables
    def var(s, name, kind='input', info=None, shadow=0.0):
        v = Var(len(s.vars), name, kind, info, shadow)
        s.vars.append(v); s.byname[name] = v
        return v
    def rule(s, v, rhs, power=2):
        """v^power -> rhs (Frac with trivial factors allowed: integer denominators only)."""
        v.power = power; v.rhs = rhs
        # flag monomials whose exponent of v may reach the power
        sh = v.i*BITS
        bits = 0
        for b in range(BITS):
            if (1 << b) >= power or power > 2 and (1 << b) >= 1: bits |= 1 << b
        if power == 2: bits = VM & ~1
        s.maskbits |= bits << sh
    def mono(s, v, e=1): return e << (v.i*BITS)
    def f(s, v): return Frac({s.mono(v): 1})
    def const(s, q):
        q = Fraction(q)
        return Frac({0: q.numerator} if q else {}, q.denominator)
    # ---- reduction
    def reduce(s, p, k):
        """Apply the rewriting rules; returns (poly, k)."""
        mask = s.maskbits
        if not any(m & mask for m in p): return p, k
        # process ruled variables from the last created to the first (rhs refer to earlier ones or to unruled)
        for _ in range(200):
            bad = [m for m in p if m & mask]
            if not bad: return p, k
            # choose the variable: highest index that needs rewriting
            allm = 0
            for m in bad: allm |= m & mask
            vi = (allm.bit_length()-1)//BITS
            v = s.vars[vi]; sh = vi*BITS; pw = v.power
            rhs = v.rhs
            if rhs is None or not rhs.num:
                q = {}
                chg = False
                for m, c in p.items():
                    if ((m >> sh) & VM) >= pw: chg = True; continue
                    q[m] = c
                p = q
                if not chg: return s._reduce_slow(p, k)
                continue
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & VM
                n, r = divmod(e, pw)
                mm = m - ((e - r) << sh)
                g = groups.setdefault(n, {})
                g[mm] = g.get(mm, 0) + c
            if set(groups) == {0}: return s._reduce_slow(p, k)
            nmax = max(groups)
            # p = sum groups[n]*rhs^n, rhs = R/kr
            R, kr = rhs.num, rhs.k
            acc = groups.get(nmax, {})
            for n in range(nmax-1, -1, -1):
                acc = p_mulraw(acc, R)
                g = groups.get(n)
                if g:
                    sc = kr**(nmax-n)
                    acc = p_add(acc, p_scale(g, sc))
            s.rw += 1
            p = {m: c for m, c in acc.items() if c}; k = k*kr**nmax
            if len(p) > s.termlimit: raise Budget(f'{len(p)} terms')
        raise Budget('rewriting did not terminate')
    def _reduce_slow(s, p, k): return p, k
    def norm(s, num, k, den):
        if len(num) > s.termlimit: raise Budget(f'{len(num)} terms')
        if not num: return Frac({}, 1, ())
        if k != 1:
            g = gcd(content(num), k)
            if g > 1:
                num = {m: c//g for m, c in num.items()}; k //= g
        # cancel monomial denominators
        if den:
            nd = []
            for fid, e in den:
                fp = s.factors[fid]
                if len(fp) == 1:
                    (fm, fc), = fp.items()
                    sh = (fm.bit_length()-1)//BITS*BITS
                    me = min(((m >> sh) & VM) for m in num)
                    c = min(me, e)
                    if c:
                        num = {m - (c << sh): cc for m, cc in num.items()}
                        e -= c
                    v = s.vars[sh//BITS]
                    if e >= 2 and v.power == 2 and v.rhs is not None and v.rhs.num and not v.rhs.den and max(v.rhs.num) > 0:
                        pr, cr = s.prim(v.rhs.num)      # v^2 = cr*pr/k
                        while e >= 2 and len(num) >= len(pr) and len(num) <= 3000:
                            q = s.divexact(num, pr)
                            if q is None: break
                            num = p_scale(q, v.rhs.k if cr > 0 else -v.rhs.k); k *= abs(cr); e -= 2
                        g = gcd(k, content(num)) if num else 1
                        if g > 1: num = {m: cc//g for m, cc in num.items()}; k //= g
                else:
                    while e and len(num) >= len(fp) and len(num) <= 3000:
                        q = s.divexact(num, fp)
                        if q is None: break
                        num = q; e -= 1
                if e: nd.append((fid, e))
            den = tuple(nd)
        return Frac(num, k, den)
    # ---- arithmetic
    def add(s, a, b):
        if not a.num: return b
        if not b.num: return a
        if a.den == b.den:
            if a.k == b.k: return s.norm(p_add(a.num, b.num), a.k, a.den)
            g = gcd(a.k, b.k); l = a.k//g*b.k
            return s.norm(p_add(p_scale(a.num, l//a.k), p_scale(b.num, l//b.k)), l, a.den)
        da, db = dict(a.den), dict(b.den)
        den = {}
        na, nb = a.num, b.num; ka, kb = a.k, b.k
        for fid in set(da) | set(db):
            ea, eb = da.get(fid, 0), db.get(fid, 0)
            e = max(ea, eb); den[fid] = e
            for _ in range(e-ea): na, ka = s.reduce(p_mulraw(na, s.factors[fid]), ka)
            for _ in range(e-eb): nb, kb = s.reduce(p_mulraw(nb, s.factors[fid]), kb)
        g = gcd(ka, kb); l = ka//g*kb
        return s.norm(p_add(p_scale(na, l//ka), p_scale(nb, l//kb)), l, tuple(sorted(den.items())))
    def neg(s, a): return Frac(p_neg(a.num), a.k, a.den)
    def sub(s, a, b): return s.add(a, s.neg(b))
    def mul(s, a, b):
        if not a.num or not b.num: return Frac({})
        num, k = s.reduce(p_mulraw(a.num, b.num), a.k*b.k)
        if a.den and b.den:
            d = dict(a.den)
            for f, e in b.den: d[f] = d.get(f, 0)+e
            den = tuple(sorted(d.items()))
        else: den = a.den or b.den
        den2 = s._reduce_den(den)
        r = s.norm(num, k, den)
        return r
    def _reduce_den(s, den): return den
    def factor(s, p):
        """Register a primitive polynomial as denominator factor."""
        key = tuple(sorted(p.items()))
        fid = s.fkey.get(key)
        if fid is None:
            fid = len(s.factors); s.factors.append(p); s.fkey[key] = fid
        return fid
    def inv(s, a):
        """1/a; a must have a non-zero numerator."""
        if not a.num: raise ZeroDivisionError
        if s.eps is not None:
            sh = s.eps.i*BITS
            if any((m >> sh) & VM for m in a.num):
                a0, a1 = s.eps_split(a)
                if not a0.num: raise ZeroDivisionError
                i0 = s.inv(a0)
                return s.sub(i0, s.mul(s.mul(s.mul(i0, i0), a1), s.f(s.eps)))
        num = a.num
        # result numerator: k * prod den factors
        rn = {0: a.k}; rk = 1
        for fid, e in a.den:
            for _ in range(e): rn, rk = s.reduce(p_mulraw(rn, s.factors[fid]), rk)
        c = content(num)
        lead = max(num)
        if num[lead] < 0: c = -c
        prim = {m: v//c for m, v in num.items()} if c != 1 else num
        if c < 0: rn = p_neg(rn)
        k = rk*abs(c)
        # monomial content
        den = {}
        mc = None
        mins = s.mincontent(prim)
        if mins:
            prim = {m - mins: v for m, v in prim.items()}
            i = 0; mm = mins
            while mm:
                e = mm & VM
                if e: den[s.factor({1 << (i*BITS): 1})] = e
                mm >>= BITS; i += 1
        if len(prim) > 1:
            # a polynomial equal to the right-hand side of some rule y^2 -> p is y^2
            done = False
            for v in s.vars:
                if v.power == 2 and v.rhs is not None and v.rhs.num and not v.rhs.den:
                    if len(v.rhs.num) == len(prim):
                        pr = s.prim(v.rhs.num)
                        if pr[0] == prim:
                            # p = pr*cr / k  =>  y^2 = cr*prim/k => prim = y^2*k/cr
                            cr = pr[1]
                            rn = p_scale(rn, cr) if cr > 0 else p_neg(p_scale(rn, -cr)); k = k*v.rhs.k
                            fid = s.factor({1 << (v.i*BITS): 1})
                            den[fid] = den.get(fid, 0) + 2
                            done = True; break
            if not done:
                for fid, fp in enumerate(s.factors):
                    if len(fp) > 1 and len(fp) < len(prim):
                        q = s.divexact(prim, fp)
                        while q is not None:
                            den[fid] = den.get(fid, 0)+1; prim = q
                            q = s.divexact(prim, fp) if len(prim) > 1 else None
                    elif fp == prim:
                        den[fid] = den.get(fid, 0)+1; prim = {0: 1}; break
                if prim != {0: 1}:
                    if len(prim) == 1 and 0 in prim:
                        k *= prim[0]
                    else:
                        fid = s.factor(prim); den[fid] = den.get(fid, 0)+1
        else:
            cc = prim.get(0)
            if cc not in (1, None): k *= cc
        if k < 0: k = -k; rn = p_neg(rn)
        return s.norm(rn, k, tuple(sorted(den.items())))
    def div(s, a, b): return s.mul(a, s.inv(b))
    def prim(s, num):
        c = content(num)
        if num[max(num)] < 0: c = -c
        return ({m: v//c for m, v in num.items()} if c != 1 else num), c
    def mincontent(s, p):
        it = iter(p)
        m0 = next(it)
        if m0 == 0: return 0
        es = []
        i = 0; mm = m0
        while mm:
            es.append(mm & VM); mm >>= BITS
        for m in it:
            if m == 0: return 0
            for i in range(len(es)):
                if es[i]:
                    e = (m >> (i*BITS)) & VM
                    if e < es[i]: es[i] = e
            if not any(es): return 0
        r = 0
        for i, e in enumerate(es): r |= e << (i*BITS)
        return r
    def divexact(s, p, d):
        """Exact division in the polynomial ring (not modulo the rules); None if not divisible."""
        if len(p)*len(d) > 200000: return None
        ld = max(d); cd = d[ld]
        td = min(d); tp = min(p)       # trailing terms must divide too
        if p[tp] % d[td] or tp < td: return None
        x, y = tp, td
        while y:
            if (x & VM) < (y & VM): return None
            x >>= BITS; y >>= BITS
        r = dict(p); q = {}
        n = 0
        while r:
            lm = max(r); c = r[lm]
            t = lm - ld
            if t < 0 or c % cd: return None
            # exponent-wise check
            x, y = lm, ld
            while y:
                if (x & VM) < (y & VM): return None
                x >>= BITS; y >>= BITS
            c //= cd; q[t] = c
            for m, v in d.items():
                mm = m + t
                w = r.get(mm, 0) - c*v
                if w: r[mm] = w
                else: r.pop(mm, None)
            n += 1
            if n > 3000: return None
        return q
    def subst(s, a, mp):
        """replace variables (index -> Frac) in a"""
        def poly(p):
            r = Frac({})
            rest = {}
            for m, cf in p.items():
                t = None; mm = m; i = 0; k = 0
                while mm:
                    e = mm & VM
                    if e:
                        if i in mp:
                            for _ in range(e): t = mp[i] if t is None else s.mul(t, mp[i])
                        else: k |= e << (i*BITS)
                    mm >>= BITS; i += 1
                if t is None: rest[m] = cf
                else: r = s.add(r, s.mul(t, Frac({k: cf})))
            if rest:
                num, kk = s.reduce(rest, 1)
                r = s.add(r, s.norm(num, kk, ()))
            return r
        r = s.mul(poly(a.num), s.const(Fraction(1, a.k)))
        for fid, e in a.den:
            d = poly(s.factors[fid])
            for _ in range(e): r = s.div(r, d)
        return r
    # ---- first-order perturbation (eps^2 = 0)
    def eps_split(s, a):
        sh = s.eps.i*BITS
        p0, p1 = {}, {}
        for m, c in a.num.items():
            if (m >> sh) & VM: p1[m - (1 << sh)] = c
            else: p0[m] = c
        return s.norm(p0, a.k, a.den), s.norm(p1, a.k, a.den)
    # ---- queries
    def is_zero(s, a): return not a.num
    def is_const(s, a): return not a.den and (not a.num or (len(a.num) == 1 and 0 in a.num))
    def cval(s, a): return Fraction(a.num.get(0, 0), a.k)
    def eq(s, a, b): return not s.sub(a, b).num
    def varset(s, a):
        u = 0
        for m in a.num: u |= m
        for fid, e in a.den:
            for m in s.factors[fid]: u |= m
        r = set(); i = 0
        while u:
            if u & VM: r.add(i)
            u >>= BITS; i += 1
        return r
    def evalp(s, p, vals, sh=0):
        t = 0.0; q = 1 << sh
        for m, c in p.items():
            try: x = c/q if sh else float(c)
            except OverflowError: x = math.inf if c > 0 else -math.inf
            i = 0
            while m:
                e = m & VM
                if e: x *= vals[i]**e
                m >>= BITS; i += 1
            t += x
        return t
    def evalf(s, a, vals=None):
        if vals is None: vals = [v.shadow for v in s.vars]
        sh = max(0, int(a.k).bit_length() - 900)       # huge coefficients: scale both sides
        n = s.evalp(a.num, vals, sh)
        d = a.k/(1 << sh) if sh else float(a.k)
        for fid, e in a.den: d *= s.evalp(s.factors[fid], vals)**e
        try: return n/d
        except ZeroDivisionError: return math.nan
    def evalabs(s, p, vals):
        """sum of absolute values of the terms (scale for numeric comparisons)"""
        t = 0.0
        for m, c in p.items():
            try: x = abs(float(c))
            except OverflowError: x = math.inf
            i = 0
            while m:
                e = m & VM
                if e: x *= abs(vals[i])**e
                m >>= BITS; i += 1
            t += x
        return t
    def pstr(s, p, maxterms=12):
        out = []
        for n, (m, c) in enumerate(sorted(p.items(), reverse=True)):
            if n >= maxterms: out.append(f'... ({len(p)} terms)'); break
            fs = []; i = 0
            while m:
                e = m & VM
                if e: fs.append(s.vars[i].name + (f'^{e}' if e > 1 else ''))
                m >>= BITS; i += 1
            out.append((f'{c}*' if c != 1 or not fs else '') + '*'.join(fs) if fs else str(c))
        return ' + '.join(out) or '0'
    def str(s, a):
        r = s.pstr(a.num)
        d = ([str(a.k)] if a.k != 1 else []) + [f'({s.pstr(s.factors[f])})^{e}' for f, e in a.den]
        return r if not d else f'({r})/({"*".join(d)})'
