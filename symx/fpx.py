"""Bit-precise symbolic execution of small scalar functions: LLVM IR (as the compiler emits it
from /repo's current sources) is executed path by path with IEEE-754 double terms of the solver.
Library functions the solver has no theory for (fmod, remainder, sin, cos) are replaced by their
IEEE/ISO C contracts."""
import os, re, struct, time
import z3
from . import instr

class Unsupported(Exception): pass
D = z3.Float64(); RNE = z3.RNE()
TOK = r'%"[^"]+"|@"[^"]+"|[%@][-\w.$]+'

def fpc(bits): return z3.fpBVToFP(z3.BitVecVal(bits, 64), D)
def fpv(x): return z3.FPVal(x, D)
def to_float(v):
    """model value -> python float"""
    b = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack('<d', struct.pack('<Q', b.as_long()))[0]

def split_top(s):
    out = []; d = 0; cur = ''; q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': d += 1
            elif ch in ')]}>': d -= 1
            elif ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Module:
    def __init__(s, text):
        s.types = {}; s.fns = {}
        cur = None
        for ln in text.split('\n'):
            m = re.match(r'^(%"[^"]+"|%[-\w.$]+) = type (.*)$', ln)
            if m: s.types[m[1]] = m[2]; continue
            if ln.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\((.*)\)[^()]*\{', ln)
                if not m: m = re.search(r'@("[^"]+"|[\w.$]+)\((.*)\) ', ln)
                args = []
                for a in split_top(m[2]):
                    if a == '...': continue
                    t = a.split()[0]; n = re.findall(TOK, a)
                    args.append((t, n[-1] if n and not t.startswith('%') or len(n) > 1 else None))
                cur = [args, {}, None]; s.fns[m[1].strip('"')] = cur; blk = None; first = True
                # the entry block is numbered after the arguments
                continue
            if cur is not None:
                if ln.startswith('}'): cur = None; continue
                t = ln.split(' ; ')[0] if not '"' in ln else ln
                t = re.sub(r'\s*;.*$', '', ln) if '"' not in ln else ln
                t = t.strip()
                if not t: continue
                m = re.match(r'^("?[-\w.$]+"?):', t)
                if m:
                    blk = m[1].strip('"'); cur[1][blk] = []
                    if cur[2] is None: cur[2] = blk
                    continue
                if cur[2] is None: cur[2] = '__entry'; blk = '__entry'; cur[1][blk] = []
                cur[1][blk].append(re.sub(r', ![\w.]+ ![\w.]+', '', t))
    def size(s, t):
        """(size, align)"""
        t = t.strip()
        if t in ('double', 'i64', 'ptr'): return 8, 8
        if t in ('i32', 'float'): return 4, 4
        if t == 'i16': return 2, 2
        if t in ('i8', 'i1'): return 1, 1
        if t.startswith('['):
            m = re.match(r'^\[(\d+) x (.*)\]$', t); z, a = s.size(m[2]); return int(m[1])*z, a
        if t in s.types: return s.size(s.types[t])
        if t.startswith('<{'):
            return sum(s.size(x)[0] for x in split_top(t[2:-2])), 1
        if t.startswith('{'):
            o = 0; al = 1
            for x in split_top(t[1:-1]):
                z, a = s.size(x); o = (o+a-1)//a*a + z; al = max(al, a)
            return (o+al-1)//al*al, al
        raise Unsupported('type ' + t)
    def field(s, t, i):
        """(offset, type) of element i of aggregate t"""
        t = t.strip()
        if t in s.types: t = s.types[t]
        if t.startswith('['):
            m = re.match(r'^\[(\d+) x (.*)\]$', t); return i*s.size(m[2])[0], m[2]
        packed = t.startswith('<{')
        xs = split_top(t[2:-2] if packed else t[1:-1]); o = 0
        for k, x in enumerate(xs):
            z, a = s.size(x)
            if not packed: o = (o+a-1)//a*a
            if k == i: return o, x
            o += z
        raise Unsupported('field')

class Exec:
    def __init__(s, mod, qtimeout=20000, maxsteps=4000, maxpaths=200, deadline=None):
        s.m = mod; s.fresh = 0; s.leaves = []; s.cut = 0; s.queries = 0; s.time = 0.0; s.qt = qtimeout
        s.maxsteps = maxsteps; s.maxpaths = maxpaths; s.deadline = deadline or time.time()+120; s.unk = 0; s.nsat = 0; s.nunsat = 0
        s.infeasible = 0; s.ops = 0; s.diverge = None
    def new(s, name='f'): s.fresh += 1; return z3.FP(f'{name}!{s.fresh}', D)
    def solve(s, cs):
        """returns (status, model)"""
        t0 = time.time()
        sv = z3.SolverFor('QF_FP'); sv.set('timeout', max(1, int(min(s.qt, 1000*(s.deadline-time.time())))))
        sv.add(*cs); r = sv.check(); s.queries += 1; s.time += time.time()-t0
        r = str(r)
        if r == 'sat': s.nsat += 1
        elif r == 'unsat': s.nunsat += 1
        else: s.unk += 1
        return r, (sv.model() if r == 'sat' else None)
    # ------------------------------------------------------------------
    def run(s, fname, args, pre=()):
        """explores fname(args) under pre; s.leaves = [(conds, ret, mem)]"""
        s.leaves = []
        s.call(fname, args, list(pre), {}, lambda pc, ret, mem: s.leaves.append((pc, ret, mem)), 0)
        return s.leaves
    def call(s, fname, args, pc, mem, k, steps):
        f = s.m.fns.get(fname)
        if f is None: raise Unsupported('function ' + fname)
        env = {n: v for (t, n), v in zip(f[0], args)}
        s.block(f, f[2], None, env, pc, mem, k, steps)
    def val(s, env, t, x):
        x = x.strip()
        if x in env: return env[x]
        if x.startswith('%'): raise Unsupported('value ' + x)
        if t == 'double':
            if x.startswith('0x'): return fpc(int(x[2:], 16))
            if x in ('undef', 'poison'): return s.new('undef')
            return fpv(float(x))
        if t == 'i1': return z3.BoolVal(x == 'true')
        if re.match(r'^i\d+$', t):
            if x in ('undef', 'poison'): s.fresh += 1; return z3.BitVec(f'u!{s.fresh}', int(t[1:]))
            return z3.BitVecVal(int(x), int(t[1:]))
        if t == 'ptr': return (x, 0)
        raise Unsupported(f'constant {t} {x}')
    def ops(s): pass
    def block(s, f, lab, prev, env, pc, mem, k, steps, start=0):
        while True:
            ins = f[1][lab]
            if start == 0:
                phis = {}
                for t in ins:
                    m = re.match(r'^(%\S+) = phi (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(\S+) (.*)$', t)
                    if not m: break
                    ok = False
                    for a in re.finditer(r'\[ ([^\]]+?), %("[^"]+"|[-\w.$]+) \]', m[3]):
                        if a[2].strip('"') == prev or (prev == '__entry' and a[2].strip('"') not in f[1]): phis[m[1]] = s.val(env, m[2], a[1]); ok = True; break
                    if not ok: raise Unsupported('phi ' + t)
                env.update(phis)
                if phis:
                    # the same loop state twice means the loop never ends
                    seen = env.get('#seen', {}); old = seen.get(lab); snap = dict(mem)
                    if old and s.diverge is None and old[1].keys() == snap.keys() and all(old[1][q] is snap[q] for q in snap):
                        eqs = [x == y for q in phis for x, y in ((phis[q], old[0][q]),) if not isinstance(x, tuple)]
                        if all(phis[q] == old[0][q] for q in phis if isinstance(phis[q], tuple)):
                            r, mo = s.solve(pc + eqs)
                            if r == 'sat': s.diverge = mo
                    env['#seen'] = dict(seen); env['#seen'][lab] = (phis, snap)
            nxt = None
            for idx in range(start, len(ins)):
                t = ins[idx]; steps += 1; s.ops += 1
                if ' = phi ' in t: continue
                if s.diverge is not None or steps > s.maxsteps or time.time() > s.deadline: s.cut += 1; return
                if t.startswith('ret '):
                    m = re.match(r'^ret (\S+)(?: (.*))?$', t)
                    k(pc, None if m[1] == 'void' else s.val(env, m[1], m[2]), mem); return
                if t.startswith('unreachable'): return
                if t.startswith('br label'):
                    nxt = re.match(r'^br label %("[^"]+"|[-\w.$]+)', t)[1].strip('"'); break
                if t.startswith('br i1'):
                    m = re.match(r'^br i1 (\S+), label %("[^"]+"|[-\w.$]+), label %("[^"]+"|[-\w.$]+)', t)
                    c = z3.simplify(s.val(env, 'i1', m[1])); a, b = m[2].strip('"'), m[3].strip('"')
                    if z3.is_true(c): nxt = a; break
                    if z3.is_false(c): nxt = b; break
                    for cond, dst in ((c, a), (z3.Not(c), b)):
                        r, _ = s.solve(pc + [cond])
                        if r == 'unsat': s.infeasible += 1; continue
                        if len(s.leaves) >= s.maxpaths: s.cut += 1; continue
                        s.block(f, dst, lab, dict(env), pc + [cond], dict(mem), k, steps)
                    return
                if t.startswith('switch '):
                    m = re.match(r'^switch (i\d+) (\S+), label %("[^"]+"|[-\w.$]+) \[(.*)', t)
                    v = s.val(env, m[1], m[2]); body = m[4]; j = idx+1
                    while ']' not in body and j < len(ins): body += ' ' + ins[j]; j += 1
                    cases = re.findall(r'i\d+ (-?\d+), label %("[^"]+"|[-\w.$]+)', body); n = int(m[1][1:])
                    rest = []
                    opts = []
                    for x, l in cases:
                        c = v == z3.BitVecVal(int(x), n); opts.append((c, l.strip('"'))); rest.append(z3.Not(c))
                    opts.append((z3.And(*rest) if rest else z3.BoolVal(True), m[3].strip('"')))
                    for cond, dst in opts:
                        c = z3.simplify(cond)
                        if z3.is_false(c): continue
                        if not z3.is_true(c):
                            r, _ = s.solve(pc + [c])
                            if r == 'unsat': s.infeasible += 1; continue
                        s.block(f, dst, lab, dict(env), pc + ([] if z3.is_true(c) else [c]), dict(mem), k, steps)
                    return
                m = re.match(r'^(?:(%\S+) = )?(?:tail |musttail |notail )?call ', t)
                if m:
                    mm = re.match(r'^(?:(%\S+) = )?(?:tail |musttail |notail )?call (.*?)@("[^"]+"|[\w.$]+)\((.*)\)', t)
                    if not mm: raise Unsupported(t)
                    name = mm[3].strip('"'); dst = mm[1]
                    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.memset', 'llvm.donothing')) and not name.startswith('llvm.memset'): continue
                    av = []
                    for a in split_top(mm[4]):
                        p = a.split(); av.append(s.val(env, p[0], p[-1]))
                    if name in s.m.fns:
                        def cont(pc2, ret, mem2, f=f, lab=lab, prev=prev, env=env, idx=idx, dst=dst, k=k, steps=steps):
                            e = dict(env)
                            if dst: e[dst] = ret
                            s.block(f, lab, prev, e, pc2, dict(mem2), k, steps+1, idx+1)
                        s.call(name, av, pc, mem, cont, steps+1); return
                    r, extra = s.lib(name, av)
                    pc = pc + extra
                    if dst: env[dst] = r
                    continue
                if t.startswith('store '):
                    m = re.match(r'^store (?:volatile )?(\S+) (.*), ptr (\S+?)(?:, .*)?$', t)
                    p = s.val(env, 'ptr', m[3])
                    mem = dict(mem); mem[(p[0], p[1], m[1])] = s.val(env, m[1], m[2]); continue
                m = re.match(r'^(%\S+) = (\w+) (.*)$', t)
                if not m: raise Unsupported(t)
                env[m[1]] = s.op(m[2], m[3], env, mem, m[1])
            else:
                raise Unsupported('fell off block')
            prev, lab, start = lab, nxt, 0
    def op(s, o, rest, env, mem, dst):
        rest = re.sub(r'^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|nuw|nsw|exact|disjoint|nneg|samesign) )+', '', rest)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            m = re.match(r'^double (\S+), (\S+)$', rest)
            if not m: raise Unsupported(o + ' ' + rest)
            a, b = s.val(env, 'double', m[1]), s.val(env, 'double', m[2])
            return dict(fadd=z3.fpAdd, fsub=z3.fpSub, fmul=z3.fpMul, fdiv=z3.fpDiv)[o](RNE, a, b)
        if o == 'fneg': return z3.fpNeg(s.val(env, 'double', rest.split()[1]))
        if o == 'fcmp':
            m = re.match(r'^(\w+) double (\S+), (\S+)$', rest); a, b = s.val(env, 'double', m[2]), s.val(env, 'double', m[3])
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)); p = m[1]
            base = dict(eq=z3.fpEQ(a, b), gt=z3.fpGT(a, b), ge=z3.fpGEQ(a, b), lt=z3.fpLT(a, b), le=z3.fpLEQ(a, b), ne=z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))))
            if p == 'ord': return z3.Not(un)
            if p == 'uno': return un
            if p == 'true': return z3.BoolVal(True)
            if p == 'false': return z3.BoolVal(False)
            return base[p[1:]] if p[0] == 'o' else z3.Or(un, base[p[1:]])
        if o == 'icmp':
            m = re.match(r'^(\w+) (\S+) (\S+), (\S+)$', rest)
            if m[2] == 'ptr':
                a, b = s.val(env, 'ptr', m[3]), s.val(env, 'ptr', m[4]); e = a == b
                return z3.BoolVal(e if m[1] == 'eq' else not e)
            a, b = s.val(env, m[2], m[3]), s.val(env, m[2], m[4])
            return dict(eq=lambda: a == b, ne=lambda: a != b, sgt=lambda: a > b, sge=lambda: a >= b, slt=lambda: a < b, sle=lambda: a <= b,
                        ugt=lambda: z3.UGT(a, b), uge=lambda: z3.UGE(a, b), ult=lambda: z3.ULT(a, b), ule=lambda: z3.ULE(a, b))[m[1]]()
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            m = re.match(r'^(\S+) (\S+), (\S+)$', rest); a, b = s.val(env, m[1], m[2]), s.val(env, m[1], m[3])
            if m[1] == 'i1': return dict(xor=z3.Xor, **{'and': z3.And, 'or': z3.Or})[o](a, b)
            return {'add': lambda: a+b, 'sub': lambda: a-b, 'mul': lambda: a*b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                    'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[o]()
        if o in ('zext', 'sext', 'trunc'):
            m = re.match(r'^(\S+) (\S+) to i(\d+)$', rest); a = s.val(env, m[1], m[2]); n = int(m[3])
            if m[1] == 'i1':
                return z3.If(a, z3.BitVecVal(1 if o == 'zext' else -1, n), z3.BitVecVal(0, n))
            w = int(m[1][1:])
            if o == 'trunc':
                r = z3.Extract(n-1, 0, a); return r == 1 if n == 1 else r
            return z3.ZeroExt(n-w, a) if o == 'zext' else z3.SignExt(n-w, a)
        if o == 'select':
            m = re.match(r'^i1 (\S+), (\S+) (\S+), (\S+) (\S+)$', rest)
            if not m: raise Unsupported('select ' + rest)
            c, a, b = s.val(env, 'i1', m[1]), s.val(env, m[2], m[3]), s.val(env, m[4], m[5])
            if isinstance(a, tuple):
                c = z3.simplify(c)
                if z3.is_true(c): return a
                if z3.is_false(c): return b
                raise Unsupported('pointer select')
            return z3.If(c, a, b)
        if o in ('sitofp', 'uitofp'):
            m = re.match(r'^(\S+) (\S+) to double$', rest); a = s.val(env, m[1], m[2])
            if m[1] == 'i1': return z3.If(a, fpv(1.0 if o == 'uitofp' else -1.0), fpv(0.0))
            return z3.fpSignedToFP(RNE, a, D) if o == 'sitofp' else z3.fpUnsignedToFP(RNE, a, D)
        if o in ('fptosi', 'fptoui'):
            m = re.match(r'^double (\S+) to i(\d+)$', rest); a = s.val(env, 'double', m[1])
            return (z3.fpToSBV if o == 'fptosi' else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(int(m[2])))
        if o == 'bitcast':
            m = re.match(r'^(\S+) (\S+) to (\S+)$', rest); a = s.val(env, m[1], m[2])
            if m[1] == 'double' and m[3] == 'i64': return z3.fpToIEEEBV(a)
            if m[1] == 'i64' and m[3] == 'double': return z3.fpBVToFP(a, D)
            raise Unsupported('bitcast ' + rest)
        if o == 'freeze':
            t, x = rest.split(); return s.val(env, t, x)
        if o == 'alloca':
            s.fresh += 1; return (f'alloca{s.fresh}', 0)
        if o == 'load':
            m = re.match(r'^(?:volatile )?(\S+), ptr (\S+?)(?:, .*)?$', rest); p = s.val(env, 'ptr', m[2]); key = (p[0], p[1], m[1])
            if key in mem: return mem[key]
            for (b, off, ty) in mem:
                if b == p[0] and off == p[1]: raise Unsupported('type punning')
            s.fresh += 1
            if m[1] == 'double': v = z3.FP(f'mem!{s.fresh}', D)
            elif m[1] == 'ptr': v = (f'{p[0]}+{p[1]}*', 0)
            elif re.match(r'^i\d+$', m[1]): v = z3.BitVec(f'mem!{s.fresh}', int(m[1][1:]))
            else: raise Unsupported('load ' + rest)
            mem[key] = v; return v
        if o == 'getelementptr':
            rest = re.sub(r'^(?:(?:inbounds|nuw|nusw) )+', '', rest)
            parts = split_top(rest); ty = parts[0]; p = s.val(env, 'ptr', parts[1].split()[-1]); off = p[1]
            for n, q in enumerate(parts[2:]):
                t, x = q.split()[-2:]
                v = z3.simplify(s.val(env, t, x))
                if not z3.is_bv_value(v): raise Unsupported('symbolic index')
                i = v.as_signed_long()
                if n == 0: off += i*s.m.size(ty)[0]
                else:
                    d, ty = s.m.field(ty, i); off += d
            return (p[0], off)
        raise Unsupported(o + ' ' + rest)
    def lib(s, name, a):
        n = name
        if n.startswith('llvm.') : n = n[5:].replace('.f64', '')
        if n == 'fabs': return z3.fpAbs(a[0]), []
        if n == 'sqrt': return z3.fpSqrt(RNE, a[0]), []
        if n in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
            rm = dict(floor=z3.RTN(), ceil=z3.RTP(), trunc=z3.RTZ(), rint=RNE, nearbyint=RNE, round=z3.RNA(), roundeven=RNE)[n]
            return z3.fpRoundToIntegral(rm, a[0]), []
        if n == 'fmuladd': return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2]), []
        if n == 'fma': return z3.fpFMA(RNE, a[0], a[1], a[2]), []
        if n in ('fmin', 'minnum'): return z3.fpMin(a[0], a[1]), []
        if n in ('fmax', 'maxnum'): return z3.fpMax(a[0], a[1]), []
        if n == 'copysign': return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0])), []
        if n == 'fmod':
            x, m = a; r = s.new('fmod')
            bad = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsNaN(m), z3.fpIsZero(m)); ax, am = z3.fpAbs(x), z3.fpAbs(m)
            return r, [z3.If(bad, z3.fpIsNaN(r), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpLT(z3.fpAbs(r), am), z3.fpLEQ(z3.fpAbs(r), ax),
                       z3.fpIsNegative(r) == z3.fpIsNegative(x), z3.Implies(z3.fpLT(ax, am), r == x),
                       # one and two turns are subtracted exactly
                       z3.Implies(z3.And(z3.fpGEQ(ax, am), z3.fpLT(ax, z3.fpMul(RNE, fpv(2.0), am))), z3.fpAbs(r) == z3.fpSub(RNE, ax, am))))]
        if n in ('remainder', 'drem'):
            x, m = a; r = s.new('remainder')
            bad = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsNaN(m), z3.fpIsZero(m)); half = z3.fpMul(RNE, fpv(0.5), z3.fpAbs(m))
            return r, [z3.If(bad, z3.fpIsNaN(r), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpLEQ(z3.fpAbs(r), half), z3.Implies(z3.fpLT(z3.fpAbs(x), half), r == x)))]
        if n in ('sin', 'cos'):
            r = s.new(n); return r, [z3.If(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0])), z3.fpIsNaN(r), z3.And(z3.fpGEQ(r, fpv(-1.0)), z3.fpLEQ(r, fpv(1.0))))]
        raise Unsupported('call to ' + name)

def compile_ir(src, extra=(), opt='-O1'):
    fl = instr.flags(extra) + [f'-I{instr.REPO}'] + ['-DSYMX_PLAIN']
    return instr._run([instr.CXX, '-S', '-emit-llvm', '-fno-exceptions', opt] + fl + [src, '-o', '-']).decode()

class Checker:
    """collects bit-precise obligations into a runner result"""
    def __init__(s, name, budget=120):
        from .engine import Result
        s.r = Result(name); s.t0 = time.time(); s.deadline = s.t0+budget; s.budget = budget
    def obligations(s, ex, label, leaves, prop, inputs, replay):
        """prop(pc, ret, mem) -> Bool that must hold on every leaf; inputs: {name: term}; replay(dict) -> failures"""
        s.r.paths += len(leaves); s.r.infeasible += ex.infeasible; ex.infeasible = 0
        if ex.diverge is not None:
            s.r.obl += 1
            vals = {n: to_float(ex.diverge.eval(t, model_completion=True)) for n, t in inputs.items() if t.sort() == D}
            f = replay(vals); ex.diverge = None
            if f: s.r.viol.append(dict(label='termination', msg=f[0][1], inputs=vals, how='bit-precise solver model: the loop state repeats', note='')); return
            s.r.incon.append((label, f'loop state may repeat: {vals}'))
        if ex.cut:
            s.r.obl += 1
            s.r.incon.append((label, f'{ex.cut} paths beyond the step bound'))
            ex.cut = 0
        for pc, ret, mem in leaves:
            s.r.obl += 1
            st, mod = ex.solve(pc + [z3.Not(prop(pc, ret, mem))])
            if st == 'unsat': s.r.disch += 1
            elif st == 'sat':
                vals = {n: to_float(mod.eval(t, model_completion=True)) if t.sort() == D else mod.eval(t, model_completion=True).as_signed_long() for n, t in inputs.items()}
                f = replay(vals)
                if f:
                    s.r.viol.append(dict(label=label, msg=f[0][1], inputs=vals, how='bit-precise solver model', note='')); return
                s.r.incon.append((label, f'model {vals} does not replay'))
            else: s.r.incon.append((label, 'solver: unknown'))
            if len(s.r.samples) < 2: s.r.samples.append(f'{s.r.name}: {label}: bit-precise, {len(pc)} condition(s) on the path: {st}')
    def done(s, ex):
        st = s.r.stats; st.queries = ex.queries; st.unsat = ex.nunsat; st.sat = ex.nsat; st.unknown = ex.unk; st.time = ex.time
        s.r.ops = ex.ops; s.r.wall = time.time()-s.t0
        return s.r.to()
