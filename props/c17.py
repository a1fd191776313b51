from symx.runner import *
from symx import fpx
import z3
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor::evaluate_robust_weight', 'Factor*::evaluate_chi2']
BOUNDS = 'real arithmetic: every u >= 0; bit-precise IEEE doubles: every u >= 0 incl. infinity, every value of earlier weights; sequences of two evaluations; chi2 of every factor type for any symmetric information matrix (entries in [-2, 2])'
KERNELS = {'quadratic': QUAD, 'huber': HUBER, 'cauchy': CAUCHY, 'mcclure': MCCLURE, 'ransac': RANSAC}

def expected(k, u):
    if k == QUAD: return 1.0
    if k == HUBER: return 1.0 if u < 1.0 else 1.0/u
    if k == CAUCHY: return 1.0/(1.0+u*u)
    if k == MCCLURE: return 1.0/((1.0+u*u)*(1.0+u*u))
    return 1.0 if u < 1.0 else 0.0
def mkfactor(E, k, seed=None):
    G = Graph(E); n = G.node(L2, [0.0, 0.0]); f = G.stub([n], E.eye(2), E.eye(2), [0.0, 0.0], 1, k)
    return G, f
for nm, k in KERNELS.items():
    def one(nm=nm, k=k):
        @harness(name='weight_' + nm)
        def weight(E):
            u = E.real('u', 0, 1e3, gen=lambda r: r.choice((r.uniform(0, 2), 10**r.uniform(-3, 3)))); v = E.real('v', 0, 1e3, gen=lambda r: r.uniform(0, 3))
            G, f = mkfactor(E, k)
            w = E.call('f_robust', f, [u], out=1)[0]
            E.check_eq('documented weight', [w], [expected(k, u)], tol=1e-12)
            E.check('weight in [0, 1]', And(w >= 0.0, w <= 1.0))
            w2 = E.call('f_robust', f, [v], out=1)[0]
            E.check_eq('weight after another evaluation', [w2], [expected(k, v)], tol=1e-12)
            w3 = E.call('f_robust', f, [u], out=1)[0]
            E.check_eq('same argument, same weight', [w3], [w], tol=1e-12)
        @harness(name='replay_' + nm, max_paths=4)
        def rp(E):
            G, f = mkfactor(E, k); p = E.real('p', 0, 10, gen=lambda r: r.uniform(0, 3)); u = E.real('u', gen=lambda r: r.uniform(0, 3))
            if not isinstance(u, float): E.assume(And(u >= 0.0, u < 1e3))
            E.call('f_robust', f, [p], out=1)
            w = E.call('f_robust', f, [u], out=1)[0]
            if isinstance(u, float) and not (u >= 0): return
            E.check_eq('documented weight', [w], [expected(k, u)], tol=1e-14)
        HARNESSES.pop()          # only used for replays of bit-precise models
        @bitprecise(rp, 'fp_factor.cpp', time=60, cost=4)
        def bits(ck, ex, rep, k=k):
            u = z3.FP('u', fpx.D); one = fpx.fpv(1.0); R = fpx.RNE
            pre = [z3.Not(z3.fpIsNaN(u)), z3.fpGEQ(u, fpx.fpv(0.0))]
            rep2 = lambda ins: rep({'u': ins['u'], 'p': 0.3}) or rep({'u': ins['u'], 'p': 2.7})
            # find the enumeration value the kernel switches on: the robust_type_ field is read symbolically
            lv = ex.run('fp_robust', [('F', 0), u], pre)
            kt = typed(lv, k)
            def want(pc, r, m):
                up = z3.And(*[z3.fpLEQ(r, one), z3.fpGEQ(r, fpx.fpv(0.0))])
                q = z3.fpAdd(R, z3.fpMul(R, u, u), one)
                if k == QUAD: return z3.fpEQ(r, one)
                if k == HUBER: return z3.And(up, z3.Implies(z3.fpLT(u, one), z3.fpEQ(r, one)), z3.Implies(z3.fpGT(u, one), close(r, z3.fpDiv(R, one, u))))
                if k == CAUCHY: return z3.And(up, close(r, z3.fpDiv(R, one, q)))
                if k == MCCLURE: return z3.Or(close(r, z3.fpDiv(R, z3.fpDiv(R, one, q), q)), close(r, z3.fpDiv(R, one, z3.fpMul(R, q, q))))     # in [0, 1] by the lemmas below
                return z3.And(z3.Implies(z3.fpLT(u, one), z3.fpEQ(r, one)), z3.Implies(z3.fpGT(u, one), z3.fpIsZero(r)))
            ck.obligations(ex, f'{k}: documented weight, every double', kt, want, dict(u=u), rep2)
            if k == MCCLURE:
                a, x = z3.FPs('a x', fpx.D); in01 = lambda t: z3.And(z3.fpGEQ(t, fpx.fpv(0.0)), z3.fpLEQ(t, one))
                lem = lambda label, cs, g: ck.obligations(ex, label, [(cs, None, None)], lambda *_: g, {}, lambda _: [])
                lem('lemma: 1+u*u >= 1', pre, z3.fpGEQ(z3.fpAdd(R, z3.fpMul(R, u, u), one), one))
                lem('lemma: a/x in [0, 1]', [in01(a), z3.fpGEQ(x, one)], in01(z3.fpDiv(R, a, x)))
                lem('lemma: x*x >= 1', [z3.fpGEQ(x, one)], z3.fpGEQ(z3.fpMul(R, x, x), one))
        bits_name = 'every_double_' + nm
        HARNESSES[-1].name = bits_name
    one()
def close(a, b): return z3.Or(a == b, z3.fpEQ(a, b))
def typed(leaves, k):
    """the leaves reachable when every 32-bit integer read from the factor (its kernel type) equals k"""
    import itertools
    out = []
    for pc, r, m in leaves:
        syms = [x for (b, off, t), x in m.items() if b == 'F' and t.startswith('i')]
        sub = [(x, z3.BitVecVal(k, x.size())) for x in syms if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        pc2 = [z3.simplify(z3.substitute(c, *sub)) if sub else c for c in pc]
        if any(z3.is_false(c) for c in pc2): continue
        out.append(([c for c in pc2 if not z3.is_true(c)], z3.simplify(z3.substitute(r, *sub)) if sub else r, m))
    return out

# chi2 of every factor type: half r^T W r with the off-diagonal information included
CASES = {
 'pose2d': (F1P2, [(P2, 3)], 3, 3), 'two_poses2d': (F2P2, [(P2, 3), (P2, 3)], 3, 3), 'odometry2d': (ODOM, [(P2, 3), (P2, 3)], 3, 3),
 'landmark2d': (FL2, [(P2, 3), (L2, 2)], 2, 2), 'landmark3d': (FL3, [(P3, 16), (L3, 3)], 3, 3), 'plane4d': (FPL, [(P3, 16), (PL, 4)], 4, 4),
 'pose3d': (F1P3, [(P3, 16)], 16, 6), 'two_poses3d': (F2P3, [(P3, 16), (P3, 16)], 16, 6), 'point2plane': (FPP, [(P3, 16)], 9, 1)}
def st(E, t, n, i):
    if t == P2: return E.arr([0.3*i, 0.2-i, 0.4*i+0.1])
    if t == L2: return E.arr([3.0+i, 2.0])
    if t == L3: return E.arr([3.0+i, 2.0, -1.0])
    if t == PL: return E.arr([0.6, 0.0, 0.8, 1.5])
    R = E.arr([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]) if i else E.arr([[0.8, -0.6, 0.0], [0.6, 0.8, 0.0], [0.0, 0.0, 1.0]])
    return E.mat4(R, E.arr([0.5+i, -0.3, 0.7*i]))
for nm, (ft, ns, zn, wd) in CASES.items():
    def one(nm=nm, ft=ft, ns=ns, zn=zn, wd=wd):
        @harness(name='chi2_' + nm, max_paths=12)
        def chi(E):
            G = Graph(E); ids = [G.node(t, st(E, t, n, i)) for i, (t, n) in enumerate(ns)]
            if zn == 16: z = E.mat4(E.eye(3), E.reals('z', 3, -2, 2))
            elif ft == FPP: z = E.arr([*E.reals('z', 6, -3, 3), 0.6, 0.0, 0.8])
            elif ft == FPL: z = E.arr([0.0, 0.6, 0.8, E.real('z', -2, 2)])
            else: z = E.arr([*E.reals('z', zn-1, -2, 2), 0.5])
            W = sym(E, 'w', wd) if wd <= 4 else symband(E, wd)
            f = G.factor(ft, ids[0], ids[1] if len(ids) > 1 else -1, z, W)
            r = G.res(f)
            E.check_eq('half weighted squared residual', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
            E.check_same('information', E.call('f_info', f, out=wd*wd), W)
    one()
def symband(E, n):
    W = E.zeros(n, n); s = E.reals('w', 4, -2, 2)
    for i in range(n):
        W[i, i] = s[0] + float(i); 
        for j in range(i): W[i, j] = W[j, i] = s[1+(i+j) % 3]*float(1+i-j)
    return W
