from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['FGraphSolve::solve', 'FGraphSolve::optimize_levenberg_marquardt', 'FGraphSolve::optimize_gauss_newton', 'FGraphSolve::synchronize_nodes_state', 'FGraphSolve::synchronize_nodes_auxiliary_state']
BOUNDS = 'an arbitrary error (any non-negative value at every new state) over up to 4 iterations, any start state, gradient, damping 1e-6..10 (and, with the information scaled alike, 1e-14..1e7) and tolerance 1e-6..1; all node types and anchors for the restoring of rejected steps'
ASSUMPTIONS = ['the total error is a function of the states (the same states give the same error)']

def oracle(E, f, n, xs0, step, es, tol, lam0, iters, pred, final, sc=1.0):
    """follows the visited states; step(base, tried) -> damping that explains the step; pred(lam) -> predicted reduction"""
    visits = lambda i: E.call('g_stub_visit', f, i, out=n)
    seen = E.call('g_stub_seen', f)
    E.check_same('first evaluated at the start', visits(0), xs0)
    base = 0; lams = []; k = 0; prev = None
    while k < iters:
        k += 1
        if k >= seen:
            E.note_error('iterations', f'stopped after {seen-1} steps although neither converged nor out of budget'); return
        lam = step(visits(base), visits(k))
        if prev is None: E.check_eq('first step uses the damping given', [lam], [lam0], tol=1e-6*sc)
        elif prev[0] == 'rejected': E.check('damping grows after a rejected step', lam > prev[1]*1.0000001)
        elif prev[0] == 'good': E.check('damping shrinks after a good step', lam < prev[1]*0.9999999)
        elif prev[0] == 'poor': E.check('damping does not shrink after a poor step', lam > prev[1]*0.9999)
        gain = es[base]-es[k]
        if es[base] < es[k]: prev = ('rejected', lam); continue
        if gain < tol: base = k; break
        p = pred(lam); prev = ('good', lam) if gain > p else ('poor', lam) if gain < 0.2*p else ('fair', lam)
        base = k
    E.check('stops when converged or out of budget', seen == k+1)
    E.check_same('ends at the last accepted state', final(), visits(base))
    E.check('error never above the initial one', es[base] <= es[0])

def scalar(iters, name, scales=(1.0,), **kw):
    @harness(name=name, **kw)
    def lm(E):
        G = Graph(E); x = E.reals('x', 2, -5, 5); n = G.node(L2, x); sc = scales[choose(E, 'scale', len(scales))]; w = sc*E.real('w', 0.1, 5); z = E.reals('z', 2, -5, 5)
        E.assume(Or(z[0] > 0.01, z[0] < -0.01))
        f = G.stub([n], E.eye(2), E.arr([[w, 0.0], [0.0, w]]), z, 0)
        es = E.reals('e', iters+1, 0, 100, gen=lambda r: r.choice((r.uniform(0, 100), r.uniform(0, 1))))
        E.call('g_stub_fun', f, iters+1, es)
        lam = sc*E.real('lam', 1e-6 if len(scales) == 1 else 1e-3, 10, gen=lambda r: 10**r.uniform(-6 if len(scales) == 1 else -3, 1)); tol = E.real('tol', 1e-6, 1, gen=lambda r: 10**r.uniform(-6, 0))
        E.call('g_solve', 1, iters, [lam], [tol])
        # x - x' = w z / (w + lam) for both components
        def step(b, t):
            E.check_eq('step direction', [(b[1]-t[1])*z[0]], [(b[0]-t[0])*z[1]], tol=1e-6)
            return w*z[0]/(b[0]-t[0]) - w
        pred = lambda l: 0.5*w*w*E.dot(z, z)/(w+l)
        oracle(E, f, 2, x, step, es, tol, lam, iters, pred, lambda: G.state(n), sc)
scalar(1, 'one_iteration', max_paths=40)
scalar(2, 'two_iterations', max_paths=120, cost=3)
scalar(3, 'three_iterations', max_paths=300, cost=8, time=60)
scalar(2, 'any_scale', [2.0**-37, 2.0**-20, 2.0**20], max_paths=300, cost=6)

TYPES = {'landmark2d': L2, 'landmark3d': L3, 'pose2d': P2, 'pose3d': P3, 'plane4d': PL}
def start(E, t):
    if t == P2: return E.arr([*E.reals('s', 2, -5, 5), 0.75])
    if t == P3: return E.mat4(E.arr([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]), E.reals('s', 3, -5, 5))
    if t == PL: return E.arr([0.6, 0.0, 0.8, E.real('s', -5, 5)])
    return E.reals('s', NDIM[t], -5, 5)
for nm, t in TYPES.items():
    def one(nm=nm, t=t):
        @harness(name='restores_' + nm, max_paths=60, cost=2)
        def restores(E):
            """two nodes (the second of the type, possibly with an anchor before it); every step is rejected"""
            G = Graph(E); an = choose(E, 'anchor', 2); a0 = E.reals('a', 2, -5, 5); y = start(E, t)
            a = G.node(L2, a0, an); n = G.node(t, y); d = NDIM[t]
            J = E.eye(d); W = E.eye(d); z = E.arr([0.25 if i < 1 else 0.0 for i in range(d)])
            f = G.stub([n], J, W, z, 0); f2 = G.stub([a], E.eye(2), E.eye(2), [0.5, 0.25], 0)
            e = E.reals('e', 4, 0, 10); E.assume(And(e[1] > e[0], e[2] > e[0], e[3] > e[0]))
            E.call('g_stub_fun', f, 4, e); E.call('g_stub_fun', f2, 1, [1.0])
            E.call('g_solve', 1, 3, [0.5], [1e-3])
            E.check('three steps tried', E.call('g_stub_seen', f) == 4)
            E.check_eq('state restored', G.state(n), y, tol=1e-12); E.check_same('other node restored', G.state(a), a0)
            E.check_eq('error not worse', E.call('g_chi2_def', out=1), [e[0]+1.0], tol=1e-12)
            # every rejected step was tried from the restored state
            v = [E.call('g_stub_visit', f, i, out=NSTATE[t]) for i in range(4)]
            if t in (L2, L3):
                for i in (1, 2): E.check('shorter step after each rejection', And(v[0][0]-v[i+1][0] < v[0][0]-v[i][0], v[i+1][0] < v[0][0]))
        @harness(name='accepts_' + nm, max_paths=60, cost=2)
        def accepts(E):
            """first step rejected, second accepted and converged: the state is the second one tried, the anchor stays"""
            G = Graph(E); a0 = E.reals('a', 2, -5, 5); y = start(E, t); d = NDIM[t]
            a = G.node(L2, a0, 1); n = G.node(t, y)
            f = G.stub([a, n], E.arr([[0.5]*2+[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]), E.eye(d), [0.25]+[0.0]*(d-1), 0)
            e = E.reals('e', 4, 0, 10); E.assume(And(e[1] > e[0], e[2] < e[0], e[0]-e[2] < 0.5))
            E.call('g_stub_fun', f, 4, e)
            E.call('g_solve', 1, 10, [0.5], [0.5])
            E.check('two steps tried', E.call('g_stub_seen', f) == 3)
            E.check_same('second tried state kept', G.state(n).ravel(), E.call('g_stub_visit', f, 2, out=NSTATE[t]+2)[2:])
            E.check_same('anchor', G.state(a), a0)
    one()

@harness(max_paths=60, cost=4)
def real_errors(E):
    """a linear problem with its own errors: the reduction found is the true one, two iterations"""
    G = Graph(E); x = E.reals('x', 1, -5, 5); y = E.arr([x[0], 1.0]); n = G.node(L2, y); z = E.reals('z', 2, -5, 5); w = E.real('w', 0.1, 5)
    W = E.arr([[w, 0.0], [0.0, w]]); lam = E.real('lam', 1e-6, 10)
    G.stub([n], E.eye(2), W, z)
    e0 = 0.5*w*E.dot(y-z, y-z)
    E.call('g_solve', 1, 1, [lam], [1e-3])
    s = G.state(n)
    E.check_eq('damped step', (w+lam)*(y-s), w*(y-z), tol=1e-7)
    e1 = E.call('g_chi2_def', out=1)[0]
    E.check_eq('error of the new state', [e1], [0.5*w*E.dot(s-z, s-z)], tol=1e-8)
    E.check('error not worse', e1 <= e0)

@harness(max_paths=60, cost=4)
def robust_errors(E):
    """total of several factors; accepted and rejected steps of a sum"""
    G = Graph(E); x = E.reals('x', 2, -5, 5); n = G.node(L2, x)
    f = G.stub([n], E.eye(2), E.eye(2), [1.0, 2.0], 0, HUBER); f2 = G.stub([n], E.eye(2), E.eye(2), [0.5, 0.0], 0)
    e = E.reals('e', 2, 0, 10); h = E.reals('h', 2, 0, 10)
    E.call('g_stub_fun', f, 2, e); E.call('g_stub_fun', f2, 2, h)
    E.call('g_solve', 1, 1, [0.5], [1e-3])
    s = G.state(n)
    if e[0]+h[0] < e[1]+h[1]: E.check_same('rejected: restored', s, x)
    else: E.check_same('accepted: kept', s, E.call('g_stub_visit', f, 1, out=2))
    E.check('total error not worse', E.call('g_chi2_def', out=1)[0] <= e[0]+h[0])
