from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Optimizer::solve', 'Optimizer::optimize_newton_raphson', 'Optimizer::optimize_levenberg_marquardt', 'OptimizerDense::optimize_newton_raphson_one_iteration', 'OptimizerDense::calculate_model_fidelity']
BOUNDS = 'any error (non-negative), gradient and positive (definite) Hessian at every visited state; dimension 1 over up to 4 iterations, dimension 2 over 1 and 2; tolerance 1e-6..1, damping 1e-6..10'
ASSUMPTIONS = ['error, gradient and Hessian of the user problem are functions of its state']

def problem(E, dim, k, tol, x):
    """k visited states with arbitrary error, gradient, Hessian"""
    E.call('u_new', dim, [tol], x); es, gs, hs = [], [], []
    for i in range(k):
        e = E.real(f'e{i}', 0, 100, gen=lambda r: r.choice((r.uniform(0, 100), r.uniform(0, 1)))); g = E.reals(f'g{i}', dim, -5, 5); h = E.zeros(dim, dim)
        if dim == 1: h[0, 0] = E.real(f'h{i}', 0.1, 5)
        else: h[0, 0] = E.real(f'h{i}', 1, 5); h[1, 1] = E.real(f'k{i}', 1, 5); h[0, 1] = h[1, 0] = E.real(f'c{i}', -0.9, 0.9)
        E.call('u_at', [e], g, h); es.append(e); gs.append(g); hs.append(h)
    return es, gs, hs
def damp(m, h, lam, dim):
    D = E0(h, dim)
    for i in range(dim):
        for j in range(dim): D[i, j] = h[i, j]
        D[i, i] = h[i, i] + (lam if m == 1 else lam*h[i, i])
    return D
def E0(h, dim): return h.copy()

def newton(dim, iters, name, **kw):
    @harness(name=name, **kw)
    def nr(E):
        x = E.reals('x', dim, -5, 5); tol = E.real('tol', 1e-6, 1); es, gs, hs = problem(E, dim, iters+1, tol, x)
        for g in gs: E.assume(Or(g[0] > 0.01, g[0] < -0.01))
        n = E.call('u_solve', 0, iters, [0.0])
        vis = lambda i: E.call('u_visit', i, out=dim)
        E.check_same('starts at the given state', vis(0), x)
        k = 0
        while k < iters:
            if k+1 >= E.call('u_seen'): E.note_error('iterations', f'stopped after {k} iterations before convergence'); return
            E.check_eq('Newton step', hs[k] @ (vis(k)-vis(k+1)), gs[k], tol=1e-6)
            k += 1
            d = es[k-1]-es[k]
            if And(d <= tol, d >= -tol): break
        E.check('iterations performed are reported', n == k); E.check('stops when converged or out of budget', E.call('u_seen') == k+1)
        E.check_same('final state', E.call('u_state', out=dim), vis(k))
newton(1, 1, 'newton_one', max_paths=20)
newton(1, 3, 'newton_three', max_paths=100, cost=3)
newton(2, 1, 'newton_two_dims', max_paths=40, cost=3)

def marquardt(m, dim, iters, name, **kw):
    @harness(name=name, **kw)
    def lm(E):
        x = E.reals('x', dim, -5, 5); tol = E.real('tol', 1e-6, 1, gen=lambda r: 10**r.uniform(-6, 0)); lam = E.real('lam', 1e-6, 10, gen=lambda r: 10**r.uniform(-6, 1))
        es, gs, hs = problem(E, dim, iters+1, tol, x)
        for g in gs: E.assume(Or(g[0] > 0.01, g[0] < -0.01))
        n = E.call('u_solve', m, iters, [lam])
        vis = lambda i: E.call('u_visit', i, out=dim); seen = E.call('u_seen')
        base = 0; k = 0; prev = None
        while k < iters:
            k += 1
            if k >= seen: E.note_error('iterations', f'stopped after {seen-1} steps although neither converged nor out of budget'); return
            d = vis(base)-vis(k); g, h = gs[base], hs[base]
            if dim == 1: l = (g[0]/d[0]-h[0, 0]) if m == 1 else (g[0]/d[0]-h[0, 0])/h[0, 0]
            else: l = lam; 
            if dim == 1:
                if prev is None: E.check_eq('first step uses the damping given', [l], [lam], tol=1e-6)
                elif prev[0] == 'rejected': E.check('damping grows after a rejected step', l > prev[1]*1.0000001)
                elif prev[0] == 'good': E.check('damping shrinks after a good step', l < prev[1]*0.9999999)
                elif prev[0] == 'poor': E.check('damping does not shrink after a poor step', l > prev[1]*0.9999)
            elif k == 1: E.check_eq('damped step', damp(m, h, lam, dim) @ d, g, tol=1e-6)
            gain = es[base]-es[k]
            if es[base] < es[k]: prev = ('rejected', l); continue
            if gain < tol: base = k; break
            if dim == 1:
                p = 0.5*g[0]*d[0]; prev = ('good', l) if gain > p else ('poor', l) if gain < 0.2*p else ('fair', l)
            base = k
        E.check('iterations performed are reported', n == k)
        E.check('stops when converged or out of budget', seen == k+1)
        E.check_same('ends at the last improving state', E.call('u_state', out=dim), vis(base))
        E.check('error never above the initial one', es[base] <= es[0])
for m, mn in ((1, 'spherical'), (2, 'ellipsoidal')):
    marquardt(m, 1, 1, mn + '_one', max_paths=40)
    marquardt(m, 1, 2, mn + '_two', max_paths=150, cost=3)
    marquardt(m, 1, 3, mn + '_three', max_paths=400, cost=8, time=60)
    marquardt(m, 2, 1, mn + '_two_dims', max_paths=60, cost=3)

@harness(max_paths=40, cost=2)
def defaults(E):
    """default budget and damping of solve; a solved problem can be solved again with another method"""
    x = E.reals('x', 1, -5, 5); es, gs, hs = problem(E, 1, 3, 1e-4, x)
    for g in gs: E.assume(Or(g[0] > 0.01, g[0] < -0.01))
    E.assume(es[0]-es[1] > 1.0); E.assume(And(es[1]-es[2] < 1e-5, es[1] >= es[2]))
    n = E.call('u_solve_def', choose(E, 'method', 3))
    E.check('two iterations', n == 2)
    y = E.call('u_state', out=1)
    E.check_same('second state', y, E.call('u_visit', 2, out=1))
    d = x-E.call('u_visit', 1, out=1)
    E.check_close('nearly undamped first step', (hs[0] @ d), gs[0], 1e-2)
