from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor1Pose3d', 'Factor2Poses3d', 'NodePose3d', 'SE3::ln_vee', 'SE3::adj']
BOUNDS = 'all poses and observations (relative error rotation: any axis, angle in (0.01, 3.1), and pure rotations and translations from 1e-6 up; plus exactly zero error; translations in [-10, 10]); both node orders; both constructors; any symmetric information matrix; Jacobian derivative at zero residual for every update direction'

def vln(E, u, o, t):
    """translation part v of the logarithm of (exp(o u), t), scaled: o V v = o t"""
    pass
def turn(E, n, lo, hi):
    """a pure rotation by a small angle about any axis"""
    w = E.unit(n + 'u', 3); o = E.angle(n + 'o', lo, hi, gen=lambda r: r.uniform(lo, hi))
    return E.mat4(E.rodrigues(w, E.sin(o), E.cos(o)), E.zeros(3)), w, o
SMALL = [(2**-6, 2**-3), (2**-9, 2**-6), (2**-12, 2**-9), (2**-16, 2**-12), (2**-25, 2**-16)]
def axis_pose(E, n, lo=0.01):
    w = E.unit(n + 'u', 3); o = E.angle(n + 'o', lo, 3.1, gen=lambda r: r.uniform(0.2, 3))
    return E.mat4(E.rodrigues(w, E.sin(o), E.cos(o)), E.reals(n + 't', 3, -10, 10)), w, o
def check_ln(E, label, r, u, o, t, sign=1, small=False):
    """r is the logarithm of (exp(o u), t)"""
    w, v = sign*r[:3], sign*r[3:6]; U = E.hat(u)
    if small: E.check_close(label + ': rotation part', w, o*u, tol=1e-10); E.check_close(label + ': translation part', v, t, tol=1e-9); return
    E.check_eq(label + ': rotation part', w, o*u, tol=1e-6)
    E.check_eq(label + ': translation part', o*v + (1-E.cos(o))*(U @ v) + (o-E.sin(o))*(U @ (U @ v)), o*t, tol=1e-5)
def nodes(E, G, rev, xo, xt, to=P3, tt=P3):
    if rev: t = G.node(tt, xt); o = G.node(to, xo)
    else: o = G.node(to, xo); t = G.node(tt, xt)
    return o, t
def blocks(E, G, f, o):
    J = G.jac(f); E.check('two neighbours', E.call('f_nb', f, -1) == 2)
    return (J[:, :6], J[:, 6:]) if E.call('f_nb', f, 0) == o else (J[:, 6:], J[:, :6])
def adj(E, T):
    A = E.zeros(6, 6); R = T[:3, :3]; A[:3, :3] = R; A[3:, 3:] = R; A[3:, :3] = E.hat(T[:3, 3]) @ R; return A
def perturb(E, G, i, T, d, e): H = e*E.hat6(d); G.set(i, (E.eye(4) + H + 0.5*(H @ H)) @ T)

def _prior(t, name):
    @harness(name=f'{name}_residual', max_paths=30, cost=2)
    def h(E):
        """state = error * observation, for any error: residual = ln(error)"""
        G = Graph(E); X, u, o = axis_pose(E, 'x'); Z = E.pose('z', -10, 10)
        n = G.node(P3, X @ Z); f = G.factor(t, n, -1, Z, E.eye(6)); r = G.res(f)
        check_ln(E, 'residual', r, u, o, X[:3, 3])
        E.check_eq('reported Jacobian', G.jac(f), E.eye(6))
    @harness(name=f'{name}_small', max_paths=60, cost=2)
    def sm(E):
        lo, hi = SMALL[choose(E, 'range', len(SMALL))]
        G = Graph(E); X, u, o = turn(E, 'x', lo, hi); Z = E.pose('z', -10, 10)
        n = G.node(P3, X @ Z); f = G.factor(t, n, -1, Z, E.eye(6)); check_ln(E, 'residual', G.res(f), u, o, X[:3, 3], small=True)
        E.check_eq('reported Jacobian', G.jac(f), E.eye(6))
    @harness(name=f'{name}_zero', max_paths=30)
    def z(E):
        G = Graph(E); Z = E.pose('z', -10, 10); p = E.reals('p', 3, -10, 10); T = E.mat4(E.eye(3), p); d = E.reals('d', 6, -1, 1); e = E.eps()
        n = G.node(P3, Z); f = G.factor(t, n, -1, Z, E.eye(6)); r = G.res(f)
        E.check_eq('zero residual', r, [0]*6, tol=1e-7)
        E.check_eq('zero error', [G.chi2(f)], [0])
        J = G.jac(f); perturb(E, G, n, Z, d, e)
        E.check_deriv('Jacobian at zero residual', G.res(f), J @ d)
        G.set(n, T @ Z)
        E.check_eq('translation error', G.res(f), [0, 0, 0, *p], tol=1e-6)
    @harness(name=f'{name}_error', max_paths=30)
    def w(E):
        G = Graph(E); Z = E.mat4(E.eye(3), E.reals('z', 3, -10, 10)); X = E.mat4(E.eye(3), E.reals('x', 3, -10, 10)); W = sym(E, 'w', 6)
        n = G.node(P3, X); f = G.factor(t, n, -1, Z, W); r = G.res(f)
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_same('information', E.call('f_info', f, out=36), W); E.check_same('state untouched', G.state(n), X)
for _t, _n in ((F1P3, 'prior'), (F1P3S, 'prior_se3')): _prior(_t, _n)

def _two(t, rev, name):
    @harness(name=f'{name}_residual', max_paths=30, cost=3)
    def h(E):
        """target = inverse(error) origin observation: residual = +-ln(error)"""
        G = Graph(E); X, u, o = axis_pose(E, 'x'); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10)
        on, tn = nodes(E, G, rev, O, E.inv4(X) @ O @ Z); f = G.factor(t, on, tn, Z, E.eye(6)); r = G.res(f)
        s = -1 if rev else 1
        check_ln(E, 'residual', r, u, o, X[:3, 3], s)
    @harness(name=f'{name}_jacobian_form', max_paths=30, cost=3)
    def jf(E):
        G = Graph(E); X, u, o = axis_pose(E, 'x'); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10)
        on, tn = nodes(E, G, rev, O, E.inv4(X) @ O @ Z); f = G.factor(t, on, tn, Z, E.eye(6)); G.eval(f)
        Jo, Jt = blocks(E, G, f, on)
        if rev: E.check_eq('target block', Jt, E.eye(6)); E.check_eq('origin block', Jo, -adj(E, E.inv4(X)))
        else: E.check_eq('origin block', Jo, E.eye(6)); E.check_eq('target block', Jt, -adj(E, X))
    @harness(name=f'{name}_small', max_paths=60, cost=3)
    def sm(E):
        """small relative rotations: the same residual and Jacobian as large ones"""
        lo, hi = SMALL[choose(E, 'range', len(SMALL))]
        G = Graph(E); X, u, o = turn(E, 'x', lo, hi); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10)
        on, tn = nodes(E, G, rev, O, E.inv4(X) @ O @ Z); f = G.factor(t, on, tn, Z, E.eye(6)); r = G.res(f)
        check_ln(E, 'residual', r, u, o, X[:3, 3], -1 if rev else 1, small=True)
        Jo, Jt = blocks(E, G, f, on)
        if rev: E.check_eq('target block', Jt, E.eye(6)); E.check_eq('origin block', Jo, -adj(E, E.inv4(X)))
        else: E.check_eq('origin block', Jo, E.eye(6)); E.check_eq('target block', Jt, -adj(E, X))
    @harness(name=f'{name}_small_shift', max_paths=60, cost=3)
    def ss(E):
        """small relative translations"""
        b = [2**-3, 2**-6, 2**-10, 2**-14, 2**-20][choose(E, 'range', 5)]
        G = Graph(E); p = E.reals('p', 3, -b, b); X = E.mat4(E.eye(3), p); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10)
        on, tn = nodes(E, G, rev, O, E.inv4(X) @ O @ Z); f = G.factor(t, on, tn, Z, E.eye(6)); r = G.res(f)
        E.check_eq('residual', (-1 if rev else 1)*r, [0, 0, 0, *p], tol=1e-7*b)
        Jo, Jt = blocks(E, G, f, on)
        if rev: E.check_eq('target block', Jt, E.eye(6), tol=1e-7*b); E.check_eq('origin block', Jo, -adj(E, E.inv4(X)), tol=1e-7*b)
        else: E.check_eq('origin block', Jo, E.eye(6), tol=1e-7*b); E.check_eq('target block', Jt, -adj(E, X), tol=1e-7*b)
    @harness(name=f'{name}_zero', max_paths=30, cost=2)
    def z(E):
        G = Graph(E); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10); d = E.reals('d', 6, -1, 1); c = E.reals('c', 6, -1, 1); e = E.eps(); T = O @ Z
        on, tn = nodes(E, G, rev, O, T); f = G.factor(t, on, tn, Z, E.eye(6)); r = G.res(f)
        E.check_eq('zero residual', r, [0]*6, tol=1e-6)
        E.check_eq('zero error', [G.chi2(f)], [0])
        Jo, Jt = blocks(E, G, f, on)
        perturb(E, G, on, O, d, e); perturb(E, G, tn, T, c, e)
        E.check_deriv('Jacobian at zero residual', G.res(f), Jo @ d + Jt @ c)
    @harness(name=f'{name}_init', max_paths=30, cost=2)
    def i(E):
        G = Graph(E); Z = E.pose('z', -10, 10); O = E.pose('o', -10, 10); T = E.pose('t', -10, 10)
        on, tn = nodes(E, G, rev, O, T); f = G.factor(t, on, tn, Z, E.eye(6), upd=1)
        E.check_eq('initialised target', G.state(tn), O @ Z, tol=1e-6)
        E.check_same('origin untouched', G.state(on), O)
        E.check_eq('zero residual', G.res(f), [0]*6, tol=1e-6)
    @harness(name=f'{name}_error', max_paths=30)
    def w(E):
        G = Graph(E); I = E.eye(3); Z = E.mat4(I, E.reals('z', 3, -10, 10)); O = E.mat4(I, E.reals('o', 3, -10, 10)); T = E.mat4(I, E.reals('t', 3, -10, 10)); W = sym(E, 'w', 6)
        on, tn = nodes(E, G, rev, O, T); f = G.factor(t, on, tn, Z, W); r = G.res(f)
        q = O[:3, 3]+Z[:3, 3]-T[:3, 3]; E.check_eq('translation residual', (-1 if rev else 1)*r, [0, 0, 0, *q])
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_eq('same error in either order', [G.chi2(f)], [0.5*E.dot(q, W[3:, 3:] @ q)])
        E.check_same('states untouched', list(G.state(on).ravel()) + list(G.state(tn).ravel()), list(O.ravel()) + list(T.ravel()))
for _t, _n in ((F2P3, 'between'), (F2P3S, 'between_se3')):
    for _r in (0, 1): _two(_t, _r, _n + ('_reversed_ids' if _r else '_ordered_ids'))
