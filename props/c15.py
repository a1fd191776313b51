from symx.runner import *
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor1Pose1Landmark2d', 'Factor1Pose1Landmark3d', 'NodeLandmark2d', 'NodeLandmark3d', 'wrap_angle']
BOUNDS = 'all poses and landmarks with coordinates in [-10, 10] (2D landmark at least 0.01 from the sensor, and exactly at it), observed range in [0.01, 20], bearings and headings in [-pi, pi]; both node orders; with and without initialisation; any symmetric information matrix'

def place(E, rev, tp, xp, tl, xl):
    G = Graph(E)
    if rev: l = G.node(tl, xl); p = G.node(tp, xp)
    else: p = G.node(tp, xp); l = G.node(tl, xl)
    return G, p, l
def blocks(E, G, f, p, n):
    J = G.jac(f); E.check('two neighbours', E.call('f_nb', f, -1) == 2)
    if E.call('f_nb', f, 0) == p: return J[:, :n], J[:, n:]
    k = J.shape[1]-n; return J[:, k:], J[:, :k]
def pose2(E, n='x'):
    p = E.reals(n, 2, -10, 10); t = E.angle(n + 'h', ('pi', -1), ('pi', 1)); E.assume(t < E.pi)
    return E.arr([p[0], p[1], t])
def same_angle(E, label, x, y):
    E.check_angle(label, x, y); E.check(label + ': wrapped below', x >= -E.pi); E.check(label + ': wrapped above', x < E.pi)

def _l2(rev, tag):
    @harness(name=f'range_bearing_residual_{tag}', max_paths=60)
    def res(E):
        """landmark written from its true range and bearing: all landmarks off the sensor"""
        x = pose2(E); d = E.real('d', 0.01, 20); b = E.angle('b', ('pi', -1), ('pi', 1)); z0 = E.real('z0', 0.01, 20); zb = E.angle('zb', ('pi', -1), ('pi', 1)); W = sym(E, 'w', 2)
        a = b + x[2]
        G, p, l = place(E, rev, P2, x, L2, [x[0]+d*E.cos(a), x[1]+d*E.sin(a)])
        f = G.factor(FL2, p, l, [z0, zb], W); r = G.res(f)
        E.check_eq('range residual', [r[0]], [d-z0], tol=1e-6)
        same_angle(E, 'bearing residual', r[1], b-zb)
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_same('information', E.call('f_info', f, out=4), W); E.check_same('pose untouched', G.state(p), x)
    @harness(name=f'range_bearing_jacobian_{tag}', max_paths=60)
    def jac(E):
        x = pose2(E); m = E.reals('m', 2, -10, 10); z = E.arr([E.real('z0', 0.01, 20), E.angle('zb', ('pi', -1), ('pi', 1))])
        dp = E.reals('dp', 3, -1, 1); dl = E.reals('dl', 2, -1, 1); e = E.eps()
        v = m-x[:2]; E.assume(E.dot(v, v) > 0.0001)
        G, p, l = place(E, rev, P2, x, L2, m)
        f = G.factor(FL2, p, l, z, E.eye(2)); r = G.res(f)
        E.assume(r[1] < E.pi-1e-3); E.assume(r[1] > -E.pi+1e-3)
        Jp, Jl = blocks(E, G, f, p, 3)
        G.set(p, [x[k]+e*dp[k] for k in range(3)]); G.set(l, [m[k]+e*dl[k] for k in range(2)])
        E.check_deriv('Jacobian', G.res(f), Jp @ dp + Jl @ dl)
    @harness(name=f'range_bearing_init_{tag}', max_paths=60)
    def init(E):
        x = pose2(E); z0 = E.real('z0', 0.01, 20); zb = E.angle('zb', ('pi', -1), ('pi', 1)); m = E.reals('m', 2, -10, 10)
        G, p, l = place(E, rev, P2, x, L2, m)
        f = G.factor(FL2, p, l, [z0, zb], E.eye(2), upd=1)
        a = x[2]+zb
        E.check_eq('initialised landmark', G.state(l), [x[0]+z0*E.cos(a), x[1]+z0*E.sin(a)])
        r = G.res(f)
        E.check_eq('zero range residual', [r[0]], [0], tol=1e-6); same_angle(E, 'zero bearing residual', r[1], 0.0)
        E.check_same('pose untouched', G.state(p), x)
    @harness(name=f'range_bearing_at_sensor_{tag}')
    def sing(E):
        """landmark exactly at the sensor: undefined bearing, the residual and Jacobian stay finite and the graph usable"""
        x = pose2(E); z = E.arr([E.real('z0', 0.01, 20), E.angle('zb', ('pi', -1), ('pi', 1))])
        G, p, l = place(E, rev, P2, x, L2, x[:2])
        f = G.factor(FL2, p, l, z, E.eye(2)); r = G.res(f)
        E.check_same('no residual', r, [0, 0])
        E.check('finite Jacobian', And(*[j == j if not isinstance(j, Sym) else True for j in G.jac(f).ravel()]))
    @harness(name=f'point_residual_{tag}')
    def res3(E):
        X = E.pose('x', -10, 10); m = E.reals('m', 3, -10, 10); z = E.reals('z', 3, -10, 10); W = sym(E, 'w', 3)
        G, p, l = place(E, rev, P3, X, L3, m)
        f = G.factor(FL3, p, l, z, W); r = G.res(f); R, t = X[:3, :3], X[:3, 3]
        E.check_eq('residual', r, R.T @ (m-t) - z, tol=1e-6)
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_same('information', E.call('f_info', f, out=9), W); E.check_same('states untouched', list(G.state(p).ravel()) + list(G.state(l)), list(X.ravel()) + list(m))
    @harness(name=f'point_jacobian_{tag}')
    def jac3(E):
        X = E.pose('x', -10, 10); m = E.reals('m', 3, -10, 10); z = E.reals('z', 3, -10, 10); d = E.reals('d', 6, -1, 1); c = E.reals('c', 3, -1, 1); e = E.eps()
        G, p, l = place(E, rev, P3, X, L3, m)
        f = G.factor(FL3, p, l, z, E.eye(3)); G.eval(f); Jp, Jl = blocks(E, G, f, p, 6)
        H = e*E.hat6(d)
        G.set(p, (E.eye(4) + H + 0.5*(H @ H)) @ X); G.set(l, [m[k]+e*c[k] for k in range(3)])
        E.check_deriv('Jacobian', G.res(f), Jp @ d + Jl @ c)
    @harness(name=f'point_init_{tag}')
    def init3(E):
        X = E.pose('x', -10, 10); m = E.reals('m', 3, -10, 10); z = E.reals('z', 3, -10, 10)
        G, p, l = place(E, rev, P3, X, L3, m)
        f = G.factor(FL3, p, l, z, E.eye(3), upd=1)
        E.check_eq('initialised landmark', G.state(l), X[:3, :3] @ z + X[:3, 3], tol=1e-6)
        E.check_eq('zero residual', G.res(f), [0, 0, 0], tol=1e-6)
        E.check_same('pose untouched', G.state(p), X)
for _r, _n in ((0, 'ordered_ids'), (1, 'reversed_ids')): _l2(_r, _n)
