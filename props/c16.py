from symx.runner import *
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor1Pose1Plane4d', 'Factor1PosePoint2Plane', 'NodePlane4d']
BOUNDS = 'all poses, unit-normal planes with distance in [-10, 10], points in [-10, 10]^3; both node orders; both signs of the local distance'

def place(E, rev, X, pl):
    G = Graph(E)
    if rev: l = G.node(PL, pl); p = G.node(P3, X)
    else: p = G.node(P3, X); l = G.node(PL, pl)
    return G, p, l
def plane(E, n):
    u = E.unit(n, 3); return E.arr(list(u) + [E.real(n + 'd', -10, 10)])
def blocks(E, G, f, p):
    J = G.jac(f); E.check('two neighbours', E.call('f_nb', f, -1) == 2)
    return (J[:, :6], J[:, 6:]) if E.call('f_nb', f, 0) == p else (J[:, 4:], J[:, :4])

def _pl(rev, tag):
    @harness(name=f'plane_residual_{tag}')
    def res(E):
        X = E.pose('x', -10, 10); pl = plane(E, 'n'); z = plane(E, 'z'); W = sym(E, 'w', 4)
        G, p, l = place(E, rev, X, pl); f = G.factor(FPL, p, l, z, W); r = G.res(f)
        loc = E.arr(list(X[:3, :3].T @ pl[:3]) + [E.dot(pl[:3], X[:3, 3]) + pl[3]])
        E.assume(Or(loc[3] > 1e-6, loc[3] < -1e-6))
        if loc[3] > 0: E.check_eq('observed minus expected plane', r, loc-z, tol=1e-6)
        else: E.check_eq('observed minus expected plane (opposite sense)', r, loc+z, tol=1e-6)
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_same('information', E.call('f_info', f, out=16), W)
    @harness(name=f'plane_zero_{tag}')
    def zero(E):
        """geometry and observation agree (the observed plane has non-negative distance): zero"""
        X = E.pose('x', -10, 10); u = E.unit('z', 3); dd = E.real('zd', 0.001, 10)
        n = X[:3, :3] @ u; pl = E.arr(list(n) + [dd - E.dot(n, X[:3, 3])]); k = E.real('k', 0.5, 2)
        for s in (1, -1):
            G, p, l = place(E, rev, X, s*pl); f = G.factor(FPL, p, l, [k*u[0], k*u[1], k*u[2], dd], E.eye(4))
            E.check_eq('zero residual', G.res(f), [0]*4, tol=1e-6)
    @harness(name=f'plane_jacobian_{tag}')
    def jac(E):
        X = E.pose('x', -10, 10); pl = plane(E, 'n'); z = plane(E, 'z'); d = E.reals('d', 6, -1, 1); c = E.reals('c', 4, -1, 1); e = E.eps()
        G, p, l = place(E, rev, X, pl); f = G.factor(FPL, p, l, z, E.eye(4))
        loc = E.dot(pl[:3], X[:3, 3]) + pl[3]; E.assume(Or(loc > 1e-3, loc < -1e-3))
        G.eval(f); Jp, Jl = blocks(E, G, f, p); H = e*E.hat6(d)
        G.set(p, (E.eye(4) + H + 0.5*(H @ H)) @ X); G.set(l, [pl[k]+e*c[k] for k in range(4)])
        E.check_deriv('Jacobian', G.res(f), Jp @ d + Jl @ c)
for _r, _n in ((0, 'ordered_ids'), (1, 'reversed_ids')): _pl(_r, _n)

@harness()
def point_to_plane_residual(E):
    X = E.pose('x', -10, 10); q = E.reals('q', 3, -10, 10); y = E.reals('y', 3, -10, 10); n = E.unit('n', 3); w = E.real('w', 0, 10)
    G = Graph(E); i = G.node(P3, X); f = G.factor(FPP, i, -1, [*q, *y, *n], [w]); r = G.res(f)
    E.check_eq('signed distance', r, [E.dot(n, X[:3, :3] @ q + X[:3, 3] - y)], tol=1e-6)
    E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*w*r[0]*r[0]])
    E.check_same('information', E.call('f_info', f, out=1), [w]); E.check_same('state untouched', G.state(i), X)

@harness()
def point_to_plane_jacobian(E):
    X = E.pose('x', -10, 10); q = E.reals('q', 3, -10, 10); y = E.reals('y', 3, -10, 10); n = E.reals('n', 3, -2, 2); d = E.reals('d', 6, -1, 1); e = E.eps()
    G = Graph(E); i = G.node(P3, X); f = G.factor(FPP, i, -1, [*q, *y, *n], [1.0]); G.eval(f); J = G.jac(f); H = e*E.hat6(d)
    G.set(i, (E.eye(4) + H + 0.5*(H @ H)) @ X)
    E.check_deriv('Jacobian', G.res(f), J @ d)
