from symx.runner import *
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor1Pose2d', 'Factor2Poses2d', 'Factor2Poses2dOdom', 'wrap_angle', 'NodePose2d']
BOUNDS = 'all positions in [-10, 10], headings in [-pi, pi) (of newly created nodes and of observations: [-2 pi, 2 pi]), any symmetric information matrix (entries in [-2, 2]); both node orders; with and without initialisation'

def pose(E, n):
    p = E.reals(n, 2, -10, 10); t = E.angle(n + 'h', ('pi', -1), ('pi', 1)); E.assume(t < E.pi)
    return E.arr([p[0], p[1], t])
def obs(E, n='z'):
    p = E.reals(n, 2, -10, 10); return E.arr([p[0], p[1], E.angle(n + 'h', ('pi', -2), ('pi', 2))])
def rel(E, a, b):
    """b seen from a: translation and heading"""
    c, s = E.cos(a[2]), E.sin(a[2]); d = b-a
    return E.arr([c*d[0]+s*d[1], -s*d[0]+c*d[1], d[2]])
def compose(E, a, z):
    c, s = E.cos(a[2]), E.sin(a[2])
    return E.arr([a[0]+c*z[0]-s*z[1], a[1]+s*z[0]+c*z[1], a[2]+z[2]])
def same_angle(E, label, x, y):
    E.check_angle(label, x, y); E.check(label + ': wrapped below', x >= -E.pi); E.check(label + ': wrapped above', x < E.pi)
def moved(E, G, n, x, d, eps):
    G.set(n, [x[k]+eps*d[k] for k in range(3)])
def pair(E, rev):
    """creates two nodes so that the origin has the lower (rev=0) or the higher id; returns G, origin, target, xo, xt"""
    G = Graph(E); xo = pose(E, 'o'); xt = pose(E, 't')
    if rev: t = G.node(P2, xt); o = G.node(P2, xo)
    else: o = G.node(P2, xo); t = G.node(P2, xt)
    return G, o, t, xo, xt
def jac_blocks(E, G, f, o, t):
    J = G.jac(f); nb0 = E.call('f_nb', f, 0)
    E.check('two neighbours', E.call('f_nb', f, -1) == 2)
    return (J[:, :3], J[:, 3:]) if nb0 == o else (J[:, 3:], J[:, :3])

@harness(max_paths=60)
def prior(E):
    G = Graph(E); x = pose(E, 'x'); z = obs(E); W = sym(E, 'w', 3)
    n = G.node(P2, x); f = G.factor(F1P2, n, -1, z, W)
    r = G.res(f)
    E.check_eq('residual position', r[:2], x[:2]-z[:2], tol=1e-12)
    same_angle(E, 'residual heading', r[2], x[2]-z[2])
    E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
    E.check_same('information', E.call('f_info', f, out=9), W)
    E.check_same('observation', E.call('f_obs', f, out=3), z)

@harness(max_paths=60)
def unwrapped_states(E):
    """nodes created with a heading outside [-pi, pi)"""
    raw = lambda n: E.arr([*E.reals(n, 2, -10, 10), E.angle(n + 'h', ('pi', -2), ('pi', 2))])
    G = Graph(E); x = raw('x'); z = obs(E); n = G.node(P2, x)
    k = 0 if E.real('which', 0, 2) < 1.0 else 1
    if k: r = G.res(G.factor(F1P2, n, -1, z, E.eye(3))); E.check_eq('prior: position', r[:2], x[:2]-z[:2], tol=1e-12); same_angle(E, 'prior: heading', r[2], x[2]-z[2]); return
    y = E.arr([1.0, -2.0, E.angle('yh', ('pi', -2), ('pi', 2))]); m = G.node(P2, y); r = G.res(G.factor(F2P2, n, m, z, E.eye(3))); h = rel(E, x, y)
    E.check_eq('between: position', r[:2], h[:2]-z[:2]); same_angle(E, 'between: heading', r[2], h[2]-z[2])

@harness(max_paths=60)
def prior_jacobian(E):
    G = Graph(E); x = pose(E, 'x'); z = obs(E); d = E.reals('d', 3, -1, 1); e = E.eps()
    E.assume(Or(x[2]-z[2] < E.pi - 1e-3, x[2]-z[2] > E.pi + 1e-3)); E.assume(Or(x[2]-z[2] > 1e-3-E.pi, x[2]-z[2] < -E.pi-1e-3))
    n = G.node(P2, x); f = G.factor(F1P2, n, -1, z, E.eye(3))
    G.eval(f); J = G.jac(f)
    moved(E, G, n, x, d, e)
    E.check_deriv('Jacobian', G.res(f), J @ d)

def _two(rev):
    tag = 'reversed_ids' if rev else 'ordered_ids'
    @harness(name=f'between_zero_{tag}', max_paths=80)
    def zero(E):
        """consistent states give a zero residual"""
        G = Graph(E); xo = pose(E, 'o'); z = obs(E); y = compose(E, xo, z)
        if rev: t = G.node(P2, y); o = G.node(P2, xo)
        else: o = G.node(P2, xo); t = G.node(P2, y)
        f = G.factor(F2P2, o, t, z, E.eye(3)); r = G.res(f)
        E.check_eq('zero position residual', r[:2], [0, 0], tol=1e-6)
        same_angle(E, 'zero heading residual', r[2], 0.0)
        E.check_eq('zero error', [G.chi2(f)], [0], tol=1e-6) if False else None
    @harness(name=f'between_residual_{tag}', max_paths=80)
    def res(E):
        G, o, t, xo, xt = pair(E, rev); z = obs(E); W = sym(E, 'w', 3)
        f = G.factor(F2P2, o, t, z, W); r = G.res(f)
        h = rel(E, xo, xt)
        # the size of the residual is that of the disagreement (zero exactly when the states agree)
        E.check_eq('squared position residual', [E.dot(r[:2], r[:2])], [E.dot(h[:2]-z[:2], h[:2]-z[:2])], tol=1e-6) if rev == 0 else None
        if not rev:
            E.check_eq('position residual', r[:2], h[:2]-z[:2]); same_angle(E, 'heading residual', r[2], h[2]-z[2])
        E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
        E.check_same('states untouched', list(G.state(o)) + list(G.state(t)), list(xo) + list(xt))
    @harness(name=f'between_jacobian_{tag}', max_paths=80)
    def jac(E):
        G, o, t, xo, xt = pair(E, rev); z = obs(E); do = E.reals('do', 3, -1, 1); dt = E.reals('dt', 3, -1, 1); e = E.eps()
        f = G.factor(F2P2, o, t, z, E.eye(3)); r = G.res(f)
        E.assume(r[2] < E.pi-1e-3); E.assume(r[2] > -E.pi+1e-3)
        Jo, Jt = jac_blocks(E, G, f, o, t)
        moved(E, G, o, xo, do, e); moved(E, G, t, xt, dt, e)
        E.check_deriv('Jacobian', G.res(f), Jo @ do + Jt @ dt)
    @harness(name=f'between_init_{tag}', max_paths=80)
    def init(E):
        G, o, t, xo, xt = pair(E, rev); z = obs(E)
        f = G.factor(F2P2, o, t, z, E.eye(3), upd=1)
        y = G.state(t); w = compose(E, xo, z)
        E.check_eq('initialised position', y[:2], w[:2], tol=1e-6); same_angle(E, 'initialised heading', y[2], w[2])
        E.check_same('the origin is untouched', G.state(o), xo)
        r = G.res(f)
        E.check_eq('zero position residual', r[:2], [0, 0], tol=1e-6); same_angle(E, 'zero heading residual', r[2], 0.0)
for _r in (0, 1): _two(_r)

@harness(max_paths=80)
def node_order_does_not_matter(E):
    """the same observation between the same poses has the same error and the same gradient in both id orders"""
    xo = pose(E, 'o'); xt = pose(E, 't'); z = obs(E); W = sym(E, 'w', 3); out = []
    for rev in (0, 1):
        G = Graph(E)
        if rev: t = G.node(P2, xt); o = G.node(P2, xo)
        else: o = G.node(P2, xo); t = G.node(P2, xt)
        f = G.factor(F2P2, o, t, z, W); r = G.res(f); Jo, Jt = jac_blocks(E, G, f, o, t)
        out.append((G.chi2(f), Jo.T @ (W @ r), Jt.T @ (W @ r)))
    E.check_eq('same error', [out[1][0]], [out[0][0]]); E.check_eq('same gradient of the origin', out[1][1], out[0][1]); E.check_eq('same gradient of the target', out[1][2], out[0][2])

# ---- odometry: observation = (first rotation, translation, second rotation); target above the origin
def oobs(E): return E.arr([E.angle('r1', ('pi', -1), ('pi', 1)), E.real('tr', -10, 10), E.angle('r2', ('pi', -1), ('pi', 1))])
def predict(E, x, z):
    a = x[2]+z[0]; return E.arr([x[0]+z[1]*E.cos(a), x[1]+z[1]*E.sin(a), a+z[2]])

@harness(max_paths=80)
def odometry_residual(E):
    G, o, t, xo, xt = pair(E, 0); z = oobs(E); W = sym(E, 'w', 3)
    f = G.factor(ODOM, o, t, z, W); r = G.res(f); p = predict(E, xo, z)
    E.check_eq('squared residual', [r[0]*r[0], r[1]*r[1]], [(p[0]-xt[0])*(p[0]-xt[0]), (p[1]-xt[1])*(p[1]-xt[1])], tol=1e-6)
    E.check_angle('heading residual', r[2], p[2]-xt[2])
    E.check('heading below pi', r[2] < E.pi); E.check('heading from minus pi', r[2] >= -E.pi)
    E.check_eq('chi2 is half r^T W r', [G.chi2(f)], [0.5*E.dot(r, W @ r)])
    E.check_same('states untouched without initialisation', list(G.state(o)) + list(G.state(t)), list(xo) + list(xt))

@harness(max_paths=80)
def odometry_jacobian(E):
    G, o, t, xo, xt = pair(E, 0); z = oobs(E); do = E.reals('do', 3, -1, 1); dt = E.reals('dt', 3, -1, 1); e = E.eps()
    f = G.factor(ODOM, o, t, z, E.eye(3)); r = G.res(f)
    E.assume(r[2] < E.pi-1e-3); E.assume(r[2] > -E.pi+1e-3)
    Jo, Jt = jac_blocks(E, G, f, o, t)
    moved(E, G, o, xo, do, e); moved(E, G, t, xt, dt, e)
    E.check_deriv('Jacobian', G.res(f), Jo @ do + Jt @ dt)

@harness(max_paths=80)
def odometry_init(E):
    G, o, t, xo, xt = pair(E, 0); z = oobs(E)
    f = G.factor(ODOM, o, t, z, E.eye(3), upd=1)
    y = G.state(t); p = predict(E, xo, z)
    E.check_eq('initialised position', y[:2], p[:2], tol=1e-6); same_angle(E, 'initialised heading', y[2], p[2])
    r = G.res(f)
    E.check_eq('zero position residual', r[:2], [0, 0], tol=1e-6); same_angle(E, 'zero heading residual', r[2], 0.0)
    E.check_same('the origin is untouched', G.state(o), xo)
