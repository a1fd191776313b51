from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['NodePose2d', 'NodePose3d', 'NodeLandmark2d', 'NodeLandmark3d', 'NodePlane4d', 'set_state', 'set_auxiliary_state', 'update', 'update_from_auxiliary']
BOUNDS = 'every node type; vector states and increments in [-10, 10], headings and heading increments in [-pi, pi) resp. [-3 pi, 3 pi]; 3D increments of any direction with angle in (0.1, 3.1) or zero rotation; plane normals of any non-zero length; sequences of up to three operations'

def _wrapped(E, label, x, y):
    E.check_angle(label, x, y)
    E.check(label + ' is at least -pi', x >= -E.pi)
    E.check(label + ' is below pi', x < E.pi)

@harness(max_paths=40)
def pose2d(E):
    G = Graph(E); x = E.reals('x', 2, -10, 10); th = E.angle('th', ('pi', -1), ('pi', 1)); E.assume(th < E.pi); d = E.reals('d', 2, -10, 10); dt = E.angle('dt', ('pi', -3), ('pi', 3))
    n = G.node(P2, [x[0], x[1], th])
    E.check_same('initial state', G.state(n), [x[0], x[1], th])
    E.check_same('initial stored state', G.aux(n), [x[0], x[1], th])
    G.update(n, [d[0], d[1], dt])
    s = G.state(n)
    E.check_eq('position update', s[:2], x+d, tol=1e-12)
    _wrapped(E, 'heading', s[2], th+dt)
    E.check_same('update does not touch the stored state', G.aux(n), [x[0], x[1], th])

@harness(max_paths=40)
def pose2d_from_auxiliary(E):
    G = Graph(E); a = E.reals('a', 2, -10, 10); ta = E.angle('ta', ('pi', -1), ('pi', 1)); E.assume(ta < E.pi); x = E.reals('x', 3, -3, 3)
    d = E.reals('d', 2, -10, 10); dt = E.angle('dt', ('pi', -1), ('pi', 1))
    n = G.node(P2, x)
    E.call('n_set_aux', n, 3, 1, [a[0], a[1], ta])
    E.check_same('storing does not move the node', G.state(n), x)
    G.update_aux(n, [d[0], d[1], dt])
    s = G.state(n)
    E.check_eq('position from stored', s[:2], a+d, tol=1e-12)
    _wrapped(E, 'heading from stored', s[2], ta+dt)
    E.check_same('stored state kept', G.aux(n), [a[0], a[1], ta])

@harness(max_paths=60)
def pose2d_set_headings(E):
    """states and stored states set with a heading outside the range keep its direction, wrapped"""
    G = Graph(E); n = G.node(P2, [0.0, 0.0, 0.0]); p = E.reals('p', 2, -10, 10); h = E.angle('h', ('pi', -2), ('pi', 2))
    k = choose(E, 'which', 2)
    if k: E.call('n_set_aux', n, 3, 1, [p[0], p[1], h]); s = G.aux(n)
    else: G.set(n, [p[0], p[1], h]); s = G.state(n)
    E.check_same('position', s[:2], p); E.check_angle('heading', s[2], h); E.check('heading in range', And(s[2] >= -E.pi, s[2] < E.pi))

def _vec(t, name):
    n = NDIM[t]
    @harness(name=f'{name}_updates')
    def h(E):
        G = Graph(E); x = E.reals('x', n, -10, 10); d = E.reals('d', n, -10, 10); e = E.reals('e', n, -10, 10); a = E.reals('a', n, -10, 10)
        i = G.node(t, x)
        E.check_same('initial state', G.state(i), x); E.check_same('initial stored state', G.aux(i), x)
        G.update(i, d); E.check_eq('sum', G.state(i), x+d, tol=1e-12); E.check_same('stored untouched', G.aux(i), x)
        G.update(i, e); E.check_eq('two updates', G.state(i), x+d+e, tol=1e-12)
        E.call('n_set_aux', i, n, 1, a); G.update_aux(i, d)
        E.check_eq('from stored', G.state(i), a+d, tol=1e-12); E.check_same('stored kept', G.aux(i), a)
        E.call('n_restore', i); E.check_same('restored', G.state(i), a)
for _t, _n in ((L2, 'landmark2d'), (L3, 'landmark3d')): _vec(_t, _n)

def _undo(t, name):
    @harness(name=f'{name}_undo', max_paths=60)
    def h(E):
        """store, update (twice), restore: bit for bit the same state"""
        G = Graph(E)
        if NSTATE[t] == 16: x = E.pose('x')
        elif t == P2:
            x = E.arr(list(E.reals('x', 2, -10, 10)) + [E.angle('th', ('pi', -1), ('pi', 1))]); E.assume(x[2] < E.pi)
        else: x = E.reals('x', NSTATE[t], -10, 10)
        if t == PL: E.assume(E.dot(x[:3], x[:3]) > 0.01)
        i = G.node(t, x); s0 = G.state(i)
        E.call('n_store', i)
        E.check_same('stored equals the state', G.aux(i), s0)
        d = [E.real(f'd{k}', -1, 1) for k in range(NDIM[t])]
        if NSTATE[t] == 16: d = [0.0, 0.0, 0.0] + d[3:]
        G.update(i, d)
        E.check_same('stored survives the update', G.aux(i), s0)
        E.call('n_restore', i)
        E.check_same('restored exactly', G.state(i), s0)
        E.check_same('still stored', G.aux(i), s0)
for _t, _n in ((P2, 'pose2d'), (L2, 'landmark2d'), (L3, 'landmark3d'), (PL, 'plane4d'), (P3, 'pose3d'), (P3S, 'pose3d_from_se3')): _undo(_t, _n)

def _expinv(E, u, a, v):
    """exp of (a u, v) and its inverse"""
    R = E.rodrigues(u, E.sin(a), E.cos(a)); U = E.hat(u)
    V = E.eye(3) + (1-E.cos(a))/a*U + (a-E.sin(a))/a*(U @ U)
    X = E.mat4(R, V @ v); return X, E.inv4(X)

def _axis_pose(E, n):
    w = E.unit(n + 'u', 3); o = E.angle(n + 'o', 0.01, ('pi', 1), gen=lambda r: r.uniform(0.2, 3)); E.assume(o < 3.14159)
    return E.mat4(E.rodrigues(w, E.sin(o), E.cos(o)), E.reals(n + 't', 3, -10, 10))

def _pose3(t, name):
    # the pose to update is written inverse(exp(dx)) S: S ranges over all poses, so this does too
    @harness(name=f'{name}_left_update', max_paths=30, cost=3)
    def h(E):
        G = Graph(E); S = _axis_pose(E, 'S'); u = E.unit('u', 3); a = E.angle('a', 0.1, 3.1, div=2); v = E.reals('v', 3, -10, 10)
        X, Xi = _expinv(E, u, a, v); T = Xi @ S
        i = G.node(t, T)
        E.check_same('initial state', G.state(i), T); E.check_same('initial stored state', G.aux(i), T)
        G.update(i, list(a*u) + list(v))
        E.check_eq('exp(dx) T', G.state(i), S, tol=1e-6)
        E.check_same('stored untouched', G.aux(i), T)
    @harness(name=f'{name}_from_auxiliary', max_paths=30, cost=3)
    def h2(E):
        G = Graph(E); S = _axis_pose(E, 'S'); T = E.pose('T', -10, 10); u = E.unit('u', 3); a = E.angle('a', 0.1, 3.1, div=2); v = E.reals('v', 3, -10, 10)
        X, Xi = _expinv(E, u, a, v); A = Xi @ S
        i = G.node(t, T)
        E.call('n_set_aux', i, 4, 4, A)
        E.check_same('storing does not move the node', G.state(i), T)
        G.update_aux(i, list(a*u) + list(v))
        E.check_eq('exp(dx) Taux', G.state(i), S, tol=1e-6)
        E.check_same('stored kept', G.aux(i), A)
    @harness(name=f'{name}_translation_updates', max_paths=30)
    def h3(E):
        G = Graph(E); T = E.mat4(E.eye(3), E.reals('t', 3, -10, 10)); v = E.reals('v', 3, -10, 10); w = E.reals('w', 3, -10, 10); B = E.pose('B')
        i = G.node(t, T)
        G.update(i, [0.0, 0.0, 0.0] + list(v)); G.update(i, [0.0, 0.0, 0.0] + list(w))
        E.check_eq('two translations', G.state(i), E.mat4(E.eye(3), T[:3, 3]+v+w), tol=1e-9)
        G.set(i, B); E.check_same('set state', G.state(i), B); E.check_same('set state keeps the stored one', G.aux(i), T)
for _t, _n in ((P3, 'pose3d'), (P3S, 'pose3d_from_se3')): _pose3(_t, _n)

@harness()
def plane4d(E):
    G = Graph(E); k = E.real('k', 0.1, 10); w = E.unit('w', 3); x = E.arr([k*w[0], k*w[1], k*w[2], E.real('xd', -10, 10)]); d = E.reals('d', 4, -10, 10)
    def par(label, s, y):
        """s is y with its normal scaled to unit length"""
        E.check_eq(label + ': unit normal', [E.dot(s[:3], s[:3])], [1])
        E.check_eq(label + ': same direction', np.cross(s[:3], y[:3]), [0, 0, 0], tol=1e-6)
        E.check(label + ': same sense', E.dot(s[:3], y[:3]) > 0)
        E.check_same(label + ': distance', [s[3]], [y[3]])
    i = G.node(PL, x)
    s0 = G.state(i)
    par('initial', s0, x); E.check_same('initial stored', G.aux(i), s0)
    y = E.arr([s0[k]+d[k] for k in range(4)])
    E.assume(E.dot(y[:3], y[:3]) > 0.01)
    G.update(i, d)
    par('update', G.state(i), y); E.check_same('stored untouched', G.aux(i), s0)

@harness()
def plane4d_from_auxiliary(E):
    G = Graph(E); u = E.unit('u', 3); a = E.arr(list(u) + [E.real('ad', -10, 10)]); d = E.reals('d', 4, -10, 10)
    i = G.node(PL, [0.0, 0.0, 1.0, 1.0])
    E.call('n_set_aux', i, 4, 1, a)
    E.check_same('storing does not move the node', G.state(i), [0.0, 0.0, 1.0, 1.0])
    y = a+d
    E.assume(E.dot(y[:3], y[:3]) > 0.01)
    G.update_aux(i, d)
    s = G.state(i)
    E.check_eq('unit normal', [E.dot(s[:3], s[:3])], [1])
    E.check_eq('direction', np.cross(s[:3], y[:3]), [0, 0, 0], tol=1e-6)
    E.check('sense', E.dot(s[:3], y[:3]) > 0)
    E.check_eq('distance', [s[3]], [y[3]], tol=1e-12)
    E.check_same('stored kept', G.aux(i), a)
    G.set(i, a); E.check_same('set state', G.state(i), a)
