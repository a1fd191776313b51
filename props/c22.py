from symx.runner import *
from props.graphlib import *
from props.c18 import choose, robust_w
from props.c20 import normal, blocks
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['FGraphSolveDense::calculate_gradient_hessian', 'FGraphSolveDense::calculate_error', 'FGraphSolveDense::update_state', 'FGraphSolveDense::bookkeep_state', 'FGraphSolveDense::update_state_from_bookkeep', 'OptimizerDense::optimize_newton_raphson_one_iteration']
BOUNDS = 'graphs of 1 to 3 nodes (sizes 2, 3, 6) with unary, binary and ternary factors, any one node anchored or none; observations, states in [-5, 5]; Newton, spherical and ellipsoidal damped steps (damping 1e-6..10)'

def check_step(E, G, anchors, factors, old, damp=lambda L: 0.0*L, label='', numeric=True):
    off, n = blocks(E, G, anchors); L, b = normal(E, G, anchors, factors)
    d = E.zeros(n)
    for i, t in enumerate(G.types):
        s = G.state(i)
        if i in off: d[off[i]:off[i]+NDIM[t]] = old[i]-s
        else: E.check_same(label + f'anchor {i} untouched', s, old[i])
    dg = E.arr([damp(L[i, i]) for i in range(n)])
    (E.check_close if numeric else E.check_eq)(label + 'step solves the normal equations', (L @ d) + dg*d, b, tol=1e-6)
def build(E, G, an, types=(L2, L2), perm=0):
    """states, factors: a prior on the first free node, differences between all pairs in both orders, each with a coupled information matrix"""
    X = [E.arr([E.real(f'x{i}', -5, 5)] + [float(i+k) for k in range(1, NDIM[t])]) for i, t in enumerate(types)]
    for i, t in enumerate(types): G.node(t, X[i], an[i])
    fs = []
    def add(ns, J, W, z):
        fs.append((ns, J, W, J @ E.arr([v for i in ns for v in X[i]]) - z)); return G.stub(ns, J, W, z)
    return X, fs, add
def coupled(E, k, s): return E.arr([[2.0+i+s if i == j else 0.25*s for j in range(k)] for i in range(k)])
def pairJ(E, ka, kb):
    k = min(ka, kb); return E.arr([[(-1.0 if i == j else 0.0) for j in range(ka)] + [(1.0 if i == j else 0.5*(j == i+1)) for j in range(kb)] for i in range(k)])

METHODS = {'newton': (0, lambda lam: (lambda l: 0.0*l)), 'spherical': (1, lambda lam: (lambda l: lam+0.0*l)), 'ellipsoidal': (2, lambda lam: (lambda l: lam*l))}
for nm, (m, damp) in METHODS.items():
    def one(nm=nm, m=m, damp=damp):
        @harness(name='two_nodes_' + nm, max_paths=60, cost=3)
        def two(E):
            G = Graph(E, dense=True); k = choose(E, 'anchor', 3); an = [int(i == k) for i in range(2)]
            X, fs, add = build(E, G, an)
            z = E.reals('z', 6, -5, 5)
            order = [[0, 1], [1, 0]][choose(E, 'order', 2)]
            add(order, pairJ(E, 2, 2), coupled(E, 2, 1), z[:2]); add([1], E.eye(2), coupled(E, 2, 2), z[2:4])
            lam = 0.75 if m else 0.0
            e0 = E.call('d_error', out=1)[0]
            E.check_eq('error is the sum of the factor errors', [e0], [sum(0.5*E.dot(r, W @ r) for _, _, W, r in fs)], tol=1e-9)
            if m:       # a probe with its own errors: the damped step is tried, found worse and undone
                f = add([0, 1], E.zeros(1, 4), E.arr([[1.0]]), [0.0]); E.call('g_stub_fun', f, 2, [1.0, 1e6])
                E.call('d_solve', m, 1, [lam])
                E.check('one step tried', E.call('g_stub_seen', f) == 2)
                for i in (0, 1): E.check_same('undone', G.state(i), X[i])
                v = E.call('g_stub_visit', f, 1, out=4)
                for i in (0, 1): G.set(i, v[2*i:2*i+2])
            else: E.check('one iteration', E.call('d_solve', m, 1, [lam]) == 1)
            check_step(E, G, an, fs, X, damp(lam))
    one()

@harness(max_paths=40, cost=4)
def three_nodes_mixed(E):
    """sizes 2, 3, 2; a ternary factor; any anchor"""
    G = Graph(E, dense=True); k = choose(E, 'anchor', 4); an = [int(i == k) for i in range(3)]
    X, fs, add = build(E, G, an, (L2, L3, L2)); z = E.reals('z', 6, -5, 5)
    add([2, 0], pairJ(E, 2, 2), coupled(E, 2, 1), z[:2]); add([1, 2], pairJ(E, 3, 2), coupled(E, 2, 2), z[2:4])
    add([1], E.eye(3), coupled(E, 3, 1), E.arr([z[4], 0.5, 1.0])); add([0], E.eye(2), coupled(E, 2, 1), E.arr([z[5], 0.25]))
    add([2, 1, 0], E.arr([[1.0, 0.5, 0.0, -1.0, 2.0, 0.5, 1.0]]), E.arr([[1.5]]), z[:1])
    E.call('d_solve', 0, 1, [0.0])
    check_step(E, G, an, fs, X)

@harness(max_paths=40, cost=3)
def robust_weights(E):
    """robust factors count with their weight, once"""
    G = Graph(E, dense=True); rt = [HUBER, CAUCHY, MCCLURE, RANSAC][choose(E, 'kernel', 4)]
    x = E.arr([0.5, 1.0]); y = E.arr([1.0, 2.0]); G.node(L2, x); G.node(L2, y); z = E.reals('z', 1, -3, 3); c = E.real('c', 0.1, 3)
    J = E.arr([[-1.0, 0.0, 1.0, 0.5]]); r = J @ E.arr([*x, *y]) - z; u2 = c*r[0]*r[0]
    E.assume(Or(u2 > 1.001, u2 < 0.999)); E.assume(r[0]*r[0] > 1e-6)
    w = robust_w(E, rt, u2); W = E.arr([[c]])
    G.stub([0, 1], J, W, z, 1, rt); G.stub([0], E.eye(2), E.eye(2), [0.5, 0.5]); G.stub([1], E.eye(2), E.eye(2), [0.0, 1.5])
    fs = [([0, 1], J, w*W, r), ([0], E.eye(2), E.eye(2), x-E.arr([0.5, 0.5])), ([1], E.eye(2), E.eye(2), y-E.arr([0.0, 1.5]))]
    E.call('d_build'); L, b = normal(E, G, [0, 0], fs)
    E.check_eq('gradient', E.call('d_grad', out=4), b, tol=1e-9); E.check_eq('Hessian', E.call('d_hess', out=16), L.ravel(), tol=1e-9)

@harness(max_paths=60, cost=4)
def poses_3d(E):
    """3D poses with the library's factors, any anchor: the same gradient and Hessian as the sparse problem"""
    t = E.reals('t', 3, -5, 5); z = E.reals('z', 3, -5, 5); k = choose(E, 'anchor', 4)
    R = E.arr([[0.8, -0.6, 0.0], [0.6, 0.8, 0.0], [0.0, 0.0, 1.0]]); X = [E.mat4(E.eye(3), E.arr([1.0, 2.0, 3.0])), E.mat4(E.eye(3), t), E.mat4(R, E.arr([0.0, 1.0, 0.5]))]
    v = E.reals('v', 3, 0.1, 5); W = E.arr([[v[i % 3] if i == j else 0.1*(i+j) for j in range(6)] for i in range(6)])
    out = []
    for dense in (0, 1):
        G = Graph(E, dense=dense)
        for i in range(3): G.node(P3, X[i], int(k == i))
        G.factor(F2P3, 0, 1, E.mat4(E.eye(3), z), W); G.factor(F2P3, 2, 1, E.mat4(R.T, E.arr([0.3, 0.2, 0.1])), W)
        G.factor(F1P3, 1, -1, E.mat4(E.eye(3), E.arr([2.0, 2.0, 2.0])), W); G.factor(F1P3, 0, -1, E.mat4(E.eye(3), E.arr([0.0, 2.0, 2.0])), W)
        n = 12 if k < 3 else 18
        if dense:
            E.call('d_build'); g = E.call('d_grad', out=n); E.check('gradient size', E.ret == n); H = E.call('d_hess', out=n*n).reshape(n, n); E.check('Hessian size', E.ret == n*1001)
            e = E.call('d_error', out=1)
        else: E.call('g_build'); g = G.mat('g_b'); H = G.mat('g_L'); e = E.call('g_chi2_def', out=1)
        out.append((g, H, e))
    E.check_eq('gradient', out[1][0], out[0][0], tol=1e-8); E.check_eq('Hessian', out[1][1], out[0][1], tol=1e-8); E.check_eq('error', out[1][2], out[0][2], tol=1e-8)

@harness(max_paths=60, cost=3)
def accepted_or_restored(E):
    """damped step: kept when the error falls, otherwise every state is restored; anchors stay"""
    G = Graph(E, dense=True); x = E.reals('x', 2, -5, 5); y = E.arr([*E.reals('y', 2, -5, 5), 0.5]); a0 = E.reals('a', 2, -5, 5)
    G.node(L2, x); G.node(L2, a0, 1); G.node(P2, y); q = G.node(P3, E.mat4(E.eye(3), E.reals('t', 3, -5, 5))); T = G.state(q)
    f = G.stub([0], E.eye(2), E.eye(2), [0.5, 1.0], 0); G.stub([2], E.eye(3), E.eye(3), [0.25, 0.0, 0.0], 0); G.stub([3], E.eye(6), E.eye(6), [0.0, 0.0, 0.0, 0.5, 0.0, 0.0], 0)
    e = E.reals('e', 3, 0, 10); E.call('g_stub_fun', f, 3, e)
    n = E.call('d_solve', 1+choose(E, 'method', 2), 2, [0.5])
    seen = E.call('g_stub_seen', f); v = [E.call('g_stub_visit', f, i, out=2) for i in range(seen)]
    b = 0
    for k in range(1, seen):
        if e[b] >= e[k]: b = k
    s = G.state(0)
    E.check_eq('best state kept', s, v[b], tol=1e-12)
    E.check_same('anchor', G.state(1), a0)
    if b == 0:
        E.check_eq('2D pose restored', G.state(2), y, tol=1e-12); E.check_eq('3D pose restored', G.state(3), T, tol=1e-12)
    else:
        E.check('other poses moved', G.state(2)[0] < y[0])
    E.check('error never above the initial one', e[b] <= e[0])

@harness(max_paths=20)
def bookkeeping(E):
    """storing and restoring returns every free state"""
    G = Graph(E, dense=True); x = [E.reals('x', 2, -5, 5), E.arr([*E.reals('y', 2, -5, 5), 0.5]), E.reals('l', 3, -5, 5)]
    for t, s in zip((L2, P2, L3), x): G.node(t, s)
    p = G.node(P3, E.mat4(E.eye(3), E.reals('t', 3, -5, 5))); T = G.state(p)
    E.call('d_book')
    for i, s in enumerate(x): G.set(i, [v+1.5 if j == 0 else v for j, v in enumerate(s)])
    G.update(p, [0.0, 0.0, 0.0, 1.0, 2.0, 3.0])
    E.call('d_unbook')
    for i, s in enumerate(x): E.check_eq(f'node {i}', G.state(i), s, tol=1e-12)
    E.check_eq('pose', G.state(p), T, tol=1e-12)

@harness(max_paths=170, cost=6)
def layout(E):
    """nodes of different sizes in any order, any anchored, 1 to 4 factors per node: each takes its own block"""
    from props.c20 import layout_body
    layout_body(E, True)

@harness(max_paths=110, cost=4)
def restored_layout(E):
    """a rejected damped step restores every node of graphs with different sizes, anchors and numbers of factors"""
    import itertools
    G = Graph(E, dense=True); P = list(itertools.permutations(range(3))); perm = P[choose(E, 'perm', 6)]; m = choose(E, 'anchors', 7); an = [m >> i & 1 for i in range(3)]
    ty = [(L2, P3, P2)[i] for i in perm]; X = []
    for i, t in enumerate(ty):
        x = E.mat4(E.eye(3), E.reals(f'x{i}_', 3, -5, 5)) if t == P3 else E.arr([*E.reals(f'x{i}_', 2, -5, 5), 0.5][:NDIM[t]])
        X.append(x); G.node(t, x, an[i])
        for k in range(1+(2*i+m) % 4): G.stub([i], E.eye(NDIM[t]), E.eye(NDIM[t]), [0.0]*(NDIM[t]-1) + [0.75], 0)
    free = an.index(0); d = NDIM[ty[free]]; f = G.stub([free], E.zeros(1, d), E.arr([[1.0]]), [0.0], 0); G.stub([0, 1, 2], E.zeros(1, sum(NDIM[t] for t in ty)), E.arr([[1.0]]), [0.5], 0)
    E.call('g_stub_fun', f, 2, [1.0, 1e6])
    n = E.call('d_solve', 1+choose(E, 'method', 2), 1, [0.5])
    E.check('a step was tried', E.call('g_stub_seen', f) == 2)
    for i, t in enumerate(ty):
        if t == P3: E.check_eq(f'pose {i} restored', G.state(i), X[i], tol=1e-12)
        else: E.check_same(f'node {i} restored', G.state(i), X[i])
