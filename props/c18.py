from symx.runner import *
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['FGraphSolve::build_adjacency', 'FGraphSolve::build_info_adjacency', 'FGraphSolve::build_problem', 'FGraph::add_node', 'FGraph::add_factor']
BOUNDS = 'graphs of up to 4 nodes (state sizes 2, 3, 4, 6, anchors at any position) and up to 5 factors over 1 to 3 nodes; every Jacobian, information and residual entry in [-3, 3] (information symmetric); the order of nodes and factors and the anchors are symbolic choices; two builds in a row'

def choose(E, name, n):
    """a symbolic choice among n alternatives: one path per alternative"""
    if n == 1: return 0
    v = E.real(name, 0, n)
    lo, hi = 0, n
    while hi-lo > 1:
        m = (lo+hi)//2
        if v < float(m): hi = m
        else: lo = m
    return lo
def rect(E, name, r, c): return E.arr([[E.real(f'{name}{i}_{j}', -3, 3) for j in range(c)] for i in range(r)])
def robust_w(E, rt, u2):
    """weight at u = sqrt(u2)"""
    if rt == QUAD: return 1.0
    if rt == HUBER: return 1.0 if u2 < 1.0 else 1.0/E.sqrt(u2)
    if rt == CAUCHY: return 1.0/(1.0+u2)
    if rt == MCCLURE: return 1.0/((1.0+u2)*(1.0+u2))
    return 1.0 if u2 < 1.0 else 0.0
def assembled(E, G, anchors, factors, label='', weights=None):
    """checks the matrices of the graph against the stacked blocks; factors: list of (node handles, J, W, r)"""
    E.call('g_build')
    off = {}; n = 0
    for i, t in enumerate(G.types):
        if not anchors[i]: off[i] = n; n += NDIM[t]
    m = sum(len(r) for _, _, _, r in factors)
    E.check(label + 'dimensions', E.call('g_dims') == n*1000+m)
    A = E.zeros(m, n); W = E.zeros(m, m); R = E.zeros(m); k = 0
    for q, (ns, J, Wf, r) in enumerate(factors):
        c = 0; d = len(r); w = 1.0 if weights is None else weights[q]
        for i in ns:
            dim = NDIM[G.types[i]]
            if i in off: A[k:k+d, off[i]:off[i]+dim] = J[:, c:c+dim]
            c += dim
        W[k:k+d, k:k+d] = w*Wf if weights is not None else Wf; R[k:k+d] = r; k += d
    E.check_eq(label + 'adjacency matrix', G.mat('g_A'), A, tol=1e-10)
    E.check_eq(label + 'residual vector', E.call('g_r', out=m), R, tol=1e-10)
    Wc = G.mat('g_W'); up = [(i, j) for i in range(m) for j in range(i, m)]
    E.check_eq(label + 'information blocks', [Wc[i, j] for i, j in up], [W[i, j] for i, j in up], tol=1e-10)
    AtW = A.T @ W; L = G.mat('g_L'); Le = AtW @ A; lo = [(i, j) for i in range(n) for j in range(i+1)]
    E.check_eq(label + 'information matrix', [L[i, j] for i, j in lo], [Le[i, j] for i, j in lo], tol=1e-9)
    E.check_eq(label + 'information vector', G.mat('g_b'), AtW @ R, tol=1e-9)
def node(E, G, t, anchor, i):
    x = {P2: [0.1, 0.2, 0.3], L2: [1.0, 2.0], L3: [1.0, 2.0, 3.0], PL: [0.6, 0.0, 0.8, 1.5]}[t]
    return G.node(t, x, anchor), E.arr(x)

def linear(E, G, ns, states, name, d):
    """a linear factor of dimension d over nodes ns with symbolic J, W and observation"""
    J = rect(E, name + 'J', d, sum(NDIM[G.types[i]] for i in ns)); W = sym(E, name + 'W', d, -3, 3); z = E.reals(name + 'z', d, -3, 3)
    G.stub(ns, J, W, z)
    x = [v for i in ns for v in states[i]]
    return (ns, J, W, J @ E.arr(x) - z)

@harness(max_paths=24, cost=3)
def two_nodes_any_anchor(E):
    """nodes of sizes 2 and 3; anchors none, first, second; a prior on each and a factor between them listing them in either order"""
    G = Graph(E); an = [[0, 0], [1, 0], [0, 1]][choose(E, 'anchor', 3)]
    a, xa = node(E, G, L2, an[0], 0); b, xb = node(E, G, L3, an[1], 1); X = [xa, xb]
    order = [[a, b], [b, a]][choose(E, 'order', 2)]
    fs = [linear(E, G, [a], X, 'p', 2), linear(E, G, order, X, 'q', 2), linear(E, G, [b], X, 's', 1)]
    assembled(E, G, an, fs)

@harness(max_paths=40, cost=3)
def factor_order(E):
    """the same factors added in any order"""
    G = Graph(E); a, xa = node(E, G, L2, 0, 0); b, xb = node(E, G, P2, 0, 1); X = [xa, xb]
    import itertools
    perm = list(itertools.permutations(range(3)))[choose(E, 'perm', 6)]
    mk = [lambda: linear(E, G, [a], X, 'p', 1), lambda: linear(E, G, [b, a], X, 'q', 2), lambda: linear(E, G, [b], X, 's', 1)]
    fs = [mk[i]() for i in perm]
    assembled(E, G, [0, 0], fs)

@harness(max_paths=40, cost=5)
def four_nodes_mixed(E):
    """four nodes of sizes 2, 3, 4, 3 with one anchor at any position or none; a factor over three nodes"""
    G = Graph(E); k = choose(E, 'anchor', 5); an = [int(i == k) for i in range(4)]
    hs = [node(E, G, t, an[i], i) for i, t in enumerate((L2, P2, PL, L3))]; X = [x for _, x in hs]
    import numpy as np
    fs = []
    def cheap(ns, d, nm):
        n = sum(NDIM[G.types[i]] for i in ns); v = E.reals(nm, 3, -3, 3)
        J = E.arr([[v[(i+j) % 3]*float(1+i)+float(j)*0.5 for j in range(n)] for i in range(d)])
        W = E.arr([[(2.0+i if i == j else 0.25*(i+j)) + 0.0*v[0] for j in range(d)] for i in range(d)]); z = E.arr([v[0]*float(i) for i in range(d)])
        G.stub(ns, J, W, z); fs.append((ns, J, W, J @ E.arr([q for i in ns for q in X[i]]) - z))
    cheap([0], 2, 'a'); cheap([3, 1, 0], 2, 'b'); cheap([2, 1], 1, 'c'); cheap([1, 2, 3], 3, 'd'); cheap([2], 1, 'e')
    assembled(E, G, an, fs)

@harness(max_paths=20, cost=4)
def two_builds(E):
    """building again after the states moved and after a factor and a node were added leaves nothing behind"""
    G = Graph(E); a, xa = node(E, G, L2, 0, 0); b, xb = node(E, G, L2, 0, 1); X = [xa, xb]
    fs = [linear(E, G, [a], X, 'p', 1), linear(E, G, [a, b], X, 'q', 2)]
    assembled(E, G, [0, 0], fs, 'first: ')
    y = E.reals('y', 2, -3, 3); G.set(b, y)
    re = lambda st: [(ns, J, W, E.call('f_res', i, out=J.shape[0])) for i, (ns, J, W, r) in enumerate(fs)]
    X2 = [xa, y]
    fs2 = []
    for ns, J, W, r in fs: fs2.append((ns, J, W, r + J @ (E.arr([v for i in ns for v in X2[i]])-E.arr([v for i in ns for v in X[i]]))))
    assembled(E, G, [0, 0], fs2, 'moved: ')
    c, xc = node(E, G, L3, 0, 2); X3 = [xa, y, xc]
    fs2.append(linear(E, G, [c, a], X3, 's', 1))
    assembled(E, G, [0, 0, 0], fs2, 'extended: ')

for nm, rt in (('huber', HUBER), ('cauchy', CAUCHY), ('mcclure', MCCLURE), ('ransac', RANSAC)):
    def one(nm=nm, rt=rt):
        @harness(name='robust_' + nm, max_paths=20)
        def robust(E):
            """the weight of a factor multiplies its own information block, evaluated at u = sqrt(r^T W r)"""
            G = Graph(E); a, xa = node(E, G, L2, 0, 0); b, xb = node(E, G, L2, 0, 1); X = [xa, xb]
            J = rect(E, 'J', 1, 4); z = E.reals('z', 1, -3, 3); s = E.real('s', 0.1, 3); r = J @ E.arr([*xa, *xb]) - z
            E.assume(Or(r[0]*r[0]*s > 1.001, r[0]*r[0]*s < 0.999)); E.assume(r[0]*r[0] > 1e-6)
            G.stub([a, b], J, [[s]], z, 1, rt)
            J2 = E.arr([[1.0, 2.0], [0.0, 1.0]]); z2 = E.reals('y', 2, -0.5, 0.5); W2 = E.arr([[2.0, 0.5], [0.5, 1.0]]); r2 = J2 @ xa - z2
            G.stub([a], J2, W2, z2, 1, QUAD)
            assembled(E, G, [0, 0], [([a, b], J, E.arr([[s]]), r), ([a], J2, W2, r2)], '', [robust_w(E, rt, r[0]*r[0]*s), 1.0])
    one()

for nm, rt in (('huber', HUBER), ('cauchy', CAUCHY), ('mcclure', MCCLURE), ('ransac', RANSAC)):
    for d in (2, 3, 4, 6):
        def one(nm=nm, rt=rt, d=d):
            @harness(name=f'robust_{nm}_dim{d}', max_paths=12)
            def robust(E):
                """one weight per factor: all of a correlated information block, of any size, is multiplied by it"""
                G = Graph(E); a, xa = node(E, G, L2, 0, 0); b, xb = node(E, G, L3, 0, 1); X = E.arr([*xa, *xb])
                J = E.arr([[float(1+((i+1)*(j+2)) % 4)*0.5 for j in range(5)] for i in range(d)]); r = E.arr([1.0]+[0.0]*(d-1)) if d > 3 else E.arr([0.5, 1.0, -0.5][:d])
                W = sym(E, 'w', d, -3, 3); q = E.dot(r, W @ r)
                if not q > 1e-6: return                # chi2 of a proper information matrix is not negative
                if rt in (HUBER, RANSAC) and Or(And(q > 0.999, q < 1.001), q > 1e6): return
                G.stub([a, b], J, W, J @ X - r, 1, rt)
                J2 = E.arr([[1.0, 2.0], [0.0, 1.0]]); W2 = E.arr([[2.0, 0.5], [0.5, 1.0]]); r2 = E.arr([0.25, 0.5])
                G.stub([a], J2, W2, J2 @ xa - r2, 1, QUAD)
                assembled(E, G, [0, 0], [([a, b], J, W, r), ([a], J2, W2, r2)], '', [robust_w(E, rt, q), 1.0])
        one()

@harness(max_paths=12, cost=6)
def real_factors_2d(E):
    """pose, odometry and landmark factors of the library: blocks at their nodes whatever the ids; full information"""
    G = Graph(E); x = E.reals('x', 2, -3, 3); k = choose(E, 'anchor', 4); an = [int(i == k) for i in range(3)]
    l = G.node(L2, [4.0, 3.0], an[0]); p = G.node(P2, [x[0], 0.5, 0.0], an[1]); q = G.node(P2, [2.0, x[1], 0.0], an[2])
    W3 = sym(E, 'w', 3); W2 = sym(E, 'v', 2)
    f = [G.factor(F1P2, p, -1, [0.1, 0.2, 0.3], W3), G.factor(F2P2, q, p, [1.0, 0.5, 0.2], W3), G.factor(FL2, q, l, [3.0, 0.4], W2), G.factor(F2P2, p, q, [1.0, 0.0, 0.1], W3)]
    E.call('g_build')
    fs = []
    for i in f:
        nb = [E.call('f_nb', i, j) for j in range(E.call('f_nb', i, -1))]; d = G._fd(i)[0]
        fs.append((nb, G.jac(i), E.call('f_info', i, out=d*d).reshape(d, d), G.res(i, ev=False)))
    assembled(E, G, an, fs)

@harness(max_paths=12, cost=6)
def real_factors_3d(E):
    """3D pose, landmark, plane and point-to-plane factors of the library"""
    G = Graph(E); t = E.reals('t', 3, -3, 3); k = choose(E, 'anchor', 3); an = [int(i == k) for i in range(4)]
    R = E.arr([[0.8, -0.6, 0.0], [0.6, 0.8, 0.0], [0.0, 0.0, 1.0]])
    p = G.node(P3, E.mat4(E.eye(3), t), an[0]); l = G.node(L3, [1.0, 2.0, 3.0], an[1]); q = G.node(P3, E.mat4(R, E.arr([1.0, 0.0, 0.5])), an[2]); h = G.node(PL, [0.0, 0.6, 0.8, 1.0], an[3])
    v = E.reals('v', 2, -2, 2)
    W3 = E.arr([[v[0], 0.5, 0.1], [0.5, 2.0, v[1]], [0.1, v[1], 1.0]]); W4 = E.arr([[1.0+i if i == j else v[0]*0.5 for j in range(4)] for i in range(4)])
    W6 = E.arr([[1.0+i if i == j else v[1]*0.1*(i+j) for j in range(6)] for i in range(6)])
    f = [G.factor(F1P3, p, -1, E.mat4(E.eye(3), E.arr([0.3, 0.1, 0.2])), W6), G.factor(FL3, q, l, [1.0, 2.0, 2.0], W3), G.factor(FPL, p, h, [0.0, 0.6, 0.8, 0.4], W4),
         G.factor(FL3, p, l, [1.0, 2.0, 2.0], W3), G.factor(FPP, q, -1, E.arr([1.0, 0.0, 2.0, 0.5, 0.5, 0.5, 0.6, 0.0, 0.8]), [[v[0]]])]
    E.call('g_build')
    fs = []
    for i in f:
        nb = [E.call('f_nb', i, j) for j in range(E.call('f_nb', i, -1))]; d = G._fd(i)[0]
        fs.append((nb, G.jac(i), E.call('f_info', i, out=d*d).reshape(d, d), G.res(i, ev=False)))
    assembled(E, G, an, fs)
