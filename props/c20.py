from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['FGraphSolve::solve', 'FGraphSolve::optimize_gauss_newton', 'FGraphSolve::build_problem', 'FGraphSolve::update_nodes', 'Eigen::SimplicialLDLT (as instantiated)']
BOUNDS = 'linear problems: chains and stars of up to 4 nodes (state sizes 1 to 4 blocks), any anchors, information 0.1 to 5 and couplings in [-1, 1]; 2D pose graphs with one or two free poses; every observation and state in [-5, 5]'

def blocks(E, G, anchors):
    off = {}; n = 0
    for i, t in enumerate(G.types):
        if not anchors[i]: off[i] = n; n += NDIM[t]
    return off, n
def normal(E, G, anchors, factors):
    """normal equations from the factors (nodes, J, W, r)"""
    off, n = blocks(E, G, anchors); L = E.zeros(n, n); b = E.zeros(n)
    for ns, J, W, r in factors:
        d = len(r); A = E.zeros(d, n); c = 0
        for i in ns:
            k = NDIM[G.types[i]]
            if i in off: A[:, off[i]:off[i]+k] = J[:, c:c+k]
            c += k
        L = L + A.T @ (W @ A); b = b + A.T @ (W @ r)
    return L, b
def check_step(E, G, anchors, factors, old, lam=0.0, label=''):
    """states moved by the solution of the normal equations; Euclidean nodes only"""
    off, n = blocks(E, G, anchors); L, b = normal(E, G, anchors, factors)
    d = E.zeros(n)
    for i, t in enumerate(G.types):
        s = G.state(i)
        if i in off: d[off[i]:off[i]+NDIM[t]] = old[i]-s
        else: E.check_same(label + f'anchor {i} untouched', s, old[i])
    E.check_eq(label + 'step solves the normal equations', (L @ d) + lam*d, b, tol=1e-7)

def prior(E, G, n, name, X):
    """x = z with its own positive weight per component"""
    k = NDIM[G.types[n]]; z = E.reals(name, k, -5, 5); w = E.real(name + 'w', 0.1, 5); W = E.zeros(k, k)
    for i in range(k): W[i, i] = w*float(1+i)
    G.stub([n], E.eye(k), W, z); return ([n], E.eye(k), W, X[n]-z)
def relative(E, G, a, b, name, X):
    """difference of the first components of two nodes, listed in the given order"""
    ka, kb = NDIM[G.types[a]], NDIM[G.types[b]]; k = min(ka, kb); J = E.zeros(k, ka+kb)
    for i in range(k): J[i, i] = -1.0; J[i, ka+i] = 1.0
    z = E.reals(name, k, -5, 5); w = E.real(name + 'w', 0.1, 5); W = E.zeros(k, k)
    for i in range(k): W[i, i] = w
    G.stub([a, b], J, W, z); return ([a, b], J, W, X[b][:k]-X[a][:k]-z)

@harness(max_paths=12, cost=4)
def coupled_single_node(E):
    """one node of size 2: full symmetric information"""
    G = Graph(E); x = E.reals('x', 2, -5, 5); n = G.node(L2, x); c = E.real('c', -1, 1); w = E.reals('w', 2, 1.5, 5)
    J = E.arr([[E.real('j0', 0.5, 2), 0.5], [-0.25, 1.0]]); W = E.arr([[w[0], c], [c, w[1]]]); z = E.reals('z', 2, -5, 5)
    G.stub([n], J, W, z)
    E.call('g_solve', 0, 20, [1e-6], [1e-2])
    check_step(E, G, [0], [([n], J, W, J @ x - z)], [x])

@harness(max_paths=16, cost=5)
def mixed_sizes(E):
    """a landmark and a plane-sized node, any of them anchored; priors and a difference"""
    G = Graph(E); k = choose(E, 'anchor', 3); an = [int(i == k) for i in range(2)]
    x0 = E.reals('x', 2, -5, 5); x1 = E.reals('y', 3, -5, 5); X = [x0, x1]
    G.node(L2, x0, an[0]); G.node(L3, x1, an[1])
    fs = [prior(E, G, 1, 'p', X), relative(E, G, 1, 0, 'd', X)]
    E.call('g_solve_def', 0)
    check_step(E, G, an, fs, X)

@harness(max_paths=24, cost=6)
def chain_any_anchor(E):
    """three nodes in a chain; one anchored or none"""
    G = Graph(E); k = choose(E, 'anchor', 4); an = [int(i == k) for i in range(3)]
    X = [E.reals(f'x{i}_', 2, -5, 5) for i in range(3)]
    for i in range(3): G.node(L2, X[i], an[i])
    fs = [prior(E, G, 0, 'p', X), relative(E, G, 0, 1, 'a', X), relative(E, G, 2, 1, 'b', X)]
    E.call('g_solve_def', 0)
    check_step(E, G, an, fs, X)

@harness(max_paths=24, cost=6)
def star_factor_order(E):
    """a node seen from three others added in different orders; loop closed by two more factors"""
    G = Graph(E); X = [E.arr([E.real(f'x{i}', -5, 5), 1.0*i]) for i in range(4)]; an = [0, 0, 1, 0]
    for i in range(4): G.node(L2, X[i], an[i])
    import itertools
    fs = []
    jobs = [lambda: fs.append(relative(E, G, 3, 0, 'a', X)), lambda: fs.append(relative(E, G, 1, 3, 'b', X)), lambda: fs.append(relative(E, G, 2, 3, 'c', X))]
    for i in list(itertools.permutations(range(3)))[choose(E, 'perm', 6)]: jobs[i]()
    E.call('g_solve_def', 0)
    check_step(E, G, an, fs, X)

@harness(max_paths=12, cost=4)
def linear_optimum(E):
    """for a linear problem the gradient of the error vanishes after one step; a second step changes nothing"""
    G = Graph(E); X = [E.reals(f'x{i}_', 2, -5, 5) for i in range(2)]
    for x in X: G.node(L2, x)
    prior(E, G, 0, 'p', X); prior(E, G, 1, 'q', X); relative(E, G, 0, 1, 'd', X)
    E.call('g_solve_def', 0)
    s = [G.state(0), G.state(1)]
    E.call('g_solve_def', 0)
    E.check_zero('gradient at the optimum', G.mat('g_b'), tol=1e-6)
    E.check_eq('second step stays', [*G.state(0), *G.state(1)], [*s[0], *s[1]], tol=1e-6)

@harness(max_paths=16, cost=3)
def information_scale(E):
    """only the ratios of the weights matter: very small and very large information give the exact step too"""
    s = [2.0**-40, 2.0**-20, 2.0**30][choose(E, 'scale', 3)]
    G = Graph(E); X = [E.reals(f'x{i}_', 2, -5, 5) for i in range(2)]; an = [0, 0]; fs = []
    for x in X: G.node(L2, x)
    w = E.reals('w', 3, 0.5, 2); z = E.reals('z', 6, -5, 5); I = E.eye(2)
    for k, (ns, J) in enumerate((([0], I), ([1], I), ([0, 1], np.hstack([-I, I])))):
        W = E.arr([[w[k], 0.25], [0.25, 1.0]]); o = z[2*k:2*k+2]
        G.stub(ns, J, W*s, o); fs.append((ns, J, W, J @ E.arr([v for i in ns for v in X[i]]) - o))
    E.call('g_solve_def', 0)
    check_step(E, G, an, fs, X)

@harness(max_paths=40, cost=3)
def state_scale(E):
    """steps of any length: far states and observations, and very close ones; Gauss-Newton and a first damped step"""
    s = [2.0**14, 2.0**-10, 2.0**-17][choose(E, 'scale', 3)]; lm = choose(E, 'method', 2); t = [L2, L3][choose(E, 'type', 2)]; n = NDIM[t]
    G = Graph(E); x = E.reals('x', n, -5, 5)*s; G.node(t, x); z = E.reals('z', n, -5, 5)*s; w = E.real('w', 0.5, 2)
    W = E.zeros(n, n)
    for i in range(n): W[i, i] = w
    G.stub([0], E.eye(n), W, z)
    if lm: E.call('g_solve', 1, 1, [0.5], [1e-30])
    else: E.call('g_solve_def', 0)
    E.check_eq('step solves the normal equations', (w+(0.5 if lm else 0.0))*((x-G.state(0))*(1/s)), w*((x-z)*(1/s)), tol=1e-7)

@harness(max_paths=40, cost=6)
def pose_graph_2d(E):
    """an anchored and a free 2D pose: the heading is wrapped, the step solves the equations of the library's own factors"""
    G = Graph(E); k = choose(E, 'anchor', 2); an = [int(k == 0), int(k == 1)]
    x = E.arr([*E.reals('x', 2, -5, 5), 0.5]); y = E.arr([*E.reals('y', 2, -5, 5), 0.0]); X = [x, y]
    for i in (0, 1): G.node(P2, X[i], an[i])
    W = E.arr([[2.0, 0.5, 0.0], [0.5, 1.0, 0.25], [0.0, 0.25, 3.0]])
    f = G.factor(F2P2, 1, 0, E.arr([*E.reals('z', 2, -5, 5), E.real('h', -3, 3)]), W)
    G.eval(f); r = G.res(f, ev=False); J = G.jac(f); nb = [E.call('f_nb', f, 0), E.call('f_nb', f, 1)]
    E.call('g_solve_def', 0)
    free = 1-k; c = 3*nb.index(free); Jf = J[:, c:c+3]; s = G.state(free); old = X[free]
    E.check_same('anchor untouched', G.state(k), X[k])
    L = Jf.T @ W @ Jf; b = Jf.T @ W @ r; dx = E.call('g_dx', out=3)
    E.check_eq('step solves the normal equations', L @ dx, b, tol=1e-7)
    E.check_eq('moved against the step', old[:2]-s[:2], dx[:2], tol=1e-9)
    E.check_eq('heading', [s[2]], E.call('g_wrap', [old[2]-dx[2]], out=1), tol=1e-9); E.check('heading in range', And(s[2] >= -E.pi, s[2] < E.pi))


@harness(max_paths=30, cost=6)
def real_step_3d(E):
    """poses take the step as a twist on the left; landmark and anchored poses of the library, translations symbolic"""
    G = Graph(E); t = E.reals('t', 3, -5, 5); an = choose(E, 'anchor', 2)
    T = E.mat4(E.eye(3), t); a = G.node(P3, E.mat4(E.eye(3), E.arr([1.0, 2.0, 3.0])), 1); p = G.node(P3, T); l = G.node(L3, [1.0, 0.0, 2.0], an)
    W = E.eye(6)
    for i in range(6): W[i, i] = 1.0+i
    G.factor(F1P3, p, -1, E.mat4(E.eye(3), E.reals('z', 3, -5, 5)), W)
    J = E.eye(3); z = E.reals('y', 3, -5, 5)
    G.stub([l], J, E.eye(3), z)
    E.call('g_build'); n = 6+3*(1-an)
    L = G.mat('g_L'); b = G.mat('g_b')
    E.call('g_solve_def', 0)
    dx = E.call('g_dx', out=n)
    E.check_eq('step solves the normal equations', L @ dx, b, tol=1e-7)
    E.check_same('anchored pose', G.state(a), E.mat4(E.eye(3), E.arr([1.0, 2.0, 3.0])))
    q = G.node(P3, T); G.update(q, -dx[:6])
    E.check_eq('pose moved by its own block', G.state(p), G.state(q), tol=1e-9)
    E.check_eq('landmark', G.state(l), E.arr([1.0, 0.0, 2.0]) if an else E.arr([1.0, 0.0, 2.0])-dx[6:9], tol=1e-9)

def layout_body(E, dense):
    """nodes of different sizes in any order, any of them anchored, several factors per node: each takes its own block"""
    import itertools
    G = Graph(E, dense=dense); P = list(itertools.permutations(range(4))); perm = P[[0, 5, 9, 14, 18, 23][choose(E, 'perm', 6)]]; m = choose(E, 'anchors', 15); an = [m >> i & 1 for i in range(4)]
    ty = [(L2, P3, L3, P2)[i] for i in perm]; X = []; M = []
    for i, t in enumerate(ty):
        x = E.mat4(E.eye(3), E.reals(f'x{i}_', 3, -5, 5)) if t == P3 else E.arr([*E.reals(f'x{i}_', 2, -5, 5), 0.5][:NDIM[t]])
        X.append(x); G.node(t, x, an[i]); mean = E.zeros(NDIM[t])
        for k in range(1+(i+m) % 4):      # 1 to 4 factors on the node; the values they pull to are known
            z = E.reals(f'z{i}_{k}_', 2, -1, 1); r = E.arr([z[0], z[1]*0.5] + [0.0]*(NDIM[t]-2)) if t != P3 else E.arr([0.0]*3 + [z[0], z[1], 0.5])
            w = float(1+k); f = G.stub([i], E.eye(NDIM[t]), w*E.eye(NDIM[t]), r, 0)
            mean = mean + w*r
        M.append(mean*(1/sum(float(1+k) for k in range(1+(i+m) % 4))))
    if dense: E.call('d_solve', 0, 1, [0.0])
    else: E.call('g_solve_def', 0)
    for i, t in enumerate(ty):
        s = G.state(i)
        if an[i]: E.check_same(f'anchor {i} untouched', s, X[i])
        elif t == P3: E.check_close(f'pose {i} moved by its block', s[:3, 3], X[i][:3, 3]-M[i][3:], tol=1e-9)
        else: E.check_close(f'node {i} moved by its block', s, X[i]-M[i], tol=1e-9)
@harness(max_paths=170, cost=6)
def layout(E): layout_body(E, False)
