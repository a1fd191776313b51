from symx.runner import *
from props.graphlib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['FGraph::add_node', 'FGraph::add_factor', 'FGraph::get_node', 'FGraph::get_factor', 'FGraphSolve::get_estimated_state', 'FGraphSolve::chi2', 'FGraphSolve::get_chi2_array', 'Node::add_factor', 'Node::rm_factor']
BOUNDS = 'every sequence of 4 insertions (2D pose, 2D landmark, 3D landmark, plane or 3D pose; free or anchor; or a factor over one, two or three earlier nodes), of 6 insertions over one node type, all removals of factors from a node; states and errors symbolic'
TYPES = [L2, P2, L3, PL, P3]

class Book:
    """runs a history on the code and keeps the expected bookkeeping"""
    def __init__(s, E):
        s.E = E; s.G = Graph(E); s.nodes = []; s.factors = []; s.k = 0
    def node(s, t, anchor):
        E = s.E; s.k += 1; n = f'x{s.k}'
        if t == P2: x = E.arr([*E.reals(n, 2, -5, 5), 0.5])
        elif t == P3: x = E.mat4(E.eye(3), E.reals(n, 3, -5, 5))
        elif t == PL: x = E.arr([0.6, 0.0, 0.8, E.real(n, -5, 5)])
        else: x = E.reals(n, NDIM[t], -5, 5)
        i = s.G.node(t, x, anchor); s.nodes.append((t, anchor, x, []))
        E.check('node id is the insertion index', E.ret == len(s.nodes)-1 and E.call('n_id', i) == len(s.nodes)-1)
    def factor(s, ns, d):
        E = s.E; s.k += 1; q = E.reals(f'q{s.k}_', d, -3, 3); w = E.real(f'w{s.k}', 0, 3)
        J = E.zeros(d, sum(NDIM[s.nodes[i][0]] for i in ns)); W = E.zeros(d, d)
        for i in range(d): W[i, i] = w*float(i+1)
        f = s.G.stub(ns, J, W, q, 0)
        E.check('factor id is the insertion index', E.call('f_id', f) == len(s.factors))
        s.factors.append((ns, d, 0.5*E.dot(q, W @ q)))
        for i in ns: s.nodes[i][3].append(f)
    def verify(s):
        E = s.E; c = E.call
        E.check('numbers of nodes and factors', c('g_counts') == len(s.nodes)*1000+len(s.factors))
        E.check('state and observation dimensions', c('g_dims') == 1000*sum(NDIM[t] for t, a, _, _ in s.nodes if not a)+sum(d for _, d, _ in s.factors))
        for i, (t, a, x, fs) in enumerate(s.nodes):
            E.check('node retrieved by its id', c('g_getnode', i) == i); E.check('node dimension', c('n_dim', i) == NDIM[t])
            E.check('number of factors of the node', c('n_nfac', i) == len(fs))
            E.check('factors of the node', [c('n_fac', i, j) for j in range(len(fs))] == fs)
        for i, (ns, d, _) in enumerate(s.factors):
            E.check('factor retrieved by its id', c('g_getfactor', i) == i)
            E.check('nodes of the factor', [c('f_nb', i, j) for j in range(c('f_nb', i, -1))] == list(ns))
        E.check('one estimated state per node', c('g_est', -1, out=1) is not None and E.ret == len(s.nodes))
        for i, (t, a, x, _) in enumerate(s.nodes): E.check_same('estimated state of the node', c('g_est', i, out=NSTATE[t]), x)
        if s.factors:
            tot = c('g_chi2', 1, out=1)[0]
            E.check_eq('total error', [tot], [sum(x for _, _, x in s.factors)], tol=1e-10)
            E.check_eq('errors per factor', c('g_chi2_array', out=len(s.factors)), [x for _, _, x in s.factors], tol=1e-10)
            E.check('one error per factor', E.ret == len(s.factors))
            E.check_eq('default: residuals evaluated', c('g_chi2_def', out=1), [tot], tol=1e-10)
            E.check_eq('stored errors', c('g_chi2', 0, out=1), [tot], tol=1e-10)
        for i, (t, a, x, _) in enumerate(s.nodes): E.check_same('state untouched by evaluation', s.G.state(i).ravel(), x.ravel())

def step(E, B, k, types):
    """one symbolic operation: add a node of any type and mode, or a factor"""
    n = len(B.nodes); opts = [('n', t, a) for t in types for a in (0, 1)]
    if n >= 1: opts += [('f', (n-1,), 2)]
    if n >= 2: opts += [('f', (n-1, 0), 1), ('f', (0, 1), 3)]
    if n >= 3: opts += [('f', (1, 2, 0), 2)]
    o = opts[choose(E, f'op{k}', len(opts))]
    if o[0] == 'n': B.node(o[1], o[2])
    else: B.factor(list(o[1]), o[2])

@harness(max_paths=2500, time=60, cost=6)
def histories_of_mixed_types(E):
    B = Book(E)
    for k in range(3): step(E, B, k, TYPES)
    B.verify()

@harness(max_paths=2500, time=60, cost=8, thorough_max_paths=8000)
def long_histories(E):
    B = Book(E)
    for k in range(5): step(E, B, k, [L2])
    B.verify()

@harness(max_paths=300)
def eigen_factors(E):
    """eigen factors are numbered on their own, registered with their nodes, and leave the other factors alone"""
    G = Graph(E); p = G.node(P2, [0.5, 0.25, 0.0]); q = G.node(P2, [1.0, 0.0, 0.5]); I = E.eye(3); n = [0, 0]; reg = {p: [], q: []}; plain = []
    for k in range(4):
        two = choose(E, f'two{k}', 2); e = choose(E, f'eigen{k}', 2); z = E.reals(f'z{k}', 3, -1, 1)
        f = G.factor(F2P2, p, q, z, I, add=0) if two else G.factor(F1P2, q, -1, z, I, add=0)
        E.check('id within its own kind', E.call('f_add_eigen' if e else 'f_add', f) == n[e] and E.call('f_id', f) == n[e])
        n[e] += 1
        if not e: plain.append(f)
        for i in ([p, q] if two else [q]): reg[i].append(f)
        E.check('standard factors counted', E.call('g_counts') == 2000+n[0])
        for i in reg: E.check('factors of the node', [E.call('n_fac', i, j) for j in range(E.call('n_nfac', i))] == reg[i])
        for i, f in enumerate(plain): E.check('factor retrieved by its id', E.call('g_getfactor', i) == f)
    E.check('observation dimension', G.dims()[1] == 12)

@harness(max_paths=30)
def mixed_graph(E):
    """a fixed mixed graph checked after every insertion"""
    B = Book(E)
    for t, a in ((P2, 1), (L2, 0), (P3, 0), (PL, 1), (L3, 0)): B.node(t, a); B.verify()
    for ns, d in (([0, 1], 2), ([2, 3], 4), ([4, 2], 3), ([0], 3), ([2], 1), ([1, 4, 0], 2)): B.factor(ns, d); B.verify()

@harness(max_paths=200, cost=2)
def removal(E):
    """removing a factor from a node drops exactly that one; a factor that is not connected changes nothing"""
    B = Book(E); B.node(L2, 0); B.node(L2, 0)
    for ns in ([0], [0, 1], [0], [1]): B.factor(ns, 1)
    exp = {0: [0, 1, 2], 1: [1, 3]}
    for k in range(2):
        n = choose(E, f'n{k}', 2); f = choose(E, f'f{k}', 4)
        r = E.call('n_rm', n, f)
        if f in exp[n]: exp[n].remove(f)
        for i in (0, 1):
            E.check('remaining factors', [E.call('n_fac', i, j) for j in range(E.call('n_nfac', i))] == exp[i])
    E.check('graph keeps the factors', E.call('g_counts') == 2004)

@harness(max_paths=40)
def stored_errors(E):
    """chi2 without re-evaluation reports the stored residuals, with it the current ones; neither changes a state"""
    G = Graph(E); x = E.reals('x', 2, -3, 3); y = E.reals('y', 2, -3, 3); z = E.reals('z', 2, -3, 3); n = G.node(L2, x)
    J = E.arr([[1.0, 0.5], [0.0, 2.0]]); W = E.arr([[2.0, 0.5], [0.5, 1.0]]); f = G.stub([n], J, W, z); f2 = G.stub([n], J, E.eye(2), z)
    e = lambda s: 0.5*E.dot(J @ s - z, W @ (J @ s - z)); e2 = lambda s: 0.5*E.dot(J @ s - z, J @ s - z)
    E.check_eq('evaluated', E.call('g_chi2', 1, out=1), [e(x)+e2(x)], tol=1e-10)
    G.set(n, y)
    E.check_eq('stored', E.call('g_chi2', 0, out=1), [e(x)+e2(x)], tol=1e-10)
    E.check_eq('stored per factor', E.call('g_chi2_array', out=2), [e(x), e2(x)], tol=1e-10)
    E.check_eq('evaluated again', E.call('g_chi2_def', out=1), [e(y)+e2(y)], tol=1e-10)
    E.check_eq('current per factor', E.call('g_chi2_array', out=2), [e(y), e2(y)], tol=1e-10)
    E.check_same('state', G.state(n), y)
