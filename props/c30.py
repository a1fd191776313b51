"""The Python bindings are executed for real: the extension module is built with the instrumented
code, symbolic doubles travel through Python floats and numpy arrays, and every method is compared
with the library called directly on the same symbolic arguments."""
import ctypes, functools, importlib.machinery, importlib.util, sys, sysconfig, types
from symx.runner import *
from symx.engine import _bits, b2f, f2b, mk as unbits, LibError, Sym
from props.graphlib import *
from props.graphlib import GRAPH
from props import pclib
from props.c18 import choose
HARNESSES = []
_harness = harness
def harness(**k):
    """pass-through claims: definedness belongs to the other properties, long path conditions are not translated"""
    o = dict(domain=False, terms=400, ftimeout=600); o.update(k)
    def deco(fn):
        @functools.wraps(fn)
        def run(E):
            try: fn(E)
            except (AttributeError, IndexError, KeyError) as x: raise LibError(f'not available from Python: {type(x).__name__}: {str(x)[:200]}')
        return _harness(**o)(run)
    return deco
BIND = ['mrobpy/' + f + '.cpp' for f in ('FGraphPy', 'SE3py', 'PCRegistrationPy', 'PCPlanesPy', 'mrobPy')]
REPO_SRCS = list(dict.fromkeys(GRAPH + pclib.PC + ['src/geometry/SE3cov.cpp'] + BIND))
AUTO = False      # many bindings: the subspaces are explored by the thorough tier and by the checks of the C++ classes
HARNESS_SRCS = ['geom.cpp', 'graph.cpp', 'pc.cpp']
CXXFLAGS = pclib.FLAGS
PER_SRC = {b: ['-I' + sysconfig.get_path('include'), '-I/usr/include/python3.12'] for b in BIND}
FUNCTIONS = ['every method bound in mrobpy/*.cpp except the printing ones, together with the pybind11 casters they use']
ASSUMPTIONS = [pclib.DEC.split(' in the symbolic')[0] + ' as an arbitrary function of the matrix', 'random draws come from a pool shared by both calls', 'scipy.sparse is replaced by a class that keeps the arrays it is given']
BOUNDS = 'any numeric argument; C, Fortran, strided and reversed arrays; graphs of 2 to 3 nodes; 3 to 5 points; iterative solvers along the branch decisions of the sampled start and their first alternatives'

class Csc:
    def __init__(s, a, shape=None): s.data, s.ind, s.ptr = [np.asarray(x) for x in a]; s.shape = shape
    def dense(s, get):
        d = get(s.data); M = np.zeros(tuple(s.shape), dtype=object); M[:] = 0.0
        for j in range(s.shape[1]):
            for k in range(int(s.ptr[j]), int(s.ptr[j+1])): M[int(s.ind[k]), j] = d[k]
        return M
MODS = {}
def module(E):
    p = E.lib._name
    if p not in MODS:
        sp = types.ModuleType('scipy'); sp.__path__ = []; ss = types.ModuleType('scipy.sparse'); sp.sparse = ss; ss.csc_matrix = Csc; ss.csr_matrix = Csc
        sys.modules['scipy'] = sp; sys.modules['scipy.sparse'] = ss
        for n in [n for n in sys.modules if n == 'mrob' or n.startswith('mrob.')]: del sys.modules[n]
        ld = importlib.machinery.ExtensionFileLoader('mrob', p)
        spec = importlib.util.spec_from_file_location('mrob', p, loader=ld)
        m = importlib.util.module_from_spec(spec); ld.exec_module(m); MODS[p] = m
    return MODS[p]
class Py:
    """the Python side: converts symbolic values to Python floats and numpy arrays and back"""
    def __init__(s, E, layout=0):
        s.E = E; s.m = module(E); s.layout = layout; s.kept = []
    def f(s, x): return b2f(_bits(x))
    def a(s, x, layout=None):
        x = np.asarray(x, dtype=object); lay = s.layout if layout is None else layout
        d = np.array([_bits(v) for v in x.ravel()], dtype=np.uint64).view(np.float64).reshape(x.shape)
        if lay == 1: d = np.asfortranarray(d)
        elif lay == 2:
            big = np.full(tuple(2*n for n in d.shape), 7.25); big[tuple(slice(None, None, 2) for _ in d.shape)] = d; d = big[tuple(slice(None, None, 2) for _ in d.shape)]
        elif lay == 3:
            sl = tuple(slice(None, None, -1) for _ in d.shape); d = np.ascontiguousarray(d[sl])[sl]
        s.kept.append((d, d.tobytes())); return d
    def untouched(s): s.E.check('arguments are not modified', all(d.tobytes() == b for d, b in s.kept))
    def out(s, r):
        if isinstance(r, Csc): return r.dense(s.out)
        if isinstance(r, bool): return r
        if isinstance(r, float): return unbits(f2b(r))
        if isinstance(r, np.ndarray) and r.dtype == np.float64:
            u = np.ascontiguousarray(r).view(np.uint64).ravel(); q = np.array([unbits(int(x)) for x in u]+[None], dtype=object)[:-1].reshape(r.shape)
            return q if s.E.sym else q.astype(float)
        return r
    def __call__(s, f, *args, **kw):
        try: return f(*args, **kw)
        except Exception as x: raise LibError(f'{getattr(f, "__name__", f)} raised {type(x).__name__}: {str(x)[:200]}')
    def c(s, f, *args, **kw): return s.out(s(f, *args, **kw))
def lay(E, n=3): return choose(E, 'layout', n)
def same(E, label, got, exp):
    g, x = np.asarray(got, dtype=object), np.asarray(exp, dtype=object)
    E.check(label + ': shape', g.size == x.size and (g.ndim < 2 or g.shape[0] == 1 or g.shape[1] == 1 or g.shape == x.shape))
    if g.size == x.size: E.check_same(label, list(g.ravel()), list(x.ravel()))
def m4(v): return np.asarray(v, dtype=object).reshape(4, 4)
def m3(v): return np.asarray(v, dtype=object).reshape(3, 3)
def parts(v, *shapes):
    o = []; i = 0
    for sh in shapes:
        n = int(np.prod(sh)); o.append(np.asarray(v[i:i+n], dtype=object).reshape(sh)); i += n
    return o
def zrot(E, n):
    a = E.angle(n + 'a', -1, 1); c, s = E.cos(a), E.sin(a); return E.mat4(E.arr([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]), E.reals(n + 't', 3, -5, 5))
def T4(E, n): return E.mat4(E.arr([[E.real(f'{n}R{i}{j}', -1, 1) for j in range(3)] for i in range(3)]), E.reals(n+'t', 3, -5, 5))

# ------------------------------------------------------------------ geometry
@harness(max_paths=24, cost=2)
def se3_basic(E):
    L = lay(E, 4); p = Py(E, L); G = p.m.geometry; A, B = T4(E, 'A'), T4(E, 'B'); a, b = p(G.SE3, p.a(A)), p(G.SE3, p.a(B))
    same(E, 'T of a matrix', p.c(a.T), A); same(E, 'R', p.c(a.R), A[:3, :3]); same(E, 't', p.c(a.t), A[:3, 3])
    ab, ab2, a0, b0 = parts(E.call('se3_mul', A, B, out=64), (4, 4), (4, 4), (4, 4), (4, 4))
    same(E, 'mul', p.c(p(a.mul, b).T), ab2); same(E, 'operator *', p.c(p(lambda: a*b).T), ab)
    inv, _, _, _ = parts(E.call('se3_inv', A, out=44), (4, 4), (4, 4), (3, 3), (3,))
    same(E, 'inv', p.c(p(a.inv).T), inv); same(E, 'adj', p.c(a.adj), E.call('se3_adj', A, out=36).reshape(6, 6))
    x = E.reals('x', 3, -5, 5); same(E, 'transform', p.c(a.transform, p.a(x)), E.call('se3_transform', A, x, out=3))
    X = E.arr([[E.real(f'X{i}{j}', -5, 5) for j in range(3)] for i in range(4)])
    same(E, 'transform_array', p.c(a.transform_array, p.a(X)), E.call('se3_transform_array', A, 4, X, out=12).reshape(4, 3))
    same(E, 'copy constructor', p.c(p(G.SE3, a).T), A); same(E, 'default constructor', p.c(p(G.SE3).T), np.eye(4))
    r = p(G.SO3, p.a(A[:3, :3])); same(E, 'rotation and translation', p.c(p(G.SE3, r, p.a(x)).T), E.mat4(A[:3, :3], x))
    same(E, 'left operand kept', p.c(a.T), A); same(E, 'right operand kept', p.c(b.T), B); p.untouched()
@harness(max_paths=40, cost=3)
def se3_exponential(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; A = E.pose('A', -5, 5); xi = E.reals('xi', 6, -1, 1)
    same(E, 'exponential', p.c(p(G.SE3, p.a(xi)).T), E.call('se3_exp', xi, out=16).reshape(4, 4))
    l, r, _ = parts(E.call('se3_update', A, xi, out=48), (4, 4), (4, 4), (4, 4))
    for n, e in (('update', l), ('update_lhs', l), ('update_rhs', r)):
        t = p(G.SE3, p.a(A)); keep = p(t.T); c = p(G.SE3, t); k0 = p.out(keep); p(getattr(t, n), p.a(xi)); same(E, n, p.c(t.T), e)
        same(E, 'a matrix obtained earlier stays', p.out(keep), k0); same(E, 'an independent copy stays', p.c(c.T), A)
    p.untouched()
@harness(max_paths=24, cost=3)
def se3_logarithm(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; A, B = E.pose('A', -5, 5), E.pose('B', -5, 5); a, b = p(G.SE3, p.a(A)), p(G.SE3, p.a(B))
    same(E, 'Ln', p.c(a.Ln), E.call('se3_ln', A, out=22)[:6])
@harness(max_paths=12, cost=3)
def se3_distances(E):
    p = Py(E); G = p.m.geometry; A, B = zrot(E, 'A'), zrot(E, 'B'); a, b = p(G.SE3, p.a(A)), p(G.SE3, p.a(B))
    d = E.call('se3_distance', A, B, out=6); z = E.call('se3_distance_id', A, out=3)
    for i, n in enumerate(('distance', 'distance_rotation', 'distance_trans')):
        same(E, n, p.c(getattr(a, n), b), d[i]); same(E, n + ' by name', p.c(getattr(a, n), rhs=b), d[i]); same(E, n + ' without argument', p.c(getattr(a, n)), z[i])
@harness(max_paths=14, cost=5, ftimeout=300)
def se3_validity(E):
    p = Py(E); G = p.m.geometry; A = T4(E, 'A')
    for i in range(4): A[3, i] = E.real(f'l{i}', -1, 2)
    E.check('isSE3', bool(p(G.isSE3, p.a(A))) == bool(E.call('is_se3', A))); R = T4(E, 'B')[:3, :3]
    E.check('isSO3', bool(p(G.isSO3, p.a(R))) == bool(E.call('is_so3', R)))
@harness(max_paths=24, cost=2)
def so3_basic(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; A, B = T4(E, 'A')[:3, :3], T4(E, 'B')[:3, :3]; a, b = p(G.SO3, p.a(A)), p(G.SO3, p.a(B))
    same(E, 'R', p.c(a.R), A); m = E.call('so3_mul', A, B, out=36); same(E, 'mul', p.c(p(a.mul, b).R), m3(m[9:18]))
    v = E.call('so3_inv', A, out=27); same(E, 'inv', p.c(p(a.inv).R), m3(v[:9])); same(E, 'adj', p.c(a.adj), m3(v[9:18]))
    same(E, 'copy constructor', p.c(p(G.SO3, a).R), A); same(E, 'default constructor', p.c(p(G.SO3).R), np.eye(3)); same(E, 'kept', p.c(a.R), A); same(E, 'kept', p.c(b.R), B); p.untouched()
@harness(max_paths=30, cost=3)
def so3_exponential(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; A = E.rot('A'); w = E.reals('w', 3, -1, 1)
    l, r, x = parts(E.call('so3_update', A, w, out=27), (3, 3), (3, 3), (3, 3)); same(E, 'exponential', p.c(p(G.SO3, p.a(w)).R), x)
    for n, e in (('update', l), ('update_lhs', l), ('update_rhs', r)):
        t = p(G.SO3, p.a(A)); keep = p(t.R); c = p(G.SO3, t); k0 = p.out(keep); p(getattr(t, n), p.a(w)); same(E, n, p.c(t.R), e)
        same(E, 'a matrix obtained earlier stays', p.out(keep), k0); same(E, 'an independent copy stays', p.c(c.R), A)
    p.untouched()
@harness(max_paths=4, cost=6)
def so3_logarithm(E):
    p = Py(E); G = p.m.geometry; A, B = E.rot('A'), zrot(E, 'B')[:3, :3]; a, b = p(G.SO3, p.a(A)), p(G.SO3, p.a(B))
    same(E, 'Ln', p.c(a.Ln), E.call('so3_ln', A, out=22)[10:13]); same(E, 'distance', p.c(a.distance, b), E.call('so3_distance', A, B, out=2)[0])
@harness(max_paths=24, cost=2)
def conversions(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; w = E.reals('w', 3, -3, 3); xi = E.reals('x', 6, -3, 3); q = E.reals('q', 4, -1, 1); R = E.rot('R')
    same(E, 'hat3', p.c(G.hat3, p.a(w)), m3(E.call('hatvee3', w, R, out=15)[:9])); same(E, 'hat6', p.c(G.hat6, p.a(xi)), m4(E.call('hatvee6', xi, out=22)[:16]))
    same(E, 'curley_wedge', p.c(G.curley_wedge, p.a(xi)), E.call('cov_misc', E.eye(4), E.eye(6), xi, out=52*2+36)[104:].reshape(6, 6))
    same(E, 'quat_to_so3', p.c(G.quat_to_so3, p.a(q)), m3(E.call('q2r', q, out=9))); same(E, 'rpy_to_so3', p.c(G.rpy_to_so3, p.a(w)), m3(E.call('rpy', w, out=9)))
    same(E, 'so3_to_quat', p.c(G.so3_to_quat, p.a(R)), E.call('r2q', R, out=4)); p.untouched()
def S6(E, n): return E.arr([[E.real(f'{n}{i}{j}', -1, 1) for j in range(6)] for i in range(6)])
@harness(max_paths=8, cost=2)
def covariance(E):
    p = Py(E, lay(E, 4)); G = p.m.geometry; A, B = T4(E, 'A'), T4(E, 'B'); S, Q = S6(E, 'S'), S6(E, 'Q')
    a, b = p(G.SE3Cov, p(G.SE3, p.a(A)), p.a(S)), p(G.SE3Cov, p(G.SE3, p.a(B)), p.a(Q)); bs = p(G.SE3, p.a(B))
    def ck(label, o, e): same(E, label + ' pose', p.c(o.T), m4(e[:16])); same(E, label + ' covariance', p.c(o.cov), e[16:52].reshape(6, 6))
    r = E.call('cov_2nd', A, S, B, Q, out=52*6); f = E.call('cov_4th', A, S, B, Q, out=104)
    ck('compound_2nd_order', p(a.compound_2nd_order, b), r[:52]); ck('compound_2nd_order of parts', p(a.compound_2nd_order, bs, p.a(Q)), r[52:104])
    ck('operator *', p(lambda: a*b), r[104:156]); ck('mul', p(a.mul, b), r[156:208]); ck('first operand', a, r[208:260]); ck('second operand', b, r[260:312])
    ck('compound_4th_order', p(a.compound_4th_order, b), f[:52]); ck('compound_4th_order of parts', p(a.compound_4th_order, bs, p.a(Q)), f[52:])
    m = E.call('cov_misc', A, S, E.zeros(6), out=52*2+36); ck('copy', p(G.SE3Cov, a), m[:52]); ck('default', p(G.SE3Cov), m[52:104])

# ------------------------------------------------------------------ factor graphs
RT = ['QUADRATIC', 'HUBER', 'CAUCHY', 'MCCLURE', 'RANSAC']
class Twin:
    """the same graph through Python and through the library"""
    def __init__(s, E, rt='QUADRATIC', default=False, layout=0):
        s.E = E; s.p = Py(E, layout); s.g = Graph(E); s.fg = s.p(s.p.m.FGraph) if default else s.p(s.p.m.FGraph, getattr(s.p.m, rt)); s.rt = int(E.call('g_enums', out=9)[('QUADRATIC', 'CAUCHY', 'HUBER', 'MCCLURE', 'RANSAC').index(rt)])
        s.ids = []
    def val(s, t, x): return s.p(s.p.m.geometry.SE3, s.p.a(x)) if t == P3S else s.p.a(x)
    def node(s, t, x, anchor=None):
        n = {P2: 'add_node_pose_2d', P3S: 'add_node_pose_3d', L2: 'add_node_landmark_2d', L3: 'add_node_landmark_3d', PL: 'add_node_plane_4d'}[t]
        kw = {} if anchor is None else dict(mode=s.p.m.NODE_ANCHOR if anchor else s.p.m.NODE_STANDARD)
        i = s.p(getattr(s.fg, n), s.val(t, x), **kw); j = s.g.node(t, x, 1 if anchor else 0); s.ids.append(i)
        s.E.check('node identifier', i == s.E.call('n_id', j)); return j
    def factor(s, t, a, b, z, W, upd=None, named=False):
        """upd None: the argument is left out (documented default: no initialisation)"""
        n, names = {F1P2: ('add_factor_1pose_2d', None), F2P2: ('add_factor_2poses_2d', ('obs', 'nodeOriginId', 'nodeTargetId', 'obsInvCov', 'updateNodeTarget')),
             ODOM: ('add_factor_2poses_2d_odom', ('obs', 'nodeOriginId', 'nodeTargetId', 'obsInvCov')), F1P3S: ('add_factor_1pose_3d', None), F2P3S: ('add_factor_2poses_3d', None),
             FL2: ('add_factor_1pose_1landmark_2d', ('obs', 'nodePoseId', 'nodeLandmarkId', 'obsInvCov', 'initializeLandmark')), FL3: ('add_factor_1pose_1landmark_3d', ('obs', 'nodePoseId', 'nodeLandmarkId', 'obsInvCov', 'initializeLandmark')),
             FPL: ('add_factor_1pose_1plane_4d', ('obs', 'nodePoseId', 'nodeLandmarkId', 'obsInvCov')), FPP: ('add_factor_1pose_point2plane', ('z_point_x', 'z_point_y', 'z_normal_y', 'nodePoseId', 'obsInf'))}[t]
        W_ = s.p.a(W)
        if t == FPP: args = [s.p.a(z[0:3]), s.p.a(z[3:6]), s.p.a(z[6:9]), s.ids[a], W_]
        else:
            zz = s.p(s.p.m.geometry.SE3, s.p.a(z)) if t in (F1P3S, F2P3S) else s.p.a(z)
            args = [zz, s.ids[a]] + ([s.ids[b]] if b >= 0 else []) + [W_]
        if upd is not None: args.append(bool(upd))
        if named and names: r = s.p(getattr(s.fg, n), **dict(zip(names, args)))
        else: r = s.p(getattr(s.fg, n), *args)
        u = 1 if t == ODOM else int(bool(upd)); j = s.g.factor(t, a, b, z, W, upd=u, rt=s.rt)
        s.E.check('factor identifier', r is None or r == s.E.call('f_id', j)); return j
    def compare(s, label, solved=False):
        E, p, fg = s.E, s.p, s.fg
        E.check(label + 'counts', p(fg.number_nodes)*1000+p(fg.number_factors) == E.call('g_counts'))
        st = p(fg.get_estimated_state); E.check(label + 'number of states', len(st) == len(s.g.types))
        for i, x in enumerate(st): same(E, label + f'state {i}', p.out(x), s.g.state(i))
    def chi(s, label):
        same(s.E, label + 'chi2 default', s.p.c(s.fg.chi2), s.E.call('g_chi2_def', out=1)[0])
        same(s.E, label + 'chi2 kept residuals', s.p.c(s.fg.chi2, False), s.E.call('g_chi2', 0, out=1)[0]); same(s.E, label + 'chi2 by name', s.p.c(s.fg.chi2, evaluateResidualsFlag=True), s.E.call('g_chi2', 1, out=1)[0])
    def matrices(s, label, keep=False):
        E, p, fg, g = s.E, s.p, s.fg, s.g; raw = []
        for n, f in (('g_A', 'get_adjacency_matrix'), ('g_W', 'get_W_matrix'), ('g_L', 'get_information_matrix'), ('g_b', 'get_vector_b')):
            r = p(getattr(fg, f)); same(E, label + f, p.out(r), g.mat(n)); raw.append((f, r, p.out(r)))
        n = len(g.ft); r = p(fg.get_chi2_array); same(E, label + 'get_chi2_array', p.out(r), E.call('g_chi2_array', out=n)); raw.append(('get_chi2_array', r, p.out(r)))
        return raw
def info(E, n, name='W'):
    M = E.zeros(n, n)
    for i in range(n):
        M[i, i] = E.real(f'{name}{i}', 0.5, 4)
        for j in range(i): M[i, j] = M[j, i] = E.real(f'{name}{i}{j}', -0.05, 0.05)
    return M
@harness(max_paths=40, cost=6)
def graph_2d(E):
    """poses, priors, relative poses in 2D: argument order, identifiers, defaults"""
    w = Twin(E, default=True, layout=lay(E)); n = choose(E, 'named', 2)
    x = [E.reals(f'x{i}', 3, -1, 1) for i in range(3)]
    for i in range(3): w.node(P2, x[i], None if i == 1 else (0 if i == 0 else choose(E, 'anchor', 2)))
    w.factor(F1P2, 0, -1, E.reals('p', 3, -1, 1), info(E, 3, 'P'), named=n); w.factor(F2P2, 0, 1, E.reals('z', 3, -1, 1), info(E, 3, 'W'), [None, False][choose(E, 'upd', 2)], named=n)
    w.compare('before '); w.chi('before '); w.p.untouched()
@harness(max_paths=6, cost=8, ftimeout=200)
def graph_2d_solve(E):
    """one Gauss-Newton step, the assembled matrices, and arrays that stay as they were returned"""
    w = Twin(E, default=True); k = choose(E, 'anchor', 3)
    for i in range(3): w.node(P2, E.zeros(3), 1 if i == k else None)
    w.factor(F1P2, 0, -1, E.reals('p', 3, -1, 1), E.eye(3)*2.0); w.factor(F2P2, 0, 1, E.reals('z', 3, -1, 1), E.eye(3)); w.factor(F2P2, 1, 2, E.reals('y', 3, -1, 1), E.eye(3)*0.5)
    w.chi(''); w.p(w.fg.solve); E.call('g_solve_def', 0); raw = w.matrices(''); w.compare('after '); w.chi('after ')
    w.p(w.fg.solve)
    for f, r, v in raw: same(E, f + ' obtained earlier stays', w.p.out(r), v)
@harness(max_paths=3, cost=6)
def graph_information(E):
    """any information matrix, seen in the assembled weights"""
    w = Twin(E); w.node(P2, E.zeros(3)); w.factor(F1P2, 0, -1, E.reals('z', 3, -1, 1), info(E, 3)); w.p(w.fg.solve); E.call('g_solve_def', 0); w.matrices(''); w.compare('')
@harness(max_paths=20, cost=3)
def graph_2d_update(E):
    """the flag that initialises the target and the odometry factor (always initialises)"""
    w = Twin(E, layout=lay(E)); n = choose(E, 'named', 2); x = [E.reals(f'x{i}', 3, -1, 1) for i in range(3)]
    for i in range(3): w.node(P2, x[i])
    w.factor(F2P2, 0, 1, E.reals('z', 3, -1, 1), info(E, 3, 'W'), True, named=n); w.factor(ODOM, 1, 2, E.reals('o', 3, -1, 1), info(E, 3, 'V'), named=n)
    w.compare('after construction '); w.chi('')
@harness(max_paths=24, cost=6)
def graph_3d(E):
    w = Twin(E, layout=lay(E)); A = [E.mat4(E.eye(3), E.reals('a', 3, -2, 2)), zrot(E, 'B')]
    w.node(P3S, A[0], choose(E, 'anchor', 2)); w.node(P3S, A[1])
    w.factor(F1P3S, 0, -1, E.mat4(E.eye(3), E.reals('Z', 3, -2, 2)), info(E, 6, 'P')); u = choose(E, 'upd', 3); w.factor(F2P3S, 0, 1, E.mat4(E.eye(3), E.reals('Y', 3, -2, 2)), info(E, 6, 'W'), [None, False, True][u])
    w.compare('before '); w.chi('before ')
@harness(max_paths=2, cost=8, maxbr=3000)
def graph_3d_solve(E):
    w = Twin(E); w.node(P3S, E.eye(4)); w.node(P3S, E.mat4(E.eye(3), E.reals('a', 3, -2, 2)))
    w.factor(F1P3S, 0, -1, E.eye(4), E.eye(6)); w.factor(F2P3S, 0, 1, E.mat4(E.eye(3), E.reals('z', 3, -2, 2)), E.eye(6)*2.0)
    w.p(w.fg.solve, w.p.m.GN); E.call('g_solve_def', 0); w.compare('after '); w.matrices(''); w.chi('')
@harness(max_paths=60, cost=4)
def graph_landmarks_2d(E):
    w = Twin(E, layout=lay(E)); n = choose(E, 'named', 2); w.node(P2, E.reals('x', 3, -1, 1)); w.node(L2, E.reals('l', 2, 1, 3), [None, 0, 1][choose(E, 'mode', 3)])
    w.factor(FL2, 0, 1, E.reals('z', 2, 0.5, 2), info(E, 2), [None, False, True][choose(E, 'init', 3)], named=n); w.compare(''); w.chi('')
@harness(max_paths=60, cost=4)
def graph_landmarks_3d(E):
    w = Twin(E, layout=lay(E)); n = choose(E, 'named', 2); w.node(P3S, E.pose('A', -2, 2)); w.node(L3, E.reals('l', 3, -3, 3), [None, 0, 1][choose(E, 'mode', 3)])
    w.factor(FL3, 0, 1, E.reals('z', 3, -2, 2), info(E, 3), [None, False, True][choose(E, 'init', 3)], named=n); w.compare(''); w.chi('')
@harness(max_paths=30, cost=4)
def graph_planes(E):
    w = Twin(E, layout=lay(E)); n = choose(E, 'named', 2); w.node(P3S, E.pose('A', -2, 2)); w.node(PL, E.arr([*E.unit('u', 3), E.real('d', -2, 2)]), [None, 0, 1][choose(E, 'mode', 3)])
    w.factor(FPL, 0, 1, E.arr([*E.unit('v', 3), E.real('e', -2, 2)]), info(E, 4), named=n); w.compare(''); w.chi('')
@harness(max_paths=12, cost=4)
def graph_point_to_plane(E):
    w = Twin(E, layout=lay(E)); n = choose(E, 'named', 2); w.node(P3S, E.pose('A', -2, 2))
    w.factor(FPP, 0, -1, E.reals('z', 9, -2, 2), E.arr([[E.real('w', 0.5, 3)]]), named=n); w.compare(''); w.chi('')
KINDS = [F1P2, F2P2, ODOM, F1P3S, F2P3S, FL2, FL3, FPL, FPP]
def small(E, w, t, mode=None):
    """a full-rank graph around one factor of kind t with a symbolic observation; mode: of the last node"""
    r = lambda n, c, k=1.5: E.real(n, c-k, c+k)
    if t in (F1P2, F2P2, ODOM, FL2):
        two = t in (F2P2, ODOM); w.node(P2, E.zeros(3), None if two or t == FL2 else mode)
        if t != F1P2: w.factor(F1P2, 0, -1, E.zeros(3), E.eye(3))
        if two: w.node(P2, E.zeros(3), mode)
        if t == FL2: w.node(L2, E.arr([3.0, 4.0]), mode)
        z = {F1P2: [r('z', 0), r('y', 0), 0.0], F2P2: [r('z', 0), r('y', 0), 0.0], ODOM: [0.0, r('z', 2), 0.0], FL2: [r('z', 5), 0.5]}[t]
        w.factor(t, 0, -1 if t == F1P2 else 1, E.arr(z), E.eye(len(z)))
    else:
        w.node(P3S, E.eye(4), None if t in (F2P3S, FL3, FPL) else mode)
        if t != F1P3S: w.factor(F1P3S, 0, -1, E.eye(4), E.eye(6))
        if t == F2P3S: w.node(P3S, E.eye(4), mode)
        if t == FL3: w.node(L3, E.arr([1.0, 2.0, -1.0]), mode)
        if t == FPL: w.node(PL, E.arr([0.0, 0.0, 1.0, 2.0]), mode)
        T = E.mat4(E.eye(3), E.arr([r('z', 0), r('y', 0), r('x', 0)]))
        if t in (F1P3S, F2P3S): w.factor(t, 0, -1 if t == F1P3S else 1, T, E.eye(6))
        elif t == FL3: w.factor(t, 0, 1, E.arr([r('z', 1), r('y', 2), -1.0]), E.eye(3))
        elif t == FPL: w.factor(t, 0, 1, E.arr([0.0, 0.0, 1.0, r('z', 2)]), E.eye(4))
        else: w.factor(t, 0, -1, E.arr([1.0, 0.0, 2.0, r('z', 1), 0.5, r('y', 2), 0.0, 0.0, 1.0]), E.arr([[1.0]]))
@harness(max_paths=80, cost=9, ftimeout=150, terms=100)
def graph_robust(E):
    """the kernel named in the constructor applies to every factor; seen in the weights"""
    t = KINDS[choose(E, 'factor', 9)]; k = choose(E, 'kernel', 5); w = Twin(E, RT[k]); small(E, w, t)
    w.p(w.fg.solve); E.call('g_solve_def', 0); w.matrices('')
@harness(max_paths=45, cost=6, ftimeout=150, terms=100)
def graph_modes(E):
    """anchored and standard nodes of every kind; seen in the assembled matrices and the state after a step"""
    t = KINDS[choose(E, 'factor', 9)]; m = [None, 0, 1][choose(E, 'mode', 3)]; w = Twin(E, default=True)
    small(E, w, t, m if t in (F2P2, ODOM, F2P3S, FL2, FL3, FPL) else 0)
    w.p(w.fg.solve); E.call('g_solve_def', 0); w.matrices(''); w.compare('after ')
@harness(max_paths=10, cost=5, maxbr=2000)
def solve_arguments(E):
    """method, iterations, damping and tolerance reach the solver; the documented defaults"""
    w = Twin(E); k = choose(E, 'call', 6); lam = E.real('lam', 1e-6, 1); tol = E.real('tol', 0.001, 0.5); z = E.reals('z', 3, -1, 1)
    w.node(P2, E.zeros(3)); w.factor(F1P2, 0, -1, z, E.eye(3)); m = w.p.m; g = lambda it, l, t: E.call('g_solve', 1, it, [l], [t])
    if k == 0: w.p(w.fg.solve, m.LM, 2, w.p.f(lam), w.p.f(tol)); g(2, lam, tol)
    elif k == 1: w.p(w.fg.solve, method=m.LM, maxIters=1, **{'lambda': w.p.f(lam)}); g(1, lam, 1e-2)
    elif k == 2: w.p(w.fg.solve, m.LM); g(30, 1e-6, 1e-2)
    elif k == 3: w.p(w.fg.solve, m.LM, 3); g(3, 1e-6, 1e-2)
    elif k == 4: w.p(w.fg.solve, m.LM, solutionTolerance=w.p.f(tol)); g(30, 1e-6, tol)
    else: w.p(w.fg.solve); E.call('g_solve', 0, 30, [1e-6], [1e-2])
    w.compare(''); w.chi('')
@harness(max_paths=1)
def enumerations(E):
    m = module(E)
    P = m.registration; ints = lambda o, *n: [int(getattr(o, x)) for x in n]
    E.check('graph enumerations', ints(m, 'QUADRATIC', 'CAUCHY', 'HUBER', 'MCCLURE', 'RANSAC', 'NODE_STANDARD', 'NODE_ANCHOR', 'GN', 'LM') == [int(x) for x in E.call('g_enums', out=9)])
    E.check('plane modes', ints(P, 'INITIALIZE', 'GRADIENT_BENGIOS_NAG', 'GRADIENT_ALL_POSES', 'GN_HESSIAN', 'GN_CLAMPED_HESSIAN', 'LM_SPHER', 'LM_ELLIP') == [int(x) for x in E.call('pr_enums', out=7)])

# ------------------------------------------------------------------ registration
def pts(E, n, k, c=3): return E.arr([[E.real(f'{n}{i}_{j}', -3, 3) for j in range(c)] for i in range(k)])
@harness(max_paths=8, cost=3)
def reg_arun(E):
    E.decomp_any(); p = Py(E, lay(E)); X, Y = pts(E, 'X', 4), pts(E, 'Y', 4); T = p(p.m.registration.arun, p.a(X), p.a(Y))
    same(E, 'arun', p.c(T.T), m4(E.call('arun', 4, X, Y, E.eye(4), out=16))); p.untouched()
@harness(max_paths=1, cost=6, maxbr=4000)
def reg_weighted(E):
    E.decomp_any(); p = Py(E, lay(E)); X = pts(E, 'X', 4); T0 = E.mat4(E.eye(3), E.reals('t', 3, -0.1, 0.1)); Y = X + pts(E, 'd', 4)*0.01 if E.sym else X + pts(E, 'd', 4)*0.01
    wt = E.reals('w', 4, 0.5, 2); T = p(p.m.registration.weighted, p.a(X), p.a(Y), p.a(wt)); same(E, 'weighted', p.c(T.T), m4(E.call('weighted_def', 4, X, Y, wt, E.eye(4), out=16))); p.untouched()
@harness(max_paths=1, cost=6, maxbr=4000)
def reg_gicp(E):
    E.decomp_any(); p = Py(E, lay(E)); X = pts(E, 'X', 4); Y = X + pts(E, 'd', 4)*0.01
    def cov(n):
        C = E.zeros(12, 3)
        for i in range(4): C[3*i:3*i+3] = info(E, 3, f'{n}{i}_')
        return C
    cX, cY = cov('cx'), cov('cy'); T = p(p.m.registration.gicp, p.a(X), p.a(Y), p.a(cX), p.a(cY)); same(E, 'gicp', p.c(T.T), m4(E.call('gicp_def', 4, X, Y, cX, cY, E.eye(4), out=16))); p.untouched()
@harness(max_paths=8, cost=2)
def reg_plane(E):
    E.decomp_any(); p = Py(E, lay(E)); n = 3 + choose(E, 'n', 3); X = pts(E, 'X', n); R = p.m.registration
    same(E, 'estimate_plane', p.c(R.estimate_plane, p.a(X)), E.call('est_plane', n, X, out=4)); same(E, 'estimate_normal', p.c(R.estimate_normal, p.a(X)), E.call('est_normal', n, X, out=3))
    same(E, 'estimate_centroid', p.c(R.estimate_centroid, p.a(X)), E.call('est_centroid', n, X, out=3)); p.untouched()
@harness(max_paths=6, cost=4, maxbr=4000)
def plane_registration(E):
    """points, poses, errors and every solve mode of the plane registration"""
    E.decomp_any(); p = Py(E, lay(E)); R = p.m.registration; r = p(R.PlaneRegistration); p(r.set_number_planes_and_poses, 2, 2); E.call('pr_new', 2, 2)
    k = 0
    for i in range(2):
        p(r.add_plane, i); E.call('pr_add', i)
        for t in range(2):
            for j in range(3):
                x = E.reals(f'x{k}_', 3, -3, 3); k += 1; p(r.plane_push_back_point, i, t, p.a(x)); E.call('pr_push', i, t, x)
    T = E.mat4(E.eye(3), E.reals('t', 3, -1, 1))
    E.check('poses', p(r.get_number_poses) == 2)
    p(r.initialize_last_pose_solution, p(p.m.geometry.SE3, p.a(T))); E.call('pr_setlast', T)
    same(E, 'last pose', p.c(p(r.get_last_pose).T), m4(E.call('pr_last', out=16)))
    for t in range(2):
        same(E, f'trajectory {t}', p.c(p(r.get_trajectory, t).T), m4(E.call('pr_pose', t, out=16)))
        c = p(r.get_point_cloud, t); e = E.call('pr_cloud', t, out=18).reshape(6, 3); E.check('points', len(c) == 6)
        for j in range(min(6, len(c))): same(E, 'point', p.out(c[j]), e[j])
    same(E, 'error', p.c(r.get_error), E.call('pr_error', out=1)[0]); p(r.reset_solution); E.call('pr_reset')
    same(E, 'after a reset', p.c(p(r.get_last_pose).T), m4(E.call('pr_last', out=16))); p.untouched()
@harness(max_paths=8, cost=9, maxbr=6000, ftimeout=200, terms=100)
def plane_solve(E):
    E.decomp_any(); p = Py(E); R = p.m.registration; r = p(R.PlaneRegistration); p(r.set_number_planes_and_poses, 3, 2); E.call('pr_new', 3, 2)
    base = [[0.0, 1.0], [1.0, -0.5], [-1.0, -0.5], [0.25, 0.25]]
    for i in range(3):
        p(r.add_plane, i); E.call('pr_add', i)
        for t in range(2):
            for j, (a, b) in enumerate(base):
                x = [a, b]; x.insert(i, 0.0 + (0.1 if t else 0.0)); x = E.arr(x)
                if i == 0 and j == 0: x = x + E.reals(f'd{t}', 3, -0.01, 0.01)
                p(r.plane_push_back_point, i, t, p.a(x)); E.call('pr_push', i, t, x)
    k = choose(E, 'mode', 4); one = choose(E, 'single', 2); n = ('INITIALIZE', 'GRADIENT_ALL_POSES', 'GN_HESSIAN', 'GN_CLAMPED_HESSIAN')[k]
    a = p(r.solve, getattr(R, n), bool(one)) if k % 2 else p(r.solve, mode=getattr(R, n), singleIteration=bool(one)); T = m4(E.call('pr_solve', int(getattr(R, n)), one, out=16))
    E.check('iterations', a == E.ret); same(E, 'solution', p.c(p(r.get_last_pose).T), T)
@harness(max_paths=6, cost=4)
def create_points(E):
    E.decomp_any(); p = Py(E); R = p.m.registration; n, planes, poses = 3, 2, 2; u = [0.5 + 0.03*(i % 11) for i in range(6*planes)]
    u += [0.4, 0.5, 0.6] + list(E.reals('lt', 3, 0, 1)) + list(E.reals('x', 2*n*poses, 0, 1)); z = list(E.reals('z', poses*(n+2), -2, 2)); no, bi = E.real('noise', 0, 1), E.real('bias', 0, 1)
    def fill(): E.call('draws', 0, len(u), E.arr(u)); E.call('draws', 1, len(z), E.arr(z))
    fill(); E.call('cp_new', n, planes, poses, [no], [bi])
    e = [(E.call('cp_cloud', t, out=3*n).reshape(n, 3), E.call('cp_ids', t, out=n), E.call('cp_pose', t, out=16)) for t in range(poses)]; last = E.call('cp_pose', -1, out=16)
    fill(); c = p(R.CreatePoints, n, planes, poses, p.f(no), p.f(bi))
    for t in range(poses):
        X = p(c.get_point_cloud, t); ids = p(c.get_point_plane_ids, t); E.check('labels', [int(i) for i in ids] == [int(i) for i in e[t][1]]); E.check('points', len(X) == n)
        for j in range(n): same(E, f'point of cloud {t}', p.out(X[j]), e[t][0][j])
        same(E, f'trajectory {t}', p.c(p(c.get_trajectory, t).T), m4(e[t][2]))
    same(E, 'last pose', p.c(p(c.get_ground_truth_last_pose).T), m4(last)); r = p(R.PlaneRegistration); p(c.create_plane_registration, r)
    for t in range(poses):
        X = p(r.get_point_cloud, t); E.check('points handed over', sorted(tuple(map(f2b, map(float, x))) for x in X) == sorted(tuple(map(_bits, x)) for x in e[t][0]))
