"""Shared source lists and helpers of the factor-graph properties."""
GEOM = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp']
GRAPH = GEOM + ['src/FGraph/' + f for f in ('node.cpp', 'factor.cpp', 'factor_graph.cpp', 'factor_graph_solve.cpp', 'factor_graph_solve_dense.cpp')] + \
    ['src/FGraph/factors/' + f + '.cpp' for f in ('nodePose3d', 'factor2Poses3d', 'factor1Pose3d', 'nodePose2d', 'factor1Pose2d', 'factor2Poses2d',
     'nodeLandmark2d', 'nodeLandmark3d', 'factor1Pose1Landmark2d', 'factor1Pose1Landmark3d', 'nodePlane4d', 'factor1Pose1Plane4d')] + \
    ['src/PCRegistration/factors/factor1PosePoint2Plane.cpp', 'src/common/time_profiling.cpp', 'src/common/optimizer.cpp']
P2, P3, L2, L3, PL, P3S = range(6)
F1P2, F2P2, ODOM, F1P3, F1P3S, F2P3, F2P3S, FL2, FL3, FPL, FPP = range(11)
QUAD, HUBER, CAUCHY, MCCLURE, RANSAC = range(5)
NDIM = {P2: 3, P3: 6, L2: 2, L3: 3, PL: 4, P3S: 6}
NSTATE = {P2: 3, P3: 16, L2: 2, L3: 3, PL: 4, P3S: 16}
FDIM = {F1P2: 3, F2P2: 3, ODOM: 3, F1P3: 6, F1P3S: 6, F2P3: 6, F2P3S: 6, FL2: 2, FL3: 3, FPL: 4, FPP: 1}

class Graph:
    """thin handle on the C++ workspace"""
    def __init__(s, E, dense=False):
        s.E = E; E.call('d_reset' if dense else 'g_reset'); s.types = []; s.ft = []
    def node(s, t, x, anchor=0):
        i = s.E.call('g_node', t, anchor, x); s.types.append(t); return i
    def factor(s, t, a, b, z, W, upd=0, rt=0, add=1):
        i = s.E.call('g_factor', t, a, b, upd, rt, add, z, W); s.ft.append(t); return i
    def stub(s, nodes, J, W, z, linear=1, rt=0):
        import numpy as np
        J = np.asarray(J); n = list(nodes) + [0]*(3-len(nodes))
        i = s.E.call('g_stub', J.shape[0], J.shape[1], len(nodes), n[0], n[1], n[2], linear, rt, J, W, z); s.ft.append((J.shape[0], J.shape[1])); return i
    def eval(s, i): s.E.call('f_eval', i)
    def _fd(s, i):
        d = s.E.call('f_dims', i); return d//1000, d % 1000
    def res(s, i, ev=True):
        if ev: s.eval(i)
        return s.E.call('f_res', i, out=s._fd(i)[0])
    def jac(s, i):
        d, n = s._fd(i); return s.E.call('f_jac', i, out=d*n).reshape(d, n)
    def chi2(s, i): return s.E.call('f_chi2', i, out=1)[0]
    def state(s, i):
        x = s.E.call('n_state', i, out=NSTATE[s.types[i]]); return x.reshape(4, 4) if len(x) == 16 else x
    def aux(s, i):
        x = s.E.call('n_aux', i, out=NSTATE[s.types[i]]); return x.reshape(4, 4) if len(x) == 16 else x
    def set(s, i, x):
        t = s.types[i]
        if NSTATE[t] == 16: s.E.call('n_set', i, 4, 4, x)
        else: s.E.call('n_set', i, NSTATE[t], 1, x)
    def update(s, i, dx): s.E.call('n_update', i, NDIM[s.types[i]], dx)
    def update_aux(s, i, dx): s.E.call('n_update_aux', i, NDIM[s.types[i]], dx)
    def dims(s):
        d = s.E.call('g_dims'); return d//1000, d % 1000
    def mat(s, name):
        st, ob = s.dims(); sh = dict(g_A=(ob, st), g_W=(ob, ob), g_L=(st, st), g_b=(st, 1))[name]
        m = s.E.call(name, out=sh[0]*sh[1]); r = s.E.ret
        if name == 'g_b': return m
        s.E.check(name + ' has the expected size', r == sh[0]*1000 + sh[1])
        return m.reshape(sh)
def sym(E, name, n, lo=-2, hi=2):
    """full symmetric matrix of symbolic entries"""
    M = E.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = E.real(f'{name}{i}{j}', lo, hi)
    return M
