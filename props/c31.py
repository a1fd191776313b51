from symx.runner import *
from props.graphlib import *
from props.c18 import choose
from props.c14 import axis_pose, check_ln, adj
HARNESSES = []
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['Factor2Poses2d', 'Factor2Poses2dOdom', 'Factor1Pose2d', 'Factor1Pose1Landmark2d', 'Factor1Pose3d', 'Factor2Poses3d', 'Factor1Pose1Landmark3d', 'Factor1Pose1Plane4d', 'FGraphSolve::build_problem']
BOUNDS = 'all world motions (any rotation, translations in [-5, 5]; for relative 3D poses the rotation is one of 4 signed permutations with any translation), all states and observations; both node orders; relations of Jacobians; permutations of 4 factors and of 3 nodes'

def pose2(E, n, lim=5):
    p = E.reals(n, 2, -lim, lim); return E.arr([p[0], p[1], E.angle(n + 'h', -3.1, 3.1)])
def move2(E, m, x):
    """world motion m = (t, theta) of a 2D pose or point"""
    c, s = E.cos(m[2]), E.sin(m[2]); y = [m[0]+c*x[0]-s*x[1], m[1]+s*x[0]+c*x[1]]
    return E.arr(y + ([x[2]+m[2]] if len(x) == 3 else []))
def rot2(E, m, k):
    c, s = E.cos(m[2]), E.sin(m[2]); B = E.eye(k); B[0, 0] = c; B[0, 1] = -s; B[1, 0] = s; B[1, 1] = c; return B

def two2d(ft, name, rev):
    @harness(name=f'{name}_{"reversed" if rev else "ordered"}', max_paths=120, cost=3)
    def h(E):
        a = pose2(E, 'a'); b = pose2(E, 'b') if ft != FL2 else E.reals('b', 2, -5, 5); m = pose2(E, 'm')
        z = E.reals('z', 2, -3, 3); z = E.arr([z[0], z[1], 0.5]) if ft == F2P2 else E.arr([0.25, z[0], z[1]*0.5]) if ft == ODOM else E.arr([z[0], 0.5])
        if ft == FL2 or ft == ODOM:
            d = b[:2]-a[:2]; E.assume(E.dot(d, d) > 0.01)
        out = []
        for A, B in ((a, b), (move2(E, m, a), move2(E, m, b))):
            G = Graph(E); tb = L2 if ft == FL2 else P2
            if rev: ib = G.node(tb, B); ia = G.node(P2, A)
            else: ia = G.node(P2, A); ib = G.node(tb, B)
            k = FDIM[ft]; f = G.factor(ft, ia, ib, z, E.eye(k)); r = G.res(f); J = G.jac(f)
            out.append((r, J, [E.call('f_nb', f, 0), E.call('f_nb', f, 1)] == [ia, ib], G.chi2(f)))
        (r, J, o, c), (r2, J2, o2, c2) = out
        na = 3; nb = 2 if ft == FL2 else 3
        sp = lambda J, o: (J[:, :na], J[:, na:]) if o else (J[:, nb:], J[:, :nb])
        ang = 2 if ft == F2P2 else 1 if ft == FL2 else None
        (Ja, Jb), (Ja2, Jb2) = sp(J, o), sp(J2, o2)
        if ft == ODOM:
            # prediction minus target pose: a vector of the world, turns with it
            E.check_eq('residual translation', r2[:2], rot2(E, m, 2) @ r[:2], tol=1e-6); E.check_angle('residual heading', r2[2], r[2])
            Ja, Jb = rot2(E, m, 3) @ Ja, rot2(E, m, 3) @ Jb
        else:
            for i in range(len(r)):
                if i == ang:
                    E.check_angle(f'residual {i}', r2[i], r[i])
                    for q in (r, r2): E.check(f'residual {i} within half a turn', And(q[i] <= E.pi + 1e-9, q[i] >= -E.pi - 1e-9))
                else: E.check_eq(f'residual {i}', [r2[i]], [r[i]], tol=1e-6)
        E.check_eq('Jacobian of the pose', Ja2 @ rot2(E, m, 3), Ja, tol=1e-6); E.check_eq('Jacobian of the other node', Jb2 @ rot2(E, m, nb), Jb, tol=1e-6)
for _r in (0, 1): two2d(F2P2, 'relative_pose_2d', _r); two2d(FL2, 'landmark_2d', _r)
two2d(ODOM, 'odometry_2d', 0)

@harness(max_paths=60)
def prior_2d(E):
    x = pose2(E, 'x'); z = pose2(E, 'z'); m = pose2(E, 'm'); E.assume(And(x[2]-z[2] < 3.1, x[2]-z[2] > -3.1))
    r = []
    for X, Z in ((x, z), (move2(E, m, x), move2(E, m, z))):
        G = Graph(E); n = G.node(P2, X); r.append(G.res(G.factor(F1P2, n, -1, Z, E.eye(3))))
    E.check_eq('residual position rotates with the world', r[1][:2], rot2(E, m, 2) @ r[0][:2], tol=1e-6)
    E.check_angle('residual heading', r[1][2], r[0][2])

def pair3(rev):
    tag = 'reversed' if rev else 'ordered'
    @harness(name=f'landmark_3d_{tag}', max_paths=20, cost=3)
    def lm(E):
        T = E.pose('t', -5, 5); l = E.reals('l', 3, -5, 5); z = E.reals('z', 3, -5, 5); M = E.pose('m', -5, 5)
        out = []
        for A, L in ((T, l), (M @ T, M[:3, :3] @ l + M[:3, 3])):
            G = Graph(E)
            if rev: il = G.node(L3, L); ip = G.node(P3, A)
            else: ip = G.node(P3, A); il = G.node(L3, L)
            f = G.factor(FL3, ip, il, z, E.eye(3)); r = G.res(f); J = G.jac(f); o = E.call('f_nb', f, 0) == ip
            out.append((r, *((J[:, :6], J[:, 6:]) if o else (J[:, 3:], J[:, :3]))))
        E.check_eq('residual unchanged', out[1][0], out[0][0], tol=1e-6)
        E.check_eq('pose Jacobian carried by the motion', out[1][1] @ adj(E, M), out[0][1], tol=1e-6)
        E.check_eq('landmark Jacobian carried by the motion', out[1][2] @ M[:3, :3], out[0][2], tol=1e-6)
    @harness(name=f'plane_{tag}', max_paths=20, cost=3)
    def pl(E):
        T = E.pose('t', -5, 5); n = E.unit('n', 3); p = E.arr([*n, E.real('d', -5, 5)]); M = E.pose('m', -5, 5); k = E.unit('k', 3); z = E.arr([*k, E.real('e', -5, 5)])
        Mi = E.inv4(M); out = []
        for A, P in ((T, p), (M @ T, Mi.T @ p)):
            G = Graph(E)
            if rev: il = G.node(PL, P); ip = G.node(P3, A)
            else: ip = G.node(P3, A); il = G.node(PL, P)
            f = G.factor(FPL, ip, il, z, E.eye(4)); r = G.res(f); J = G.jac(f); o = E.call('f_nb', f, 0) == ip
            out.append((r, *((J[:, :6], J[:, 6:]) if o else (J[:, 4:], J[:, :4]))))
        E.check_eq('residual unchanged', out[1][0], out[0][0], tol=1e-6)
        E.check_eq('pose Jacobian carried by the motion', out[1][1] @ adj(E, M), out[0][1], tol=1e-6)
    @harness(name=f'relative_pose_3d_{tag}', max_paths=60, cost=4)
    def rp(E):
        """the residual lives in the world frame: it is carried by the adjoint of the motion"""
        X, u, o = axis_pose(E, 'x'); Z = E.mat4(E.eye(3), E.reals('z', 3, -5, 5)); O = E.mat4(E.eye(3), E.reals('o', 3, -5, 5))
        R = [[[0.0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0.0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1.0, 0, 0], [0, 0, -1], [0, 1, 0]], [[-1.0, 0, 0], [0, -1, 0], [0, 0, 1]]][choose(E, 'R', 4)]; M = E.mat4(E.arr(R), E.reals('m', 3, -5, 5))
        Y = M @ X @ E.inv4(M)
        G = Graph(E); A, B = M @ O, E.inv4(Y) @ M @ O @ Z
        if rev: t = G.node(P3, B); on = G.node(P3, A)
        else: on = G.node(P3, A); t = G.node(P3, B)
        f = G.factor(F2P3, on, t, Z, E.eye(6)); r = G.res(f)
        check_ln(E, 'residual', r, M[:3, :3] @ u, o, Y[:3, 3], -1 if rev else 1)
for _r in (0, 1): pair3(_r)

@harness(max_paths=40, cost=4)
def factor_order(E):
    """the factors of a problem added in any order: same error, same normal equations"""
    import itertools
    x = [E.reals(f'x{i}', 2, -5, 5) for i in range(3)]; z = E.reals('z', 8, -5, 5); w = E.reals('w', 4, 0.1, 5)
    perm = list(itertools.permutations(range(4)))[choose(E, 'perm', 24)]
    D = E.arr([[-1.0, 0.0, 1.0, 0.0], [0.0, -1.0, 0.5, 1.0]])
    res = []
    for order in (range(4), perm):
        G = Graph(E)
        for s in x: G.node(L2, s)
        mk = [lambda: G.stub([0], E.eye(2), w[0]*E.eye(2), z[:2]), lambda: G.stub([0, 1], D, w[1]*E.eye(2), z[2:4]), lambda: G.stub([2, 1], D, w[2]*E.eye(2), z[4:6]), lambda: G.stub([2, 0], D, w[3]*E.eye(2), z[6:8])]
        for i in order: mk[i]()
        E.call('g_build'); e = E.call('g_chi2_array', out=4); inv = [list(order).index(i) for i in range(4)]
        res.append((G.mat('g_L'), G.mat('g_b'), E.call('g_chi2', 0, out=1), [e[i] for i in inv]))
    for k, lab in enumerate(('information matrix', 'information vector', 'total error', 'error of each factor')): E.check_eq(lab, res[1][k], res[0][k], tol=1e-8)

@harness(max_paths=20, cost=3)
def node_order(E):
    """the nodes of a problem added in any order: normal equations permuted alike"""
    import itertools
    ty = [L2, P2, L3]; x = [E.reals('x', 2, -5, 5), E.arr([*E.reals('y', 2, -5, 5), 0.5]), E.reals('l', 3, -5, 5)]; z = E.reals('z', 6, -5, 5); w = E.reals('w', 3, 0.1, 5)
    perm = list(itertools.permutations(range(3)))[choose(E, 'perm', 6)]
    res = []
    for order in (range(3), perm):
        G = Graph(E); h = {}
        for i in order: h[i] = G.node(ty[i], x[i])
        d2 = lambda a, b: E.arr([[(-1.0 if i == j else 0.25 if j > i else 0.0) for j in range(NDIM[ty[a]])] + [(1.0 if i == j else 0.0) for j in range(NDIM[ty[b]])] for i in range(2)])
        G.stub([h[0], h[1]], d2(0, 1), w[0]*E.eye(2), z[:2]); G.stub([h[2], h[1]], d2(2, 1), w[1]*E.eye(2), z[2:4]); G.stub([h[2], h[0]], d2(2, 0), w[2]*E.eye(2), z[4:6])
        E.call('g_build'); L = G.mat('g_L'); b = G.mat('g_b'); off = {}; n = 0
        for i in order: off[i] = n; n += NDIM[ty[i]]
        ix = [off[i]+k for i in range(3) for k in range(NDIM[ty[i]])]
        res.append((L[ix][:, ix], b[ix], E.call('g_chi2', 0, out=1)))
    for k, lab in enumerate(('information matrix', 'information vector', 'total error')): E.check_eq(lab, res[1][k], res[0][k], tol=1e-8)
