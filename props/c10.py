from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SE3Cov::compound_2nd_order', 'SE3Cov::compound_4th_order', 'SE3Cov::operator*', 'SE3Cov::mul', 'SE3Cov constructors', 'curly_wedge']
BOUNDS = 'second order: all poses, all (also non-symmetric) covariances; fourth order: all symmetric covariances, first pose with arbitrary translation and the identity or a rotation about an axis by any angle'

def sym6(E, n):
    S = E.zeros(6, 6)
    for i in range(6):
        for j in range(i, 6):
            S[i, j] = S[j, i] = E.real(f'{n}{i}{j}')
    return S
def adj(E, T):
    A = E.zeros(6, 6); R, t = T[:3, :3], T[:3, 3]
    A[:3, :3] = R; A[3:, 3:] = R; A[3:, :3] = E.hat(t) @ R
    return A

def part(n, f): return '+'.join(f'{n}{6*i+j}' for i in range(6) for j in range(6) if f(i, j))
def upart(n, f): return '+'.join(f'{n}{i}{j}' for i in range(6) for j in range(i, 6) if f(i, j))
rotation_known, position_known, uncorrelated, diagonal = lambda i, j: i < 3 or j < 3, lambda i, j: i > 2 or j > 2, lambda i, j: (i < 3) != (j < 3), lambda i, j: i != j
SPECIAL = ['s', 'z', 'z=s', 'a', 'b', 'a_t', 'b_t', 'a_q', 'b_q', 'b=a'] + [part(n, f) for n in 'sz' for f in (rotation_known, position_known, uncorrelated, diagonal)]
SPECIAL4 = [upart('s', lambda i, j: True), upart('z', lambda i, j: True), 'bt'] + [upart(n, f) for n in 'sz' for f in (rotation_known, position_known, uncorrelated, diagonal)]
@harness(special=SPECIAL)
def second_order(E):
    A, B = E.pose('a'), E.pose('b')
    S1, S2 = E.reals('s', 36).reshape(6, 6), E.reals('z', 36).reshape(6, 6)
    x = E.call('cov_2nd', A, S1, B, S2, out=52*6).reshape(6, 52)
    Ad = adj(E, A)
    S = S1 + Ad @ S2 @ Ad.T
    for i, n in enumerate(('compound_2nd_order(SE3Cov)', 'compound_2nd_order(SE3, cov)', 'operator*', 'mul')):
        E.check_eq(n + ': pose', x[i][:16], (A @ B).ravel())
        E.check_eq(n + ': covariance', x[i][16:], S.ravel())
    E.check_same('left operand unchanged', x[4], [*A.ravel(), *S1.ravel()])
    E.check_same('right operand unchanged', x[5], [*B.ravel(), *S2.ravel()])

def gens(E):
    G = []
    for k in range(6):
        M = np.zeros((6, 6)); e = np.zeros(3); e[k % 3] = 1
        H = np.array([[0, -e[2], e[1]], [e[2], 0, -e[0]], [-e[1], e[0], 0]])
        if k < 3: M[:3, :3] = H; M[3:, 3:] = H
        else: M[3:, :3] = H
        G.append(M)
    return G

def fourth(name, mk, special=()):
    @harness(name=name, cost=3, time=60, special=special)
    def h(E):
        A = mk(E); B = E.mat4(E.eye(3), E.reals('bt', 3))
        S1, S2 = sym6(E, 's'), sym6(E, 'z')
        x = E.call('cov_4th', A, S1, B, S2, out=104).reshape(2, 52)
        Ad = adj(E, A)
        S2p = Ad @ S2 @ Ad.T
        G = gens(E)
        def A_(S):
            r = E.zeros(6, 6)
            for a in range(6):
                for b in range(6):
                    M = G[a] @ G[b]
                    for i, j in zip(*np.nonzero(M)): r[i, j] = r[i, j] + float(M[i, j])*S[a, b]
            return r
        def sc(M, S):   # numeric times symbolic, skipping zeros
            r = E.zeros(6, 6)
            for i, k in zip(*np.nonzero(M)):
                for j in range(6): r[i, j] = r[i, j] + float(M[i, k])*S[k, j]
            return r
        def B_():
            r = E.zeros(6, 6)
            for a in range(6):
                GS = sc(G[a], S2p)
                for b in range(6):
                    GSG = sc(G[b], GS.T).T
                    for i in range(6):
                        for j in range(6): r[i, j] = r[i, j] + S1[a, b]*GSG[i, j]
            return r
        A1, A2 = A_(S1), A_(S2p)
        S = S1 + S2p + (A1 @ S2p + S2p @ A1.T + A2 @ S1 + S1 @ A2.T)/12 + B_()/4
        for i, n in enumerate(('compound_4th_order(SE3Cov)', 'compound_4th_order(SE3, cov)')):
            E.check_eq(n + ': pose', x[i][:16], (A @ B).ravel())
            E.check_eq(n + ': covariance is the fourth order moment', x[i][16:], S.ravel())
            M = x[i][16:].reshape(6, 6)
            E.check_eq(n + ': symmetric', M - M.T, E.zeros(6, 6))
fourth('fourth_order_unrotated', lambda E: E.eye(4), SPECIAL4)
fourth('fourth_order_translated', lambda E: E.mat4(E.eye(3), E.arr([E.real('tx'), 0.0, 0.0])))
def rotz(E):
    o = E.angle('o', ('pi', -1), ('pi', 1), gen=lambda r: r.uniform(-3, 3)); s, c = E.sin(o), E.cos(o)
    return E.mat4(E.arr([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]), E.zeros(3))
fourth('fourth_order_rotated', rotz)
fourth('fourth_order_any_translation', lambda E: E.mat4(E.eye(3), E.reals('t', 3)))
fourth('fourth_order_any_pose', lambda E: E.pose('a'))

@harness()
def constructors(E):
    A = E.pose('a'); S = E.reals('s', 36); xi = E.reals('x', 6)
    x = E.call('cov_misc', A, S, xi, out=52*2+36)
    E.check_same('copy constructor', x[:52], [*A.ravel(), *S])
    E.check_eq('default: identity pose and covariance', x[52:104], [*E.eye(4).ravel(), *E.eye(6).ravel()], tol=0)
    H = E.zeros(6, 6); H[:3, :3] = E.hat(xi[:3]); H[3:, 3:] = E.hat(xi[:3]); H[3:, :3] = E.hat(xi[3:])
    E.check_eq('curly wedge', x[104:], H.ravel())
