from symx.runner import *
from props.pclib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
FUNCTIONS = ['PCRegistration::weighted_point', 'PCRegistration::gicp']
BOUNDS = '3 to 6 correspondences; observed points and initial translation in [-5, 5], weights 0.1 to 5, covariances 0.1 to 3; initial rotations of 0 and 90 degrees or any angle about one axis'
X6 = [[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]
RC = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
BIG = [1e6]
def start(E, t=(0.0, 0.0, 0.0)): return E.mat4(E.arr(RC), E.arr(list(t)))
def shifted(E, c): return E.arr(X6) + E.arr(c)     # the same shape elsewhere
def move(E, T, X): return E.arr(X) @ T[:3, :3].T + T[:3, 3]
def inv3(E, M):
    a, b, c, d, e, f, g, h, i = M.ravel()
    A = E.arr([[e*i-f*h, c*h-b*i, b*f-c*e], [f*g-d*i, a*i-c*g, c*d-a*f], [d*h-e*g, b*g-a*h, a*e-b*d]])
    k = 1.0/(a*A[0, 0]+b*A[1, 0]+c*A[2, 0])
    return E.arr([[k*x for x in r] for r in A])
def gauss_newton(E, X, Y, L, T):
    """the step on the left of T for residuals y - Tx with information L"""
    H = E.zeros(6, 6); g = E.zeros(6)
    for x, y, l in zip(X, Y, L):
        p = T[:3, :3] @ E.arr(x) + T[:3, 3]; r = y - p
        J = E.zeros(3, 6); J[:, :3] = E.hat(p); J[:, 3:] = -E.eye(3)
        H = H + J.T @ l @ J; g = g + J.T @ (l @ r)
    return H, g
def solve(E, H, g):
    n = len(g); A = [[*H[i], g[i]] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if i != k:
                f = A[i][k]/A[k][k]; A[i] = [x - f*y for x, y in zip(A[i], A[k])]
    return E.arr([A[i][n]/A[i][i] for i in range(n)])
def check_step(E, label, Tn, T, X, Y, L, tol=1e-6):
    H, g = gauss_newton(E, X, Y, L, T); d = -solve(E, H, g)
    E.check_close(label + 'one Gauss-Newton step on the left', Tn, E.call('pose_update', T, d, out=16).reshape(4, 4), tol=1e-9)
def wl(E, w): return [diag(E, [x, x, x]) for x in w]

def off(E, Y, k, v): Y[k] = Y[k] + E.arr(v)
OFFS = {1: [0.5, -0.25, 1.0], 2: [0.0, 1.0, -0.5], 5: [-1.0, 0.5, 0.25]}
def target(E, T, X, sym=()):
    """observed points: displaced by fixed amounts, the ones in sym anywhere"""
    Y = move(E, T, X)
    for k, v in OFFS.items(): off(E, Y, k, v)
    for k in sym: Y[k] = E.reals(f'y{k}_', 3, -5, 5)
    return Y
def weighted_body(E, T, X, Y, w):
    Tn = E.call('weighted', len(X), X, Y, w, T, BIG, out=16).reshape(4, 4); E.check('one iteration', E.ret == 1)
    check_step(E, '', Tn, T, X, Y, wl(E, w))

@harness(max_paths=30, cost=5)
def weighted_step_target(E):
    """any position of three of the observed points; the initial pose centres the points"""
    X = shifted(E, [-2.0, 1.0, 0.5]); T = start(E, [-0.5, 2.0, -1.0])
    weighted_body(E, T, X, target(E, T, X, (0, 3, 4)), [1.0]*6)
@harness(max_paths=30, cost=5)
def weighted_step_weights(E):
    """any weight of a pair of opposite points"""
    k = choose(E, 'pair', 3); w = [2.0, 2.0, 1.0, 1.0, 0.5, 0.5]; w[2*k] = w[2*k+1] = E.real('w', 0.1, 5)
    T = start(E); weighted_body(E, T, E.arr(X6), target(E, T, X6), w)
@harness(max_paths=40, cost=5)
def weighted_step_one_weight(E):
    """any weight of one point"""
    k = choose(E, 'point', 3); w = [1.0]*6; w[[0, 3, 4][k]] = E.real('w', 0.1, 5); T = start(E)
    weighted_body(E, T, E.arr(X6), target(E, T, X6), w)
@harness(max_paths=40, cost=5)
def weighted_step_pose(E):
    """any initial translation along an axis"""
    k = choose(E, 'axis', 3); t = [0.0, 0.0, 0.0]; t[k] = E.real('t', -5, 5); T = start(E, t)
    weighted_body(E, T, E.arr(X6), target(E, T, X6), [1.0]*6)

@harness(max_paths=40, cost=5)
def weighted_fixed_point(E):
    """aligned sets, any rotation: nothing moves, one iteration"""
    k = choose(E, 'axis', 3); t = [0.0, 0.0, 0.0]; t[k] = E.real('t', -5, 5)
    T = E.mat4(E.rot('r'), E.arr(t)); Y = move(E, T, X6)
    Tn = E.call('weighted', 6, X6, Y, [1.0]*6, T, [1e-4], out=16).reshape(4, 4); n = E.ret
    E.check('converged at once', n == 1); E.check_close('stays at the true motion', Tn, T, tol=1e-9)

@harness(max_paths=40, cost=3)
def weighted_zero_weight(E):
    """a correspondence of weight zero has no influence, wherever it stands"""
    T = start(E); Y = target(E, T, X6, (0,)); w = [1.0]*6
    T1 = E.call('weighted', 6, X6, Y, w, T, BIG, out=16)
    k = choose(E, 'where', 4); X7 = list(X6); Y7 = list(Y); w7 = list(w)
    X7.insert(2*k, E.reals('xo', 3, -5, 5)); Y7.insert(2*k, E.reals('yo', 3, -5, 5)); w7.insert(2*k, 0.0)
    T2 = E.call('weighted', 7, X7, Y7, w7, T, BIG, out=16)
    E.check_close('same result', T2, T1, tol=1e-9)

def translate(E, fn, *mid):
    v = E.real('d', -2, 2); d = E.arr([0.0, 0.0, 0.0]); d[choose(E, 'axis', 3)] = v; Y = E.arr(X6) + d
    T = E.call(fn, 6, X6, Y, *mid, E.eye(4), out=16).reshape(4, 4); n = E.ret
    E.check_eq('converged', T, E.mat4(E.eye(3), d), tol=1e-9)
    if v*v > 1.0000001e-8: E.check('two iterations', n == 2)
    elif v*v < 0.9999999e-8: E.check('below the default tolerance: one iteration', n == 1)
@harness(max_paths=40, cost=3)
def weighted_translation(E):
    """a translated set converges in one step; the next one confirms it"""
    translate(E, 'weighted_def', [2.0]*6)
@harness(max_paths=40, cost=3)
def gicp_translation(E):
    c = E.arr([r for i in range(6) for r in diag(E, [0.5, 0.5, 0.5])])
    translate(E, 'gicp_def', c, c)

@harness(max_paths=12, cost=50, maxbr=2000)
def weighted_iterations(E):
    """never more than 20 iterations"""
    d = E.arr([0.0, E.real('d', 0.5, 2), 0.0]); Y = E.arr(X6) + d
    T = E.call('weighted', 6, X6, Y, [1.0]*6, E.eye(4), [-1.0], out=16); E.check('at most 20 iterations', E.ret <= 20)
    E.check_close('still at the optimum', T, E.mat4(E.eye(3), d), tol=1e-9)
@harness(max_paths=12, cost=50, maxbr=2000)
def gicp_iterations(E):
    d = E.arr([0.0, E.real('d', 0.5, 2), 0.0]); Y = E.arr(X6) + d; c = E.arr([r for i in range(6) for r in diag(E, [0.5, 0.5, 0.5])])
    T = E.call('gicp', 6, X6, Y, c, c, E.eye(4), [-1.0], out=16); E.check('at most 20 iterations', E.ret <= 20)
    E.check_close('still at the optimum', T, E.mat4(E.eye(3), d), tol=1e-9)

def rotated(E, fn, *mid):
    """a turned set: the first step is a pure rotation by the sine of the angle, and it alone decides whether to go on"""
    k = choose(E, 'axis', 3); tol = [0.03125, 0.0078125, 0.125][k]; o = E.angle('o', 2**-9, 0.2, gen=lambda r: r.choice([0.004, 0.02, 0.1, 0.18])); s, c = E.sin(o), E.cos(o)
    R = [E.arr([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]), E.arr([[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]), E.arr([[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]])][k]
    Y = E.arr(X6) @ R.T; T = E.call(fn, 6, X6, Y, *mid, E.eye(4), [tol], out=16); n = E.ret
    if s > tol*1.000001: E.check('a turn above the tolerance is not the last step', n >= 2)
    elif s < tol*0.999999: E.check('a turn below the tolerance is the last step', n == 1)
@harness(max_paths=60, cost=6)
def weighted_rotation_tolerance(E): rotated(E, 'weighted', [2.0]*6)
@harness(max_paths=60, cost=6)
def gicp_rotation_tolerance(E):
    c = E.arr([r for i in range(6) for r in diag(E, [0.5, 0.5, 0.5])]); rotated(E, 'gicp', c, c)

def memoryless(E, fn, *mid):
    """every iteration starts from the pose of the one before and nothing else: n iterations are n runs of one"""
    X = E.arr(X6) + E.arr([0.5, -1.0, 0.25]); A = E.mat4(E.arr(RC), E.arr([0.5, -0.25, 1.0])); Y = move(E, A, X)
    Y[0] = Y[0] + E.arr([E.real('y', -0.3, 0.3), 0.2, -0.1]); T0 = E.mat4(E.eye(3), E.arr([0.2, 0.1, -0.3])) if choose(E, 'start', 2) else E.mat4(E.arr([[0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0]]), E.zeros(3))
    tol = [2.0, 1.0, 0.5, 0.1, 0.01][choose(E, 'tol', 5)]; Ts = [T0]
    T = E.call(fn, 6, X, Y, *mid, T0, [tol], out=16).reshape(4, 4); n = E.ret
    for k in range(min(n, 8)): Ts.append(E.call(fn, 6, X, Y, *mid, Ts[-1], BIG, out=16).reshape(4, 4))
    if n < len(Ts): E.check_close('same as repeated single steps', T, Ts[n], tol=1e-9)
@harness(max_paths=10, cost=8, terms=40, domain=False, ftimeout=100, qtimeout=500, maxbr=3000)
def weighted_memoryless(E): memoryless(E, 'weighted', [2.0, 1.0, 1.0, 0.5, 1.0, 3.0])
@harness(max_paths=10, cost=8, terms=40, domain=False, ftimeout=100, qtimeout=500, maxbr=3000)
def gicp_memoryless(E):
    d = lambda *v: diag(E, list(v)); CX = [d(0.01, 1.0, 2.0), d(1.0, 0.02, 0.5), d(0.5, 3.0, 0.05), d(2.0, 0.5, 0.01), d(0.03, 0.5, 1.0), d(1.0, 1.0, 0.1)]
    cx = E.arr([r for C in CX for r in C]); cy = E.arr([r for i in range(6) for r in d(0.1, 0.2, 0.05)]); memoryless(E, 'gicp', cx, cy)

# ---------------------------------------------------------------- generalised ICP
def gicp_body(E, T, X, Y, CX, CY):
    cx = E.arr([r for C in CX for r in C]); cy = E.arr([r for C in CY for r in C])
    Tn = E.call('gicp', len(X), X, Y, cx, cy, T, BIG, out=16).reshape(4, 4); E.check('one iteration', E.ret == 1)
    R = T[:3, :3]
    check_step(E, '', Tn, T, X, Y, [inv3(E, b + R @ a @ R.T) for a, b in zip(CX, CY)])
def axis_cov(E):
    d = [0.5, 0.5, 0.5]; d[choose(E, 'axis', 3)] = E.real('c', 0.2, 3); return diag(E, d)
def pairs(E, C): return [C[0], C[0], C[1], C[1], C[2], C[2]]

@harness(max_paths=30, cost=5)
def gicp_step_target(E):
    """any position of three observed points"""
    X = shifted(E, [-2.0, 1.0, 0.5]); T = start(E, [-0.5, 2.0, -1.0]); h = diag(E, [0.5, 0.5, 0.5])
    gicp_body(E, T, X, target(E, T, X, (0, 3, 4)), [h]*6, [h]*6)
@harness(max_paths=30, cost=5)
def gicp_step_source_covariance(E):
    """any axis-aligned source covariance of a pair: it turns with the pose"""
    k = choose(E, 'pair', 3); T = start(E); h = diag(E, [0.5, 0.5, 0.5]); C = [h, h, h]; C[k] = axis_cov(E)
    gicp_body(E, T, E.arr(X6), target(E, T, X6), pairs(E, C), [h]*6)
@harness(max_paths=30, cost=5)
def gicp_step_target_covariance(E):
    k = choose(E, 'pair', 3); T = start(E); h = diag(E, [0.5, 0.5, 0.5]); C = [h, h, h]; C[k] = axis_cov(E)
    gicp_body(E, T, E.arr(X6), target(E, T, X6), [h]*6, pairs(E, C))
@harness(max_paths=60, cost=6)
def gicp_step_each_covariance(E):
    """each point uses its own covariances"""
    k = choose(E, 'point', 6); T = start(E); h = diag(E, [0.5, 0.5, 0.5]); CX = [h]*6; CY = [h]*6; c = E.real('c', 0.2, 3)
    C = diag(E, [c, c, c]); CX[k] = C
    gicp_body(E, T, E.arr(X6), target(E, T, X6), CX, CY)
@harness(max_paths=60, cost=6)
def gicp_step_correlated(E):
    """correlated covariances"""
    k = choose(E, 'entry', 3); i, j = [(0, 1), (0, 2), (1, 2)][k]; T = start(E); h = diag(E, [0.5, 0.5, 0.5])
    C = diag(E, [0.5, 0.5, 0.5]); C[i, j] = C[j, i] = E.real('c', -0.4, 0.4)
    a, b = ([C]*6, [h]*6) if choose(E, 'side', 2) else ([h]*6, [C]*6)
    gicp_body(E, T, E.arr(X6), target(E, T, X6), a, b)
@harness(max_paths=30, cost=5)
def gicp_step_pose(E):
    k = choose(E, 'axis', 3); t = [0.0, 0.0, 0.0]; t[k] = E.real('t', -5, 5); T = start(E, t); h = diag(E, [0.5, 0.5, 0.5])
    gicp_body(E, T, E.arr(X6), target(E, T, X6), [h]*6, [h]*6)
@harness(max_paths=30, cost=5)
def gicp_fixed_point(E):
    k = choose(E, 'axis', 3); t = [0.0, 0.0, 0.0]; t[k] = E.real('t', -5, 5)
    T = E.mat4(E.arr(RC), E.arr(t)); Y = move(E, T, X6); h = diag(E, [0.5, 0.25, 1.0])
    c = E.arr([r for i in range(6) for r in h])
    Tn = E.call('gicp', 6, X6, Y, c, c, T, [1e-4], out=16).reshape(4, 4); n = E.ret
    E.check('converged at once', n == 1); E.check_close('stays at the true motion', Tn, T, tol=1e-9)
@harness(max_paths=30, cost=5)
def gicp_isotropic_is_weighted(E):
    """isotropic covariances: the same step as the weighted alignment"""
    T = start(E); Y = target(E, T, X6, (0,)); w = [1.0, 1.0, 2.0, 2.0, 0.5, 0.5]
    c = E.arr([r for x in w for r in E.eye(3)*(0.5/x)])
    T1 = E.call('gicp', 6, X6, Y, c, c, T, BIG, out=16); T2 = E.call('weighted', 6, X6, Y, w, T, BIG, out=16)
    E.check_close('same step', T1, T2, tol=1e-9)
