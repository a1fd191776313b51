from symx.runner import *
from props.pclib import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
ASSUMPTIONS = [DEC]
FUNCTIONS = ['PCRegistration::arun']
BOUNDS = '3 and 4 correspondences with any principal axes and spreads (0 to 3 along each axis), any rotation, translations in [-5, 5], every sign choice of the singular vectors'

def flips(E, U, V, S, third):
    """another choice of singular vectors: signs of pairs, and of a single vector where its singular value vanishes"""
    k = choose(E, 'signs', 4); s = [1.0, 1.0, 1.0]
    if k & 1: s[0] = -1.0
    if k & 2: s[1] = -1.0
    D = diag(E, s); U2 = U @ D; V2 = V @ D
    if third and choose(E, 'third', 2): U2 = U2 @ diag(E, [1.0, 1.0, -1.0])
    return U2, V2
def problem(E, W, a, b, U, V, third=False, sgn=1.0):
    """X = centre + W A U', Y = centre + W B V'; the cross moment is U (n A B) V'"""
    cx = E.reals('cx', 3, -5, 5); cy = E.reals('cy', 3, -5, 5); W = E.arr(W); n = perp(E, W)
    X = (W @ diag(E, a)) @ U.T + cx; Y = (W @ diag(E, b)) @ V.T + cy
    S = [n[i]*(a[i]*b[i]) for i in range(3)]
    M = U @ diag(E, S) @ V.T
    Vs = V
    if sgn < 0: S[2] = -S[2]; Vs = V @ diag(E, [1.0, 1.0, -1.0])
    U2, V2 = flips(E, U, Vs, S, third)
    E.decomp('svd', M, S, U2, V2)
    return X, Y, cx, cy
T0 = [[0.0, -1.0, 0.0, 3.0], [1.0, 0.0, 0.0, 2.0], [0.0, 0.0, 1.0, 1.0], [0.0, 0.0, 0.0, 1.0]]
def run(E, X, Y):
    T = E.call('arun', len(X), X, Y, E.arr(T0), out=16).reshape(4, 4); return T, E.ret
def expect(E, T, r, R, cx, cy):
    E.check('reports success', r == 1)
    E.check_eq('rotation', T[:3, :3], R, tol=1e-6); E.check_eq('translation', T[:3, 3], cy - R @ cx, tol=1e-6)
    E.check_same('last row', T[3], [0.0, 0.0, 0.0, 1.0])

@harness(max_paths=40, cost=4)
def rigid_general(E):
    """four points spanning space"""
    U = E.rot('u'); R = E.rot('r'); a = E.reals('a', 3, 0.3, 3)
    E.assume(a[0] >= a[1]); E.assume(a[1] >= a[2])
    X, Y, cx, cy = problem(E, H4, a, a, U, R @ U)
    E.check_eq('the sets are related by the motion', Y, (X - cx) @ R.T + cy)
    expect(E, *run(E, X, Y), R, cx, cy)

@harness(max_paths=40, cost=4)
def rigid_symmetric(E):
    """equal spreads in two or three directions: squares, tetrahedra"""
    U = E.rot('u'); R = E.rot('r'); k = choose(E, 'equal', 3); s = E.real('s', 0.5, 3); q = E.real('q', 0.3, 0.5)
    a = [[s, s, s], [s, s, q], [s, q, q]][k]
    X, Y, cx, cy = problem(E, H4, a, a, U, R @ U)
    expect(E, *run(E, X, Y), R, cx, cy)

@harness(max_paths=60, cost=4)
def rigid_planar(E):
    """coplanar points: the third singular value vanishes and its vectors have any sign"""
    U = E.rot('u'); R = E.rot('r'); a = E.reals('a', 2, 0.3, 3); E.assume(a[0] >= a[1])
    a = [a[0], a[1], 0.0]
    X, Y, cx, cy = problem(E, [H4, H3][choose(E, 'points', 2)], a, a, U, R @ U, third=True)
    expect(E, *run(E, X, Y), R, cx, cy)

@harness(max_paths=60, cost=4)
def rigid_planar_equal(E):
    """an equilateral triangle or a square"""
    U = E.rot('u'); R = E.rot('r'); s = E.real('s', 0.3, 3)
    if choose(E, 'points', 2): W = H4; a = [s, s, 0.0]
    else: W = [[1.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [0.0, -2.0, 0.0]]; a = [s*E.sqrt(3.0), s, 0.0]
    X, Y, cx, cy = problem(E, W, a, a, U, R @ U, third=True)
    expect(E, *run(E, X, Y), R, cx, cy)

@harness(max_paths=60, cost=4)
def any_sets(E):
    """sets not related by a motion: the result is the proper rotation of least squared error, also for mirrored sets"""
    U = E.rot('u'); V = E.rot('v'); a = E.reals('a', 3, 0.3, 3); b = E.reals('b', 3, 0.3, 3); m = choose(E, 'mirrored', 2)
    E.assume(a[0]*b[0] >= a[1]*b[1]); E.assume(a[1]*b[1] >= a[2]*b[2] + 0.01)
    if m: b = [b[0], b[1], -b[2]]
    X, Y, cx, cy = problem(E, H4, a, b, U, V, sgn=-1.0 if m else 1.0)
    expect(E, *run(E, X, Y), V @ U.T, cx, cy)

@harness(max_paths=60, cost=4)
def collinear(E):
    """collinear or coincident points: failure, the transformation is left alone"""
    U = E.rot('u'); V = E.rot('v'); a = E.real('a', 0, 3) if choose(E, 'line', 2) else 0.0
    X, Y, cx, cy = problem(E, [H4, H3][choose(E, 'points', 2)], [a, 0.0, 0.0], [a, 0.0, 0.0], U, V, third=True)
    T, r = run(E, X, Y)
    E.check('reports failure', r == 0); E.check_same('transformation unchanged', T, E.arr(T0))

@harness(max_paths=60, cost=4)
def ambiguous_mirror(E):
    """only one of the sets is collinear"""
    U = E.rot('u'); V = E.rot('v'); a = E.reals('a', 3, 0.3, 3); b = E.real('b', 0.3, 3)
    X, Y, cx, cy = problem(E, H4, a, [b, 0.0, 0.0], U, V, third=True)
    T, r = run(E, X, Y)
    E.check('reports failure', r == 0); E.check_same('transformation unchanged', T, E.arr(T0))
