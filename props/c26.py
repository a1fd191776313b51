from symx.runner import *
from props.pclib import *
from props.c18 import choose
import numpy as np
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
ASSUMPTIONS = [DEC]
FUNCTIONS = ['estimate_plane', 'estimate_plane_centered', 'estimate_normal', 'estimate_centroid']
BOUNDS = '3, 4, 8, 14 and 40 points with any principal axes and spreads (0 to 3), centres in [-5, 5], and 3 to 6 points anywhere in [-5, 5]; every sign of the eigenvectors'
H8 = [[x, y, z] for x in (1.0, -1.0) for y in (1.0, -1.0) for z in (1.0, -1.0)]
# 14 and 40 points: the same directions at several distances
H14 = H8 + [[2.0*s*(k == j) for j in range(3)] for k in range(3) for s in (1.0, -1.0)]
H40 = [[f*x for x in r] for f in (1.0, 0.5, 1.5, 0.25) for r in H8] + [[0.5*x for x in r] for r in H8]
for _h in (H14, H40):      # no leading part of the list has the axes of the whole
    _h[:] = [*sorted(_h, key=lambda r: (-r[0]-0.5*r[1]+0.25*r[2]+r[0]*r[1], r))]
def shape(E, W, a, third_free=False):
    """X = c + W A U'; the spreads a are ascending; the scatter is U (n A^2) U'"""
    U = E.rot('u'); c = E.reals('c', 3, -5, 5); W = E.arr(W); n = perp(E, W)
    X = (W @ diag(E, a)) @ U.T + c
    vals = [n[k]*(a[k]*a[k]) for k in range(3)]
    C = U @ diag(E, vals) @ U.T
    s = 1.0 - 2.0*choose(E, 'sign', 2)
    V = U @ diag(E, [s, 1.0, s])
    E.decomp('eig', C, vals, V)
    return X, c, U, V[:, 0], vals, C
def fit(E, X):
    n = len(X)
    p = E.call('est_plane', n, X, out=4); return p
def basics(E, X, p, c):
    n = len(X)
    E.check_eq('unit normal', E.dot(p[:3], p[:3]), 1.0); E.check_eq('plane passes through the centroid', E.dot(p[:3], c) + p[3], 0.0)
    E.check_eq('normal is the head of the plane', E.call('est_normal', n, X, out=3), p[:3])
    E.check_eq('centroid is the mean', E.call('est_centroid', n, X, out=3), c)
def spreads(E, lo=0.2):
    a = E.reals('a', 3, lo, 3); E.assume(a[0] <= a[1]); E.assume(a[1] <= a[2]); return a

def fitted(E, W, a, flat):
    X, c, U, v, vals, C = shape(E, W, a); p = fit(E, X); basics(E, X, p, c)
    E.check_eq('squared distances sum to the smallest eigenvalue', sum((E.dot(p[:3], x) + p[3])**2 for x in X), vals[0], tol=1e-6)
    if flat:
        for x in X: E.check_eq('every point lies on the plane', E.dot(p[:3], x) + p[3], 0.0, tol=1e-6)
        E.check_eq('normal of the plane up to sign', E.arr([E.dot(p[:3], U[:, 1]), E.dot(p[:3], U[:, 2])]), [0.0, 0.0], tol=1e-6)
@harness(max_paths=20, cost=2)
def general4(E):
    fitted(E, H4, spreads(E), False)
@harness(max_paths=20, cost=3)
def general8(E):
    fitted(E, H8, spreads(E), False)
@harness(max_paths=20, cost=3)
def general14(E):
    fitted(E, H14, spreads(E), False)
@harness(max_paths=20, cost=4)
def coplanar14(E):
    a = spreads(E); fitted(E, H14, [0.0, a[1], a[2]], True)
@harness(max_paths=20, cost=6)
def general40(E):
    fitted(E, H40, spreads(E), False)
@harness(max_paths=20)
def coplanar3(E):
    a = spreads(E); fitted(E, [[r[2], r[0], r[1]] for r in H3], [0.0, a[1], a[2]], True)
@harness(max_paths=20)
def coplanar4(E):
    a = spreads(E); fitted(E, H4, [0.0, a[1], a[2]], True)
@harness(max_paths=20, cost=2)
def coplanar8(E):
    a = spreads(E); fitted(E, H8, [0.0, a[1], a[2]], True)
@harness(max_paths=20)
def equal_spreads(E):
    """a square or an equal-sided triangle: the two larger eigenvalues coincide"""
    s = E.real('s', 0.2, 3); fitted(E, H4, [0.0, s, s], True)

@harness(max_paths=20)
def least(E):
    """no other plane is closer to the points"""
    a = spreads(E); X, c, U, v, vals, C = shape(E, H4, a); p = fit(E, X)
    m = E.unit('m', 3); d = E.real('d', -8, 8)
    mine = sum((E.dot(p[:3], x) + p[3])**2 for x in X)
    E.check_eq('own distance', mine, vals[0], tol=1e-6)
    # sum of the squared distances to (m, d): sum n_k a_k^2 (m.u_k)^2 + N (m.c + d)^2
    other = sum((E.dot(m, x) + d)**2 for x in X); q = [E.dot(m, U[:, k]) for k in range(3)]
    E.check_eq('decomposition of the alternative', other, vals[0] + (vals[1]-vals[0])*q[1]*q[1] + (vals[2]-vals[0])*q[2]*q[2] + 4.0*(E.dot(m, c) + d)**2, tol=1e-6)

def anywhere(E, n):
    """any points: the matrix handed to the solver is their scatter, whatever it answers is the normal"""
    X = E.reals('x', 3*n, -5, 5).reshape(n, 3); c = sum(X)*(1.0/n)
    D = X - c; C = D.T @ D
    V = E.rot('v'); l = E.dot(V[:, 0], C @ V[:, 0])
    E.decomp('eig', C, [l, l+1.0, l+2.0], V)
    p = fit(E, X); basics(E, X, p, c)
    if E.sym: E.check_eq('normal: eigenvector of the smallest eigenvalue', p[:3], V[:, 0])
    else:
        w = np.linalg.eigvalsh(np.array(C, dtype=float)); r = float(sum((E.dot(p[:3], x) + p[3])**2 for x in X))
        E.check('normal: eigenvector of the smallest eigenvalue', abs(r - w[0]) <= 1e-6*(1+w[2]))
@harness(max_paths=10)
def anywhere3(E): anywhere(E, 3)
@harness(max_paths=10, cost=2)
def anywhere5(E): anywhere(E, 5)
@harness(max_paths=10, cost=2)
def anywhere6(E): anywhere(E, 6)

@harness(max_paths=40)
def order(E):
    """the order of the points does not matter; a repeated point moves the centroid"""
    a = spreads(E); X, c, U, v, vals, C = shape(E, H4, a)
    p = fit(E, X); k = choose(E, 'swap', 3); Y = X.copy(); Y[[0, k+1]] = Y[[k+1, 0]]
    E.check_eq('same plane', fit(E, Y), p); E.check_eq('same centroid', E.call('est_centroid', 4, Y, out=3), c)
@harness(max_paths=20)
def doubled(E):
    """every point twice: the same plane"""
    a = spreads(E); X, c, U, v, vals, C = shape(E, H4, a); p = fit(E, X)
    Y = E.arr(list(X) + list(X)); E.check_eq('same plane', fit(E, Y), p)
