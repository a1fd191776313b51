"""Model of a plane observed from several poses, shared by C27 and C28."""
from props.pclib import *
import numpy as np
def homog(E, x): return E.arr([*x, 1.0])
def gens(E):
    G = []
    for i in range(6):
        M = E.zeros(4, 4)
        if i < 3: M[:3, :3] = E.hat([1.0 if k == i else 0.0 for k in range(3)])
        else: M[i-3, 3] = 1.0
        G.append(M)
    return G
def moments(E, T, pts):
    """sum over the points of (T p)(T p)'"""
    M = E.zeros(4, 4)
    for x in pts:
        h = T @ homog(E, x); M = M + E.arr([[a*b for b in h] for a in h])
    return M
def total(E, Ts, points):
    M = E.zeros(4, 4)
    for T, pts in zip(Ts, points): M = M + moments(E, T, pts)
    return M
def frame4(E, v):
    """an orthonormal basis that starts with v"""
    a, b, c, d = v
    return E.arr([[a, -b, -c, -d], [b, a, -d, c], [c, d, a, -b], [d, -c, b, a]])
EXTRA = [[1.0, 2.0, -1.0], [2.0, -1.0, 3.0], [-2.0, 1.0, 1.0], [0.5, -3.0, 2.0]]   # not on a common plane: no error vanishes by accident
def register(E, M, v, gap=1.0):
    """the eigenvalue solver answers v for this matrix; every symmetric matrix has such an answer"""
    l = E.dot(v, M @ v); E.decomp('eig', M, [l, l+gap, l+2*gap, l+3*gap], frame4(E, v)); return l
def check_plane(E, label, M, v, err, plane, tol=1e-6):
    """plane and error are the smallest eigenpair of M"""
    if E.sym:
        E.check_eq(label + 'plane', plane, v); E.check_eq(label + 'error', err, E.dot(v, M @ v))
    else:
        A = np.array(M, dtype=float); w = np.linalg.eigvalsh(A); s = 1+w[3]; p = np.array(plane, dtype=float)
        E.check(label + 'plane', abs(p @ p - 1) < 1e-9 and p @ A @ p - w[0] < tol*s and np.abs(A @ p - w[0]*p).max() < 1e-6*s)
        E.check(label + 'error', abs(err - w[0]) < tol*s)
def derivatives(E, plane, T, pts):
    """gradient and Hessian of sum (plane . exp(xi) T p)^2 at xi = 0"""
    G = gens(E); g = E.zeros(6); H = E.zeros(6, 6)
    for x in pts:
        h = T @ homog(E, x); r = E.dot(plane, h); Gh = [m @ h for m in G]; J = [E.dot(plane, u) for u in Gh]
        for i in range(6):
            g[i] = g[i] + 2.0*r*J[i]
            for j in range(i, 6): H[i, j] = H[i, j] + 2.0*J[i]*J[j] + r*(E.dot(plane, G[i] @ Gh[j]) + E.dot(plane, G[j] @ Gh[i]))
    return g, H
class Model:
    """a plane in the library and what it must contain"""
    def __init__(s, E, n, Ts=None):
        s.E = E; s.n = n; s.known = {}; s.pts = [[] for _ in range(n)]
        s.Ts = Ts or [E.eye(4) for _ in range(n)]
        E.call('pl_reset', n); s.p = E.call('pl_new', n); s.p = E.ret
        for t in range(n): E.call('pl_pose', t, s.Ts[t])
    def push(s, t, x):
        x = s.E.arr(list(x))
        s.E.call('pl_push', s.p, t, s.E.arr(list(x)))
        if t < s.n: s.pts[t].append(x)
    def pose(s, t, T): s.E.call('pl_pose', t, T); s.Ts[t] = T
    def M(s): return total(s.E, s.Ts, s.pts)
    def estimate(s, v, label=''):
        E = s.E; M = s.M(); key = tuple((id(T), *map(id, q)) for T, q in zip(s.Ts, s.pts) if q)
        if key in s.known: v = s.known[key]      # the same matrix again: the same answer
        else: s.known[key] = v; register(E, M, v)
        o = E.call('pl_estimate', s.p, out=6)
        E.check_same(label + 'reported error', o[0], o[1]); check_plane(E, label, M, v, o[0], o[2:6]); return o[2:6]
    def counts(s, label=''):
        E = s.E
        for t in range(s.n):
            E.call('pl_n', s.p, t); E.check(label + f'points at pose {t}', E.ret == len(s.pts[t]))
        E.call('pl_n', s.p, -1); E.check(label + 'total points', E.ret == sum(map(len, s.pts)))
        for t in range(s.n):
            if s.pts[t]:
                o = E.call('pl_points', s.p, t, out=3*len(s.pts[t])); E.check_same(label + f'points of pose {t}', o, E.arr([c for x in s.pts[t] for c in x]))
