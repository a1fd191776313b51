from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['isSO3', 'isSE3']
BOUNDS = 'accept: all rotations and poses, entries perturbed by up to 1e-9; reject: all matrices whose deviation from orthonormality, determinant or last row exceeds 1e-3 (entries up to 2), and undefined entries'

@harness()
def accepts_rotations(E):
    R = E.rot('q')
    E.check('every rotation is accepted', E.call('is_so3', R) == 1)
    T = E.pose('p')
    E.check('every rigid transformation is accepted', E.call('is_se3', T) == 1)

def _rounded(k):
    @harness(name=f'accepts_rounded_rotation_{k}', ftimeout=700, time=25)
    def h(E):
        # rounding-level noise on one entry
        R = E.rot('q'); d = E.real('d', -1e-9, 1e-9)
        X = R.copy(); X.ravel()[k] = X.ravel()[k] + d
        E.check('a rounded rotation is accepted', E.call('is_so3', X) == 1)
        E.check('a rounded pose is accepted', E.call('is_se3', E.mat4(X, E.reals('t', 3))) == 1)
for _k in range(9): _rounded(_k)

@harness(ftimeout=700)
def accepts_rounded_identity(E):
    D = E.reals('d', 9, -1e-9, 1e-9).reshape(3, 3); r = E.reals('r', 4, -1e-9, 1e-9)
    E.check('a rounded identity is accepted', E.call('is_so3', E.eye(3) + D) == 1)
    T = E.eye(4); T[3, :] = T[3, :] + r
    E.check('a rounded last row is accepted', E.call('is_se3', T) == 1)

@harness()
def rejects_reflections(E):
    R = E.rot('q')
    for k in range(3):
        S = E.eye(3); S[k, k] = -1.0
        E.check('a reflection is rejected', E.call('is_so3', R @ S) == 0)
    E.check('minus a rotation is rejected', E.call('is_so3', -1.0*R) == 0)

@harness()
def rejects_scaled(E):
    R = E.rot('q'); k = E.real('k', 0, 4)
    E.assume(Or(k < 0.999, k > 1.001))
    E.check('a scaled rotation is rejected', E.call('is_so3', k*R) == 0)

@harness()
def rejects_stretched(E):
    """determinant one but not orthonormal"""
    R = E.rot('q'); k = E.real('k', 0.2, 5)
    E.assume(Or(k < 0.999, k > 1.001))
    S = E.eye(3); S[0, 0] = k; S[1, 1] = 1/k
    E.check('a stretched matrix of determinant one is rejected', E.call('is_so3', R @ S) == 0)

@harness()
def rejects_sheared(E):
    R = E.rot('q'); k = E.real('k', -2, 2)
    E.assume(Or(k < -0.001, k > 0.001))
    S = E.eye(3); S[0, 1] = k
    E.check('a sheared matrix of determinant one is rejected', E.call('is_so3', R @ S) == 0)

@harness()
def accepted_is_orthonormal(E):
    """whatever is accepted is close to a rotation"""
    # general matrix in the form R * upper triangular
    R = E.rot('q'); U = E.zeros(3, 3)
    for i in range(3):
        for j in range(i, 3):
            U[i, j] = E.real(f'u{i}{j}', -2, 2, gen=lambda r, i=i, j=j: 1.0 if i == j else 0.0)
    X = R @ U
    G = X.T @ X
    ok = E.call('is_so3', X) == 1
    if ok:
        for i in range(3):
            for j in range(i, 3):
                e = 1.0 if i == j else 0.0
                E.check("accepted matrix has X^T X close to I", And(G[i, j] - e <= 1e-3, G[i, j] - e >= -1e-3))

@harness()
def rejects_last_row(E):
    T = E.pose('p')
    for k in range(4):
        d = E.real(f'd{k}', -2, 2)
        E.assume(Or(d < -0.001, d > 0.001))
        X = T.copy(); X[3, k] = X[3, k] + d
        E.check('deviation in the last row is rejected', E.call('is_se3', X) == 0)

@harness()
def rejects_last_row_compensating(E):
    T = E.pose('p'); d = E.real('d', -2, 2)
    E.assume(Or(d < -0.001, d > 0.001))
    for i in range(4):
        for j in range(i+1, 4):
            X = T.copy(); X[3, i] = X[3, i] + d; X[3, j] = X[3, j] - d
            E.check('compensating deviations in the last row are rejected', E.call('is_se3', X) == 0)

@harness()
def rejects_undefined(E):
    R = E.rot('q')
    for k in range(9):
        X = R.copy(); X.ravel()[k] = math.nan
        E.check('an undefined entry is rejected', E.call('is_so3', X) == 0)
        T = E.mat4(X, E.zeros(3)); E.check('an undefined rotation entry in a pose is rejected', E.call('is_se3', T) == 0)
    for k in range(4):
        T = E.mat4(R, E.zeros(3)); T[3, k] = math.nan
        E.check('an undefined last-row entry is rejected', E.call('is_se3', T) == 0)
    for v in (math.inf, -math.inf):
        T = E.mat4(R, E.zeros(3)); T[3, 3] = v
        E.check('an infinite last-row entry is rejected', E.call('is_se3', T) == 0)
