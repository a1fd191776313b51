from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SE3::adj', 'SO3::adj', 'hat3', 'vee3', 'hat6', 'vee6', 'SO3::update_lhs', 'SO3::update_rhs', 'SE3::update_lhs', 'SE3::update_rhs']
BOUNDS = 'all poses (unit quaternions, any translation), all twists; updates exact on every branch because both sides use the library exponential'

@harness()
def hat_vee(E):
    w = E.reals('w', 3); M = E.reals('m', 9)
    x = E.call('hatvee3', w, M, out=15)
    E.check_eq('hat3', x[:9], E.hat(w), tol=0); E.check_eq('vee3(hat3(w)) = w', x[9:12], w, tol=0)
    xi = E.reals('x', 6)
    y = E.call('hatvee6', xi, out=22)
    E.check_eq('hat6', y[:16], E.hat6(xi), tol=0); E.check_eq('vee6(hat6(xi)) = xi', y[16:], xi, tol=0)
    v = E.reals('v', 3)
    E.check_eq('hat(w) v = w x v', x[:9].reshape(3, 3) @ v, [w[1]*v[2]-w[2]*v[1], w[2]*v[0]-w[0]*v[2], w[0]*v[1]-w[1]*v[0]])

@harness()
def adjoint(E):
    T = E.pose('p'); xi = E.reals('x', 6)
    A = E.call('se3_adj', T, out=36).reshape(6, 6)
    E.check_eq('hat(Ad xi) T = T hat(xi)', E.hat6(A @ xi) @ T, T @ E.hat6(xi))
    R = E.rot('q'); w = E.reals('w', 3)
    a = E.call('so3_inv', R, out=27)[9:18].reshape(3, 3)
    E.check_eq('SO3: hat(Ad w) R = R hat(w)', E.hat(a @ w) @ R, R @ E.hat(w))

@harness()
def adjoint_is_homomorphism(E):
    A, B = E.pose('a'), E.pose('b')
    AB = E.call('se3_mul', A, B, out=64)[:16]
    a, b, ab = (E.call('se3_adj', X, out=36).reshape(6, 6) for X in (A, B, AB))
    E.check_eq('Ad(AB) = Ad(A) Ad(B)', ab, a @ b)
    Ai = E.call('se3_inv', A, out=44)[:16]
    E.check_eq('Ad(inv A) Ad(A) = I', E.call('se3_adj', Ai, out=36).reshape(6, 6) @ a, E.eye(6))

@harness(max_paths=20)
def updates_so3(E):
    R = E.reals('r', 9).reshape(3, 3); u = E.unit('u', 3); o = E.angle('o', 0, None, gen=lambda r: r.uniform(0.2, 3))
    w = o*u
    x = E.call('so3_update', R, w, out=27)
    ex = x[18:].reshape(3, 3)
    spec = E.rodrigues(u, E.sin(o), E.cos(o))
    E.check_eq('left update is exp(w) R', x[:9], ex @ R)
    E.check_eq('right update is R exp(w)', x[9:18], R @ ex)
    E.check_close('exponential used by the update', ex, spec, 1e-12)

@harness(max_paths=20)
def updates_se3(E):
    T = E.mat4(E.reals('r', 9).reshape(3, 3), E.reals('t', 3)); u = E.unit('u', 3); o = E.angle('o', 0, None, gen=lambda r: r.uniform(0.2, 3)); v = E.reals('v', 3)
    x = E.call('se3_update', T, [*(o*u), *v], out=48)
    ex = x[32:].reshape(4, 4)
    E.check_eq('left update is exp(xi) T', x[:16], ex @ T)
    E.check_eq('right update is T exp(xi)', x[16:32], T @ ex)
