from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SE3::SE3(Mat61)', 'SE3::exp', 'hat6', 'vee6', 'SO3::exp']
BOUNDS = 'xi = (o*u, v): u any unit vector, o any real >= 0, v any vector with |v_i| <= 1 on the series branch (linear in v), any real v on the closed-form branch; series closeness 1e-12'

@harness(max_paths=16)
def exp_is_matrix_exponential(E):
    u = E.unit('u', 3); o = E.angle('o', 0, None, gen=lambda r: r.uniform(0.1, 3)); v = E.reals('v', 3, -1, 1)
    T = E.call('se3_exp', [*(o*u), *v], out=16).reshape(4, 4)
    s, c = E.sin(o), E.cos(o)
    U = E.hat(u)
    E.check_close('rotation block is exp(w)', T[:3, :3], E.rodrigues(u, s, c), 1e-12)
    # o * t = [o I + (1-c) U + (o-s) U^2] v    (t = V v, V the integral of exp)
    V = o*E.eye(3) + (1-c)*U + (o-s)*(U @ U)
    E.check_close('o t = o V v', o*T[:3, 3], V @ v, 1e-14)
    E.check_eq('last row', T[3], [0, 0, 0, 1], tol=0)

@harness(max_paths=16)
def exp_closed_form_unbounded_v(E):
    u = E.unit('u', 3); o = E.angle('o', 0.002, None, gen=lambda r: r.uniform(0.1, 3)); v = E.reals('v', 3)
    T = E.call('se3_exp_member', [*(o*u), *v], out=16).reshape(4, 4)
    s, c = E.sin(o), E.cos(o)
    U = E.hat(u)
    E.check_eq('rotation block is exp(w)', T[:3, :3], E.rodrigues(u, s, c))
    V = o*E.eye(3) + (1-c)*U + (o-s)*(U @ U)
    E.check_eq('o t = o V v', o*T[:3, 3], V @ v)
    E.check_eq('last row', T[3], [0, 0, 0, 1], tol=0)

@harness(max_paths=16)
def series_translation(E):
    """small angles: t = (I + U o/2 + U^2 o^2/6 - ...) v to 1e-12"""
    u = E.unit('u', 3); o = E.angle('o', 0, 0.0011, gen=lambda r: r.uniform(0.0001, 0.0009)); v = E.reals('v', 3, -1, 1)
    T = E.call('se3_exp', [*(o*u), *v], out=16).reshape(4, 4)
    U = E.hat(u)
    t = v + (o/2 - o**3/24)*(U @ v) + (o**2/6 - o**4/120)*(U @ (U @ v))
    E.assume(o <= 0.001)
    E.check_close('t = V v', T[:3, 3], t, 2e-15)

@harness()
def exp_of_pure_translation(E):
    v = E.reals('v', 3)
    T = E.call('se3_exp', [0.0, 0.0, 0.0, *v], out=16).reshape(4, 4)
    E.check_eq('R = I', T[:3, :3], E.eye(3), tol=0)
    E.check_eq('t = v', T[:3, 3], v, tol=0)
    T = E.call('se3_exp', E.zeros(6), out=16).reshape(4, 4)
    E.check_eq('exp(0) = I', T, E.eye(4), tol=0)
