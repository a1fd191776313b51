from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SE3::ln', 'SE3::ln_vee', 'SE3::exp', 'SE3::regenerate', 'SO3::ln', 'SO3::exp']
BOUNDS = 'T = (exp(o*u), t): u any unit vector, 0 <= o <= pi, any t; series branches to stated closeness with |t_i| <= 1'
PI1 = ('pi', 1)

@harness(max_paths=40, time=80, cost=5)
def ln_solves_exp(E):
    """xi = ln(T): rotation part o*u and V(xi) * v = t (so exp(xi) = T)"""
    u = E.unit('u', 3); o = E.angle('o', 0, PI1, gen=lambda r: r.uniform(0.2, 3)); t = E.reals('t', 3, -1, 1)
    E.assume(o < E.pi - 1e-7)
    s, c = E.sin(o), E.cos(o)
    R = E.rodrigues(u, s, c)
    x = E.call('se3_ln', E.mat4(R, t), out=6+16)
    w, v = x[:3], x[3:6]
    E.check_eq('ln is the hat of ln_vee', x[6:], E.hat6(x[:6]))
    E.check_close('rotation part', w, o*u, 1e-7)
    U = E.hat(u)
    E.check_close('o V v = o t', o*v + (1-c)*(U @ v) + (o-s)*(U @ (U @ v)), o*t, 1e-11)

@harness(max_paths=40, time=60, cost=3)
def ln_series(E):
    u = E.unit('u', 3); o = E.angle('o', 0, 0.006, gen=lambda r: r.uniform(0.0001, 0.004)); t = E.reals('t', 3, -1, 1)
    s, c = E.sin(o), E.cos(o)
    R = E.rodrigues(u, s, c)
    E.assume(o <= 0.005)
    x = E.call('se3_ln', E.mat4(R, t), out=6+16)
    U = E.hat(u)
    v = t - (o/2)*(U @ t) + (o*o/12 + o**4/720)*(U @ (U @ t))
    E.check_close('v = V^-1 t', x[3:6], v, 1e-12)

@harness(max_paths=40, cost=3)
def ln_half_turn(E):
    u = E.unit('u', 3); t = E.reals('t', 3)
    R = 2*np.outer(u, u) - E.eye(3)
    x = E.call('se3_ln', E.mat4(R, t), out=22)
    w, v = x[:3], x[3:6]
    pi = E.pi
    E.check_eq('w w^T = pi^2 u u^T', np.outer(w, w), (pi*pi)*np.outer(u, u), tol=1e-6)
    W = E.hat(w)
    E.check_eq('pi^2 V v = pi^2 t', (pi*pi)*v + 2*(W @ v) + (W @ (W @ v)), (pi*pi)*t, tol=1e-5)

@harness(max_paths=40, time=80, cost=5)
def regenerate_keeps_pose(E):
    u = E.unit('u', 3); o = E.angle('o', 0.01, PI1, gen=lambda r: r.uniform(0.2, 3)); t = E.reals('t', 3)
    E.assume(o < 3.14159)
    T = E.mat4(E.rodrigues(u, E.sin(o), E.cos(o)), t)
    E.check_eq('regenerate(T) = T', E.call('se3_regen', T, out=16), T, tol=1e-6)

@harness()
def ln_pure_translation(E):
    t = E.reals('t', 3)
    x = E.call('se3_ln', E.mat4(E.eye(3), t), out=22)
    E.check_eq('ln(I,t) = (0,t)', x[:6], [0, 0, 0, *t], tol=0)
    E.check_eq('regenerate', E.call('se3_regen', E.mat4(E.eye(3), t), out=16), E.mat4(E.eye(3), t), tol=0)

@harness(max_paths=30, time=60, cost=3)
def ln_inverts_exp(E):
    u = E.unit('u', 3); o = E.angle('o', 0.006, PI1, gen=lambda r: r.uniform(0.2, 3)); v = E.reals('v', 3)
    E.assume(o < 3.14159)
    T = E.call('se3_exp', [*(o*u), *v], out=16)
    x = E.call('se3_ln', T, out=22)
    E.check_eq('ln(exp(xi)) = xi', x[:6], [*(o*u), *v], tol=1e-6)
