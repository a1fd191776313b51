from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SO3::distance', 'SE3::distance', 'SE3::distance_rotation', 'SE3::distance_trans']
BOUNDS = 'all pose pairs A = exp(o*u) B with 0 <= o < pi - 1e-7 and o = pi exactly, any u, any B and translations; series branches to 1e-7'
PI1 = ('pi', 1)
UP = [('below_right_angle', 0, ('pi', Fraction(1, 2))), ('above_right_angle', ('pi', Fraction(1, 2)), PI1)]

def _so3(nm, lo, hi):
    @harness(name='so3_distance_' + nm, max_paths=30, time=60, cost=4)
    def h(E):
        u = E.unit('u', 3); o = E.angle('o', lo, hi, gen=lambda r: r.uniform(0.3, 1.3) + (1.5 if lo else 0))
        B = E.rot('q')
        E.assume(o < E.pi - 1e-7)
        A = E.rodrigues(u, E.sin(o), E.cos(o)) @ B
        x = E.call('so3_distance', A, B, out=2)
        E.check_close('distance is the angle of the relative rotation', x[:1], [o], 1e-7)
        E.check_close('symmetric', x[1:], [o], 1e-7)
for a in UP: _so3(*a)

@harness(max_paths=20, cost=2)
def so3_distance_half_turn(E):
    u = E.unit('u', 3); B = E.rot('q')
    A = (2*np.outer(u, u) - E.eye(3)) @ B
    x = E.call('so3_distance', A, B, out=2)
    E.check_close('distance of a half turn is pi', x, [E.pi, E.pi], 1e-6)

@harness()
def distance_to_itself(E):
    A = E.pose('a')
    x = E.call('se3_distance', A, A, out=6)
    E.check_eq('zero for equal poses', x, E.zeros(6), tol=1e-7)
    R = E.rot('q')
    E.check_eq('zero for equal rotations', E.call('so3_distance', R, R, out=2), [0, 0], tol=1e-7)

@harness()
def translation_distance(E):
    A, B = E.pose('a'), E.pose('b', -1, 1)
    E.assume(And(*[A[i, 3]*A[i, 3] <= 100 for i in range(3)]))
    s, t = A[:3, 3], B[:3, 3]
    # only the translation part matters: call with equal rotations to stay on one branch
    B2 = E.mat4(A[:3, :3], t)
    x = E.call('se3_distance', A, B2, out=6)
    d = s - t
    E.check_eq('translation distance squared', [x[2]*x[2], x[5]*x[5]], [E.dot(d, d)]*2)
    E.check('non-negative', x[2] >= 0)
    E.check_eq('equal rotations: rotation distance zero', [x[1], x[4]], [0, 0])
    E.check_eq('equal rotations: distance is the translation distance', [x[0]*x[0], x[3]*x[3]], [E.dot(d, d)]*2)
    y = E.call('se3_distance_id', E.mat4(E.eye(3), s), out=3)
    E.check_eq('default argument is the identity', [y[0]*y[0], y[1], y[2]*y[2]], [E.dot(s, s), 0, E.dot(s, s)])

def _se3(nm, lo, hi):
    @harness(name='se3_distance_' + nm, max_paths=30, time=70, cost=5)
    def h(E):
        """A = (exp(o u), t) B"""
        u = E.unit('u', 3); o = E.angle('o', lo, hi, gen=lambda r: r.uniform(0.3, 1.3) + (1.5 if lo else 0)); t = E.reals('t', 3)
        E.assume(o < E.pi - 1e-7); E.assume(o > 0.006)
        Rb = E.rot('q'); tb = E.reals('s', 3)
        R = E.rodrigues(u, E.sin(o), E.cos(o))
        A = E.mat4(R @ Rb, R @ tb + t); B = E.mat4(Rb, tb)
        x = E.call('se3_distance', A, B, out=6)
        xi = E.call('se3_ln', E.mat4(R, t), out=22)[:6]
        E.check_close('rotation distance', [x[1], x[4]], [o, o], 1e-7)
        E.check_eq('squared distance is |ln(A inv(B))|^2', [x[0]*x[0]], [E.dot(xi, xi)], tol=1e-6)
        E.check_eq('symmetric', [x[3]*x[3]], [E.dot(xi, xi)], tol=1e-6)
        d = R @ tb + t - tb
        E.check_eq('translation distance', [x[2]*x[2], x[5]*x[5]], [E.dot(d, d)]*2)
for a in UP: _se3(*a)

@harness(max_paths=20, cost=3)
def distance_to_identity_default(E):
    u = E.unit('u', 3); o = E.angle('o', 0.006, ('pi', Fraction(1, 2)), gen=lambda r: r.uniform(0.3, 1.3)); t = E.reals('t', 3)
    R = E.rodrigues(u, E.sin(o), E.cos(o))
    T = E.mat4(R, t)
    y = E.call('se3_distance_id', T, out=3)
    xi = E.call('se3_ln', T, out=22)[:6]
    E.check_eq('distance() is |ln(T)|', [y[0]*y[0]], [E.dot(xi, xi)])
    E.check_close('distance_rotation()', [y[1]], [o], 1e-7)
    E.check_eq('distance_trans()', [y[2]*y[2]], [E.dot(t, t)])
