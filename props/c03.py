from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SO3::ln', 'SO3::ln_vee', 'SO3::exp', 'vee3', 'hat3']
BOUNDS = 'R = exp(o*u): u any unit vector, 0 <= o <= pi - 1e-7 and o = pi exactly (w up to sign); in the strip (pi - 1e-7, pi) only the norm and the angle, to 1e-7'
PI1 = ('pi', 1)

def logchecks(E, R, u, o):
    x = E.call('so3_ln', R, out=9+1+3+9)
    W, a, w = x[:9].reshape(3, 3), x[9], x[10:13]
    E.check_eq('ln is the hat of ln_vee', W, E.hat(w))
    E.check_close('reported angle', [a], [o], 1e-7)
    E.check_eq('two-argument and plain ln agree', x[13:], x[:9])
    return w

@harness(max_paths=40, time=80, cost=5)
def ln_inverts_exp(E):
    u = E.unit('u', 3); o = E.angle('o', 0, PI1, gen=lambda r: r.uniform(0.2, 3))
    E.assume(o < E.pi - 1e-7)
    R = E.rodrigues(u, E.sin(o), E.cos(o))
    w = logchecks(E, R, u, o)
    E.check_close('ln(exp(w)) = w', w, o*u, 1e-7)

@harness(max_paths=40, cost=4)
def ln_at_half_turn(E):
    u = E.unit('u', 3)
    R = 2*np.outer(u, u) - E.eye(3)
    x = E.call('so3_ln', R, out=22)
    w = x[10:13]
    E.check_eq('w w^T = pi^2 u u^T (exp(w) = R)', np.outer(w, w), (E.pi*E.pi)*np.outer(u, u), tol=1e-6)
    E.check_eq('|w|^2 = pi^2', [E.dot(w, w)], [E.pi*E.pi], tol=1e-6)

def tie(name, mk, **kw):
    @harness(name=name, max_paths=40, time=60, **kw)
    def h(E):
        a = E.unit('a', 2)
        u = mk(E, a)
        o = E.angle('o', ('pi', Fraction(1, 2)), PI1, gen=lambda r: r.uniform(1.7, 3))
        E.assume(o < E.pi - 1e-7)
        R = E.rodrigues(u, E.sin(o), E.cos(o))
        x = E.call('so3_ln', R, out=22)
        E.check_close('ln(exp(w)) = w', x[10:13], o*E.arr(u), 1e-7)
    return h
# axes in the coordinate planes (any direction): include exact ties |u_i| = |u_j|
tie('axis_in_xy_plane', lambda E, a: [a[0], a[1], 0.0])
tie('axis_in_xz_plane', lambda E, a: [a[0], 0.0, a[1]])
tie('axis_in_yz_plane', lambda E, a: [0.0, a[0], a[1]])

def fixed_tie(name, ax):
    @harness(name=name, max_paths=20)
    def h(E):
        n = math.sqrt(sum(x*x for x in ax))
        # axis ax/sqrt(n2): exact through the quaternion form R = (n2 I + ...)/...
        o = E.angle('o', ('pi', Fraction(1, 2)), PI1, gen=lambda r: r.uniform(1.7, 3))
        E.assume(o < E.pi - 1e-7)
        r = E.real('n', 0.5, 2, gen=lambda q: n)
        E.assume(EQ(r*r, float(sum(x*x for x in ax))) if E.sym else True)
        if not E.sym: r = n
        u = E.arr([x/r for x in ax])
        si, co = E.sin(o), E.cos(o)
        U = E.hat(u)
        n2 = float(sum(x*x for x in ax))
        uu = np.outer(E.arr([float(x) for x in ax]), E.arr([float(x) for x in ax]))/n2
        R = co*E.eye(3) + (1-co)*uu + si*U
        x = E.call('so3_ln', R, out=22)
        E.check_close('r * ln(exp(w)) = o * axis', r*x[10:13], o*E.arr([float(y) for y in ax]), 2e-7)
for nm, ax in (('tie_110', (1, 1, 0)), ('tie_101', (1, 0, 1)), ('tie_011', (0, 1, 1)), ('tie_1m10', (1, -1, 0)), ('tie_111', (1, 1, 1)), ('tie_m101', (-1, 0, 1)), ('tie_0m11', (0, -1, 1))):
    fixed_tie(nm, ax)

@harness()
def ln_of_identity(E):
    x = E.call('so3_ln', E.eye(3), out=22)
    E.check_eq('ln(I) = 0', x, E.zeros(22), tol=0)

@harness(max_paths=40, cost=3)
def ln_close_to_half_turn(E):
    """within 1e-7 of a half turn the result has the norm of the angle and is parallel to the axis"""
    u = E.unit('u', 3); o = E.angle('o', 3, PI1, gen=lambda r: math.pi-2e-8)
    E.assume(o >= E.pi - 1e-7); E.assume(o < E.pi)
    R = E.rodrigues(u, E.sin(o), E.cos(o))
    x = E.call('so3_ln', R, out=22)
    w = x[10:13]
    E.check_close('|w|^2 = o^2', [E.dot(w, w)], [o*o], 1e-6)
    E.check_close('reported angle', [x[9]], [o], 1e-7)
