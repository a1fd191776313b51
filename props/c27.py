from symx.runner import *
from props.planes import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
ASSUMPTIONS = [DEC]
FUNCTIONS = ['Plane::push_back_point', 'Plane::estimate_plane', 'Plane::estimate_plane_incrementally', 'Plane::get_error_incremental', 'Plane::calculate_all_matrices_S', 'Plane::calculate_all_matrices_Q', 'Plane::calculate_gradient', 'Plane::calculate_hessian', 'Plane::get_mean_point', 'Plane::clear_points', 'Plane::reset']
BOUNDS = 'up to 3 poses (derivatives and re-estimation also in trajectories of 4, 5 and 8), up to 3 points per pose with coordinates in [-5, 5], any rotations, translations in [-5, 5], any unit plane vector, sequences of up to 4 operations'
def pt(E, n): return E.reals(n, 3, -5, 5)
def vec(E): return E.unit('v', 4)
def spread(m):
    for i, x in enumerate(EXTRA): m.push(i*m.n//4, x)
    return m
def poses(E, n): return [E.pose(f'T{t}') for t in range(n)]

@harness(max_paths=10)
def one_pose(E):
    m = Model(E, 1, poses(E, 1)); [m.push(0, pt(E, f'x{i}')) for i in range(3)]; spread(m)
    m.counts(); m.estimate(vec(E))
@harness(max_paths=10)
def three_poses(E):
    m = Model(E, 3, poses(E, 3)); [m.push(t, pt(E, f'x{t}{i}')) for t in range(3) for i in range(2)]
    m.counts(); m.estimate(vec(E))
@harness(max_paths=20)
def unseen_pose(E):
    """a pose from which the plane is not seen adds nothing"""
    k = choose(E, 'unseen', 3); m = Model(E, 3, poses(E, 3))
    for t in range(3):
        if t != k: m.push(t, pt(E, f'x{t}')); m.push(t, pt(E, f'y{t}')); m.push(t, EXTRA[t])
    m.counts(); v = vec(E); m.estimate(v)
    o = E.call('pl_hess', m.p, k, out=42); E.check_same('no gradient, no Hessian', o, E.zeros(42))
@harness(max_paths=10)
def outside(E):
    """points of a pose beyond the trajectory are not stored"""
    m = Model(E, 2, poses(E, 2)); m.push(0, pt(E, 'x')); m.push(2, pt(E, 'y')); m.push(7, pt(E, 'z')); m.push(1, pt(E, 'u')); spread(m)
    m.counts(); m.estimate(vec(E))
    for t in (2, 3, 7):
        o = E.call('pl_points', m.p, t, out=3*len(m.pts[1])); E.check('asking beyond the trajectory: the last pose', E.ret == len(m.pts[1])); E.check_same('points of the last pose', o, E.arr([c for x in m.pts[1] for c in x]))
def means(E, m, label=''):
    for t in range(m.n):
        if m.pts[t]: E.check_eq(label + f'mean of the points of pose {t}, in the sensor frame', len(m.pts[t])*E.call('pl_mean', m.p, t, out=3), sum(m.pts[t]))
@harness(max_paths=20)
def mean_point(E):
    """whichever pose sees more points, wherever the poses are"""
    k = choose(E, 'more', 3); m = Model(E, 2, poses(E, 2))
    for t, n in enumerate([(1, 3), (3, 1), (2, 2)][k]): [m.push(t, pt(E, f'x{t}{i}')) for i in range(n)]
    E.call('pl_S', m.p, 0); means(E, m)
@harness(max_paths=40)
def edited_points(E):
    """stored points changed in place count from the next recalculation on"""
    m = Model(E, 2, poses(E, 2)); [m.push(0, pt(E, f'x{i}')) for i in range(2)]; [m.push(1, pt(E, f'y{i}')) for i in range(2)]
    k = choose(E, 'before', 3); v = E.unit('v', 4)
    if k == 1: m.estimate(v, 'before: ')
    if k == 2: E.call('pl_S', m.p, 0)
    t = choose(E, 'pose', 2); x = pt(E, 'e'); E.call('pl_edit', m.p, t, 1, x); m.pts[t][1] = x
    if choose(E, 'how', 2): E.call('pl_wipe', m.p)
    else: E.call('pl_S', m.p, 1)
    m.estimate(E.unit('w', 4), 'edited: '); means(E, m, 'edited: '); m.counts('edited: ')

def grads(E, m, plane, t):
    g = E.call('pl_grad', m.p, t, out=6); o = E.call('pl_hess', m.p, t, out=42); eg, eH = derivatives(E, plane, m.Ts[t], m.pts[t])
    E.check_eq('gradient', g, eg, tol=1e-6); E.check_eq('gradient before the Hessian', o[:6], eg, tol=1e-6)
    H = o[6:].reshape(6, 6); E.check_eq('Hessian', [H[i, j] for i in range(6) for j in range(i, 6)], [eH[i, j] for i in range(6) for j in range(i, 6)], tol=1e-6)
    E.check_same('nothing below the diagonal', [H[i, j] for i in range(6) for j in range(i)], E.zeros(15))
@harness(max_paths=20, cost=3)
def derivatives_any_pose(E):
    """derivatives with respect to left updates of the pose, any pose and point"""
    m = Model(E, 2, poses(E, 2)); k = choose(E, 'pose', 2); m.push(k, pt(E, 'x')); m.push(1-k, pt(E, 'y')); spread(m)
    grads(E, m, m.estimate(vec(E)), k)
@harness(max_paths=40, cost=3)
def derivatives_long_trajectory(E):
    """each pose of a longer trajectory, whether its neighbours see the plane or not"""
    n = [4, 5, 8][choose(E, 'length', 3)]; k = choose(E, 'pose', n); I = E.eye(4); skip = choose(E, 'skip', 2)
    m = Model(E, n, [E.mat4(E.rot('r'), E.reals('t', 3, -5, 5)) if t == k else E.mat4(E.eye(3), E.arr([0.5*t, 1.0, -0.25*t])) for t in range(n)])
    m.push(k, pt(E, 'x'))
    for t in range(n):
        if not skip or t == k or t % 2: m.push(t, EXTRA[t % 4])
    if skip: [m.push(k, x) for x in EXTRA[1:]]
    m.counts(); grads(E, m, m.estimate(vec(E)), k)
    m.pose(k, E.mat4(E.eye(3), E.reals('s', 3, -5, 5))); m.estimate(E.unit('w', 4), 'moved: '); means(E, m, 'moved: ')
@harness(max_paths=20, cost=3)
def derivatives_points(E):
    """several points at one pose"""
    m = Model(E, 1, [E.mat4(E.eye(3), E.reals('t', 3, -5, 5))]); [m.push(0, pt(E, f'x{i}')) for i in range(3)]
    grads(E, m, m.estimate(vec(E)), 0)

# histories ------------------------------------------------------------------
OPS = ['push', 'estimate', 'clear', 'reset', 'recompute', 'moments']
def step(E, m, op, i):
    if op == 'push': m.push(i % 2, pt(E, f'p{i}'))
    elif op == 'estimate': m.estimate(E.unit(f'v{i}', 4), f'step {i}: ')
    elif op == 'clear': E.call('pl_clear', m.p); m.pts = [[] for _ in range(m.n)]
    elif op == 'reset': E.call('pl_wipe', m.p)
    elif op == 'recompute': E.call('pl_S', m.p, 1)
    elif op == 'moments': E.call('pl_S', m.p, 0)
def history(E, n):
    """any sequence of operations, then a point and a full estimation"""
    m = Model(E, 2, poses(E, 2)); m.push(0, pt(E, 'a')); m.push(1, pt(E, 'b')); spread(m)
    for i in range(n): step(E, m, OPS[choose(E, f'op{i}', len(OPS))], i)
    m.counts('end: '); m.push(1, pt(E, 'c')); m.push(1, pt(E, 'd')); m.estimate(vec(E), 'end: '); m.counts('end: '); means(E, m, 'end: ')
@harness(max_paths=60, cost=3)
def history_two(E): history(E, 2)
@harness(max_paths=300, cost=6)
def history_three(E): history(E, 3)
@harness(max_paths=40, cost=3)
def move_then_estimate(E):
    """moving a pose takes effect at the next estimation"""
    m = Model(E, 2, poses(E, 2)); m.push(0, pt(E, 'a')); m.push(1, pt(E, 'b')); spread(m); k = choose(E, 'pose', 2)
    m.estimate(vec(E), 'before: '); m.pose(k, E.pose('N')); m.estimate(E.unit('w', 4), 'after: ')
@harness(max_paths=40, cost=3)
def incremental(E):
    """re-estimation of one pose equals the full estimation, also when repeated, interleaved with points and queries"""
    m = Model(E, 2, poses(E, 2)); m.push(0, pt(E, 'a')); m.push(1, pt(E, 'b')); m.push(1, pt(E, 'c')); spread(m)
    m.estimate(E.unit('v', 4), 'before: '); k = choose(E, 'pose', 2); again = choose(E, 'again', 3)
    m.pose(k, E.pose('N')); M = m.M(); v = E.unit('w', 4); register(E, M, v)
    o = E.call('pl_errinc', m.p, k, out=6)
    if E.sym: E.check_eq('queried error', o[0], E.dot(v, M @ v))
    else: E.check('queried error', abs(o[0]-np.linalg.eigvalsh(np.array(M, dtype=float))[0]) < 1e-6*(1+abs(np.array(M, dtype=float)).max()))
    if again == 1:
        o = E.call('pl_inc', m.p, k, out=6); check_plane(E, 'first: ', M, v, o[0], o[1:5]); E.check_same('first: reported error', o[5], o[0])
        m.pose(k, E.pose('K')); M = m.M(); v = E.unit('z', 4); register(E, M, v)
    if again == 2:
        m.push(k, pt(E, 'd')); M = m.M(); v = E.unit('z', 4); register(E, M, v)
    o = E.call('pl_inc', m.p, k, out=6); check_plane(E, 'incremental: ', M, v, o[0], o[1:5]); E.check_same('incremental: reported error', o[5], o[0])
    grads(E, m, o[1:5], k)
@harness(max_paths=10)
def incremental_query_is_pure(E):
    m = Model(E, 2, poses(E, 2)); m.push(0, pt(E, 'a')); m.push(1, pt(E, 'b')); spread(m); v = vec(E); p = m.estimate(v); e0 = E.call('pl_estimate', m.p, out=6)[1]
    T = m.Ts[1]; m.pose(1, E.pose('N')); register(E, m.M(), E.unit('w', 4)); o = E.call('pl_errinc', m.p, 1, out=6)
    E.check_same('plane unchanged', o[1:5], p); E.check_same('reported error unchanged', o[5], e0); m.pose(1, T); grads(E, m, p, 1)
