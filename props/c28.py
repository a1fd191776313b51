from symx.runner import *
from props.planes import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
ASSUMPTIONS = [DEC]
FUNCTIONS = ['PlaneRegistration::set_number_planes_and_poses', 'add_plane', 'add_new_plane', 'plane_push_back_point', 'calculate_total_number_points', 'get_point_cloud', 'set_last_pose', 'reset_solution', 'get_current_error', 'calculate_poses_rmse', 'solve_initialize', 'solve_interpolate_gradient', 'calculate_gradient_hessian', 'update_state', 'bookkeep_state', 'update_state_from_bookkeep', 'print_evaluate']
BOUNDS = '2, 3 and 5 poses, up to 5 planes with up to 3 points per pose, coordinates in [-5, 5], last poses with any angle below a half turn about a coordinate axis and any translation; sequences of up to 3 operations'
AX = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
def pt(E, n): return E.reals(n, 3, -5, 5)
def screw(E, u, o, v, k=1.0):
    """exp of k times (o u, v), closed form"""
    U = E.hat(u); s, c = E.sin(o*k), E.cos(o*k)
    R = E.eye(3) + s*U + (1-c)*(U @ U)
    t = k*v + ((1-c)/o)*(U @ v) + ((o*k-s)/o)*(U @ (U @ v))
    return E.mat4(R, t)
def last_pose(E, div, name=''):
    """(function of the fraction of the way, last pose)"""
    u = E.arr(AX[choose(E, name+'axis', 3)]); o = E.angle(name+'o', 0.1, 3.0, div=div); v = E.reals(name+'v', 3, -2, 2)
    return lambda k: E.eye(4) if k == 0 else screw(E, u, o, v, k)
class Reg:
    def __init__(s, E, n, planes=0):
        s.E = E; s.n = n; s.cfg = planes; s.pl = {}; s.h = {}; s.known = {}; E.call('pr_new', planes, n); s.I = E.eye(4); s.Ts = [s.I]*n
    def add(s, i):
        if s.E.call('pr_add', i) is not None or True: s.h[i] = s.E.ret
        s.pl.setdefault(i, [[] for _ in range(s.n)])
    def push(s, i, t, x): s.E.call('pr_push', i, t, s.E.arr(list(x))); s.pl[i][t].append(x)
    def counts(s, label=''):
        o = s.E.call('pr_counts', out=4); s.E.check_same(label + 'planes, poses, points', o, [float(s.cfg), float(s.n), float(sum(len(q) for p in s.pl.values() for q in p)), float(len(s.pl))])
    def trajectory(s, label=''):
        for t in range(s.n): s.E.check_eq(label + f'pose {t}', s.E.call('pr_pose', t, out=16).reshape(4, 4), s.Ts[t], tol=1e-6)
        s.E.check_eq(label + 'last pose', s.E.call('pr_last', out=16).reshape(4, 4), s.Ts[-1], tol=1e-6)
    def read(s):
        s.Ts = [s.E.call('pr_pose', t, out=16).reshape(4, 4) for t in range(s.n)]
    def expect(s, tag=''):
        """registers the eigenvectors of every plane and returns the expected total error"""
        E = s.E; e = 0.0
        for i, pts in s.pl.items():
            M = total(E, s.Ts, pts); key = (i,) + tuple((id(T), *map(id, q)) for T, q in zip(s.Ts, pts) if q)
            if E.sym:
                if key not in s.known: s.known[key] = register(E, M, E.unit(f'n{tag}{i}_', 4)), s.Ts   # the same matrix again: the same answer
                e = e + s.known[key][0]
            else: e = e + float(np.linalg.eigvalsh(np.array(M, dtype=float))[0])
        return e
    def error(s, label='', tag=''):
        e = s.expect(tag); s.E.check_eq(label + 'error is the sum over the planes', s.E.call('pr_error', out=1)[0], e, tol=1e-6); return e
    def plane(s, i): return s.E.call('pl_get', s.h[i], out=4)
def fill(E, r, seen, extra=4):
    for i, ts in seen.items():
        r.add(i)
        for t in ts: r.push(i, t, pt(E, f'x{i}_{t}'))
        for k, x in enumerate(EXTRA[:extra]): r.push(i, ts[k*len(ts)//4], x)

@harness(max_paths=20)
def counts(E):
    r = Reg(E, 3, 2); r.counts('configured: ')
    fill(E, r, {0: (0, 1, 2, 2), 7: (1,)}, 0); r.counts(); r.trajectory()
    r.add(7); r.counts('same id again: ')
    r.add(3); r.counts('more planes than announced: '); r.expect()
    o = E.call('pr_evaluate', out=13); E.check_same('report', o[:4], [2.0, 3.0, 5.0, 0.0])
    E.call('pr_config', 4, 2); r.n = 2; r.cfg = 4; r.pl = {}; r.h = {}; r.Ts = r.Ts[:2]; r.counts('configured again: '); r.trajectory('configured again: ')
@harness(max_paths=20)
def clouds(E):
    """the cloud of a pose is the union of the points of all planes"""
    r = Reg(E, 2, 3); fill(E, r, {0: (0, 1, 1), 5: (1,), 2: (0,)}, 0)
    for t in range(2):
        want = [x for p in r.pl.values() for x in p[t]]; o = E.call('pr_cloud', t, out=3*len(want)).reshape(-1, 3); E.check(f'number of points at pose {t}', E.ret == len(want))
        E.check_eq(f'moments of the cloud {t}', [sum(x[a] for x in o) for a in range(3)] + [sum(x[a]*x[b] for x in o) for a in range(3) for b in range(a, 3)],
                   [sum(x[a] for x in want) for a in range(3)] + [sum(x[a]*x[b] for x in want) for a in range(3) for b in range(a, 3)])

def interpolation(E, n):
    r = Reg(E, n); f = last_pose(E, n-1); E.call('pr_setlast', f(1.0)); r.Ts = [f(t/(n-1)) for t in range(n)]
    r.trajectory()
@harness(max_paths=20, cost=2)
def interpolation2(E): interpolation(E, 2)
@harness(max_paths=20, cost=2)
def interpolation3(E): interpolation(E, 3)
@harness(max_paths=20, cost=4)
def interpolation5(E): interpolation(E, 5)
@harness(max_paths=20)
def translation(E):
    r = Reg(E, 5); t = E.reals('t', 3, -5, 5); T = lambda k: E.mat4(E.eye(3), t*k); E.call('pr_setlast', T(1.0)); r.Ts = [T(k/4) for k in range(5)]; r.trajectory()
    E.call('pr_reset'); r.Ts = [E.eye(4)]*5; r.trajectory('reset: ')
    E.call('pr_setlast', T(0.5)); r.Ts = [T(k/8) for k in range(5)]; r.trajectory('set again: ')

@harness(max_paths=20, cost=3)
def error_total(E):
    """two planes, one not seen from every pose, at an interpolated trajectory"""
    r = Reg(E, 3, 2); fill(E, r, {0: (0, 1, 2), 4: (0, 2)}); E.call('pr_setlast', last_pose(E, 2)(1.0)); r.read()
    r.error(); o = E.call('pr_evaluate', out=13); E.check_same('report', o[:3], [2.0, 3.0, 13.0]); E.check_eq('reported error', o[6], E.call('pr_error', out=1)[0])
@harness(max_paths=60, cost=3)
def error_follows(E):
    """trajectory changes, resets and new points take effect on the next evaluation, in any order"""
    r = Reg(E, 3, 2); fill(E, r, {0: (0, 1, 2), 1: (0, 2)}); r.error('before: ', 'a')
    for i in range(2):
        k = choose(E, f'op{i}', 3); key = f'{i}'
        if k == 0:
            t = E.reals(f't{i}', 3, -5, 5); E.call('pr_setlast', E.mat4(E.eye(3), t)); r.Ts = [r.I] + [E.mat4(E.eye(3), t*(j/2)) for j in (1, 2)]
        elif k == 1: E.call('pr_reset'); r.Ts = [r.I]*3; r.push(1, 1, pt(E, f'z{i}'))
        else: r.push(0, i, pt(E, f'y{i}'))
        r.error(f'step {i}: ', f'{i}'); r.counts(f'step {i}: ')
@harness(max_paths=20)
def adopted_plane(E):
    """a plane filled elsewhere follows the trajectory it is added to"""
    E.call('pl_reset', 2); E.call('pl_new', 2); p = E.ret; X = [pt(E, f'x{i}') for i in range(3)] + [E.arr(x) for x in EXTRA[:3]]
    # built on its own trajectory first
    for x, t in zip(X, (0, 1, 1, 1, 1, 1)): E.call('pl_push', p, t, x)
    T = E.mat4(E.eye(3), E.reals('s', 3, -5, 5)); E.call('pl_pose', 1, T)
    M = moments(E, E.eye(4), X[:1]) + moments(E, T, X[1:]); v = E.unit('w', 4); register(E, M, v); o = E.call('pl_estimate', p, out=6); check_plane(E, 'alone: ', M, v, o[0], o[2:6])
    E.call('pr_keep', 1, 2); E.call('pr_adopt', 3, p); r = Reg.__new__(Reg); r.E = E; r.n = 2; r.cfg = 1; r.pl = {3: [X[:1], X[1:]]}; r.h = {3: p}; r.known = {}
    N = E.mat4(E.eye(3), E.reals('t', 3, -5, 5)); E.call('pr_setlast', N); r.Ts = [E.eye(4), N]; r.counts(); r.error()

@harness(max_paths=20, cost=3)
def rmse(E):
    """root mean of the squared logarithms of trajectory times inverse ground truth; longer ground truths are cut"""
    r = Reg(E, 2); n = 2 + choose(E, 'extra', 2); R = E.rot('r'); k = choose(E, 'rotated', 2)
    a = E.reals('a', 3, -5, 5); b = E.reals('b', 3, -5, 5); A = E.reals('c', 3, -5, 5)
    if k:   # a last pose equal in rotation to its ground truth
        f = last_pose(E, 1); L = f(1.0); E.call('pr_setlast', L); G1 = L.copy(); G1[:3, 3] = L[:3, 3] + b
    else: L = E.mat4(E.eye(3), A); E.call('pr_setlast', L); G1 = E.mat4(E.eye(3), b)
    G = [E.mat4(E.eye(3), a), G1, E.mat4(E.eye(3), A)][:n]
    d = [E.eye(4)[:3, 3] - a, L[:3, 3] - G1[:3, 3]]
    q = E.call('pr_rmse', n, E.arr([x for T in G for x in T.ravel()]), out=1)[0]
    E.check_eq('rmse^2', q*q, (E.dot(d[0], d[0]) + E.dot(d[1], d[1]))*0.5, tol=1e-6); E.check('not negative', q >= 0)
@harness(max_paths=20, cost=3)
def rmse_rotation(E):
    u = E.arr(AX[choose(E, 'axis', 3)]); o = E.angle('o', 0.1, 3.0); r = Reg(E, 2)
    L = E.mat4(E.eye(3) + E.sin(o)*E.hat(u) + (1-E.cos(o))*(E.hat(u) @ E.hat(u)), E.zeros(3)); E.call('pr_setlast', L)
    q = E.call('pr_rmse', 2, E.arr([*E.eye(4).ravel(), *E.eye(4).ravel()]), out=1)[0]; E.check_eq('rmse^2', q*q, o*o*0.5, tol=1e-6)

@harness(max_paths=20, cost=3)
def rmse_screw(E):
    """trajectory and ground truth differ in rotation and in translation: the differences are taken in the world frame"""
    u = E.arr(AX[choose(E, 'axis', 3)]); o = E.angle('o', 0.1, 3.0); v = E.reals('v', 3, -2, 2); t = E.reals('t', 3, -5, 5); r = Reg(E, 2)
    T = E.mat4(E.eye(3), t); E.call('pr_setlast', T); G = E.inv4(screw(E, u, o, v)) @ T; a = E.reals('a', 3, -5, 5)
    q = E.call('pr_rmse', 2, E.arr([*E.mat4(E.eye(3), a).ravel(), *G.ravel()]), out=1)[0]
    E.check_eq('rmse^2', q*q, (o*o + E.dot(v, v) + E.dot(a, a))*0.5, tol=1e-6)

# first and second order totals ---------------------------------------------------
def totals(E, r, label=''):
    """every pose enters with its fraction of the way to the last pose"""
    o = E.call('pr_gradhess', out=42); g = E.zeros(6); H = E.zeros(6, 6)
    for i, pts in r.pl.items():
        pl = r.plane(i)
        for t in range(1, r.n):
            if not pts[t]: continue
            a, B = derivatives(E, pl, r.Ts[t], pts[t]); g = g + a*(t/(r.n-1)); H = H + B*(t/(r.n-1))
    E.check_eq(label + 'gradient', o[:6], g, tol=1e-6)
    K = o[6:].reshape(6, 6); E.check_eq(label + 'Hessian', [K[i, j] for i in range(6) for j in range(i, 6)], [H[i, j] for i in range(6) for j in range(i, 6)], tol=1e-6)
    E.check_same(label + 'symmetric', K.T.ravel(), K.ravel())
@harness(max_paths=20, cost=4)
def gradient_identity(E):
    r = Reg(E, 3, 2); fill(E, r, {0: (0, 1, 2), 4: (0, 2)}); r.expect(); totals(E, r)
@harness(max_paths=20, cost=4)
def gradient_translation(E):
    """also when the planes were last estimated at another trajectory"""
    r = Reg(E, 3, 2); fill(E, r, {0: (0, 1), 4: (2,)}); r.error('', 'a')
    t = E.reals('t', 3, -5, 5); E.call('pr_setlast', E.mat4(E.eye(3), t)); r.Ts = [r.I] + [E.mat4(E.eye(3), t*(j/2)) for j in (1, 2)]; r.expect('b'); totals(E, r)
@harness(max_paths=20, cost=6)
def gradient_rotation(E):
    r = Reg(E, 2, 1); fill(E, r, {0: (0, 1)}); E.call('pr_setlast', last_pose(E, 1)(1.0)); r.read(); r.expect(); totals(E, r)

@harness(max_paths=20, cost=3)
def update(E):
    """the last pose is moved on the left; the others are interpolated"""
    r = Reg(E, 3); t = E.reals('t', 3, -2, 2); E.call('pr_setlast', E.mat4(E.eye(3), t)); d = E.reals('d', 3, -2, 2)
    E.call('pr_update', [0.0, 0.0, 0.0, *d]); r.Ts = [E.mat4(E.eye(3), (t+d)*(j/2)) for j in range(3)]; r.trajectory()
@harness(max_paths=20, cost=4)
def update_rotation(E):
    r = Reg(E, 3); u = E.arr(AX[choose(E, 'axis', 3)]); o = E.angle('o', 0.1, 3.0, div=2); v = E.reals('v', 3, -2, 2)
    E.call('pr_update', E.arr([*(o*u), *v])); r.Ts = [E.eye(4), screw(E, u, o, v, 0.5), screw(E, u, o, v)]; r.trajectory()
@harness(max_paths=20, cost=4)
def update_side(E):
    """rotation update of a translated last pose"""
    r = Reg(E, 2); u = E.arr(AX[choose(E, 'axis', 3)]); o = E.angle('o', 0.1, 3.0); v = E.reals('v', 3, -2, 2); t = E.reals('t', 3, -2, 2)
    T = E.mat4(E.eye(3), t); E.call('pr_setlast', T); E.call('pr_update', E.arr([*(o*u), *v])); r.Ts = [E.eye(4), screw(E, u, o, v) @ T]; r.trajectory()
@harness(max_paths=40, cost=4)
def restore(E):
    """undoing an update restores the kept trajectory and the planes"""
    r = Reg(E, 3, 1); fill(E, r, {0: (0, 1, 2)}); f = last_pose(E, 2)
    if choose(E, 'moved', 2): E.call('pr_setlast', f(1.0))
    r.read(); keep = r.Ts; E.call('pr_book'); E.call('pr_update', [0.0, 0.0, 0.0, *E.reals('d', 3, -2, 2)]); r.read(); r.expect('a')
    r.Ts = keep; r.expect('b'); E.call('pr_unbook'); p = r.plane(0); r.trajectory('restored: ')
    r.error('restored: '); E.check_eq('plane estimated again', p, r.plane(0))

# first order step -----------------------------------------------------------------
# multiples of three and counts that are powers of two: the weights 1/(3 n) act exactly on the constants
SEEN = [{0: (0, 1, 2, 2, 1), 1: (1, 0, 0, 0, 1)}, {0: (0, 2, 2, 0, 2), 1: (2, 0, 0)}, {0: (0, 1, 1, 0, 1), 1: (0, 1, 0, 0)}]
PTS = [[1.0, 0.5, 0.25], [-1.0, 0.75, 0.5], [0.25, -1.0, 1.0], [0.5, 1.0, -0.75], [-0.5, -0.25, 1.5], [1.5, -0.5, -1.0], [0.75, 1.25, 0.5], [-1.25, 0.5, -0.5], [0.5, -1.5, 0.25], [1.25, 1.0, 1.75], [-0.25, 2.0, 0.75], [2.0, 0.25, 1.25]]
V2 = [[0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, 0.5]]
@harness(max_paths=60, cost=4)
def gradient_step(E):
    """one accelerated gradient step from the identity; poses without points are skipped"""
    r = Reg(E, 3, 2); seen = SEEN[choose(E, 'seen', 3)]
    al = E.real('alpha', 0.001, 0.02); be = [0.0, 0.5][choose(E, 'beta', 2)]; E.call('pr_alpha', [al], [be]); j = 0
    for i, ts in seen.items():
        r.add(i)
        for t in ts: r.push(i, t, 3.0*E.arr(PTS[j])); j += 1
    for i, p in r.pl.items(): register(E, total(E, r.Ts, p), E.arr(V2[i]))
    E.call('pr_error', out=1); planes = {i: r.plane(i) for i in r.pl}; s = E.zeros(6)
    for t in (1, 2):
        n = sum(len(p[t]) for p in r.pl.values())
        for i, p in r.pl.items():
            if n: s = s + derivatives(E, planes[i], r.Ts[t], p[t])[0]*((t/2)/(3.0*n))
    T = E.call('pr_solve', 2, 1, out=16).reshape(4, 4)
    E.check_eq('last pose', T, E.call('pose_exp', E.arr([-((1.0+be)*al)*x for x in s]), out=16).reshape(4, 4), tol=1e-6)

@harness(max_paths=60, cost=3)
def momentum(E):
    """parallel point patches (no torque): steps with momentum, the last one without any points left; a reset forgets the momentum"""
    r = Reg(E, 2, 1); al = E.real('alpha', 0.001, 0.02); be = E.real('beta', 0.1, 0.9); k = choose(E, 'steps', 2); end = choose(E, 'reset', 2)
    if k: al = 2.0**-6; be = 0.5
    E.call('pr_alpha', [al], [be]); a, b = (E.real('a', 1, 2), E.real('b', 1, 2)) if not k else (1.0, 2.0); h = E.real('h', 0.25, 1)
    i = choose(E, 'normal', 3); c = lambda v, w: [v if x == i else w[(x-i-1) % 3] for x in range(3)]
    r.add(0); th = E.angle('th', 0.1, 0.5); V = E.arr(c(E.cos(th), [0.0, 0.0]) + [-E.sin(th)])
    for t in range(2):
        for sx in (a, -a):
            for sy in (b, -b): r.push(0, t, c(h*t, [sx, sy]))
    mom = E.zeros(6)
    for q in range(1+k):
        if E.sym: register(E, total(E, r.Ts, r.pl[0]), V)
        E.call('pr_error', out=1); s = derivatives(E, r.plane(0), r.Ts[1], r.pl[0][1])[0]*(1.0/8.0)
        E.call('pr_solve', 2, 1, out=16); d = be*be*mom - (1+be)*al*s; mom = be*mom - al*s
        r.Ts = [r.I, E.mat4(E.eye(3), r.Ts[1][:3, 3] + d[3:])]; r.trajectory(f'step {q}: ')
    E.call('pl_clear', r.h[0]); register(E, E.zeros(4, 4), V, 0.0)
    if end: E.call('pr_reset'); want = r.I
    else: want = E.mat4(E.eye(3), r.Ts[1][:3, 3] + be*be*mom[3:])
    T = E.call('pr_solve', 2, 1, out=16).reshape(4, 4); E.check_eq('last pose', T, want, tol=1e-6)

def steps(E, mode, single):
    """the iteration ends when the error changes by at most 1e-4, or after one step when asked; patches as above"""
    r = Reg(E, 2, 1); al, be = 0.5, 0.5; E.call('pr_alpha', [al], [be]); h = E.real('h', 0.001, 0.25); r.add(0); th = E.angle('th', 0.01, 0.5)
    for t in range(2):
        for sx in (1.0, -1.0):
            for sy in (2.0, -2.0): r.push(0, t, [sx, sy, h*(t-0.5)+1.0])
    mom = E.zeros(6); prev = None; n = 0
    def plane(M):
        if E.sym: v = E.arr([0.0, 0.0, E.cos(th), -E.sin(th)]); return v, register(E, M, v)
        w, u = np.linalg.eigh(np.array(M, dtype=float)); return E.arr([float(x) for x in u[:, 0]]), float(w[0])
    while True:
        v, e = plane(total(E, r.Ts, r.pl[0])); s = derivatives(E, v, r.Ts[1], r.pl[0][1])[0]*(1.0/8.0)
        if mode == 2: d = be*be*mom - (1+be)*al*s; mom = be*mom - al*s
        else: d = -al*s
        r.Ts = [r.I, E.mat4(E.eye(3), r.Ts[1][:3, 3] + d[3:])]; n += 1; stop = single
        if prev is not None and not single:
            D = prev - e
            stop = not (D > 1e-4 or D < -1e-4)
        if stop: break
        if n == (3 if E.sym else 100): return   # beyond the bound
        prev = e
    E.call('pr_solve', mode, 1 if single else 0, out=16); r.trajectory('end: ')
    plane(total(E, r.Ts, r.pl[0])); E.check('number of steps', int(E.call('pr_evaluate', out=13)[3]) == n)
@harness(max_paths=60, cost=3)
def steps_last_pose(E): steps(E, 2, choose(E, 'single', 2) == 1)
@harness(max_paths=60, cost=3)
def steps_all_poses(E): steps(E, 3, choose(E, 'single', 2) == 1)

def second_order(E, mode):
    """solve() with Newton or damped steps, followed step by step: three patches, only one of them moves along its normal"""
    r = Reg(E, 2, 3); h = E.real('h', 0.01, 1); w = E.real('w', 0.25, 0.5); z = 0.0; lam = 2.0**-6 if mode == 4 else 1e-2; n = 0
    P0 = [[x, y] for x in (1.0, -1.0) for y in (2.0, -2.0)]
    for i in range(3):
        r.add(i)
        for t in range(2):
            for x, y in P0: r.push(i, t, [x, y, w+h*t] if i == 0 else [0.0, 4.0*x, 2.0*y] if i == 1 else [4.0*x, 0.0, 2.0*y])
    def planes():
        e = 0.0; v0 = None
        for i in range(3):
            M = total(E, r.Ts, r.pl[i])
            if E.sym: v = E.arr([float(i == 1), float(i == 2), float(i == 0), 0.0]); e = e + register(E, M, v)
            else: W, u = np.linalg.eigh(np.array(M, dtype=float)); v = u[:, 0]; e = e + float(W[0])
            if i == 0: v0 = [float(x) for x in v]
        return v0, e
    v, prev = planes()
    start = prev
    while n < (3 if E.sym else 100):
        c = v[2]; g = 2.0*sum((c*(w+h+z) + v[3]) * c for _ in range(4)); H = 8.0*c*c
        K = H if mode == 4 else H + lam if mode == 6 else H*(1.0+lam)
        d = -(g/K); old = z; z = z + d; r.Ts = [r.I, E.mat4(E.eye(3), [0.0, 0.0, z])]; v, e = planes(); n += 1; D = prev - e
        if mode == 4:
            prev = e
            if D > 1e-4 or D < -1e-4: continue
            break
        if D < 0: lam *= 2.0; z = old; r.Ts = [r.I, E.mat4(E.eye(3), [0.0, 0.0, z])]; v, e = planes(); continue
        prev = e
        if D < 1e-4: break
        f = D / (-(d*g) - 0.5*d*K*d)
        if f < 0.25: lam *= 2.0
        elif f > 0.8: lam *= 0.25
    else: 
        return
    E.call('pr_solve', mode, 0, out=16); r.trajectory('end: '); E.check_eq('final error', E.call('pr_error', out=1)[0], prev, tol=1e-6); E.decomp_any(); o = E.call('pr_evaluate', out=13)
    E.check('number of steps', int(o[3]) == n); E.check_eq('initial error', o[5], start, tol=1e-6)
@harness(max_paths=60, cost=4)
def newton(E): second_order(E, 4)
@harness(max_paths=60, cost=4)
def damped_spherical(E): second_order(E, 6)
@harness(max_paths=60, cost=4)
def damped_elliptic(E): second_order(E, 7)

@harness(max_paths=60, cost=4)
def gradient_all_poses(E):
    """one gradient step over the whole trajectory: every pose by its own gradient and count; poses without points stay"""
    r = Reg(E, 3, 2); seen = SEEN[choose(E, 'seen', 3)]
    al = E.real('alpha', 0.001, 0.02); E.call('pr_alpha', [al], [0.5]); j = 0
    for i, ts in seen.items():
        r.add(i)
        for t in ts: r.push(i, t, 3.0*E.arr(PTS[j])); j += 1
    for i, p in r.pl.items(): register(E, total(E, r.Ts, p), E.arr(V2[i]))
    E.call('pr_error', out=1); planes = {i: r.plane(i) for i in r.pl}; want = []
    for t in range(3):
        n = sum(len(p[t]) for p in r.pl.values()); s = E.zeros(6)
        if t and n:
            for i, p in r.pl.items(): s = s + derivatives(E, planes[i], r.Ts[t], p[t])[0]*(1.0/(3.0*n))
        want.append(s)
    E.call('pr_solve', 3, 1, out=16)
    for t in range(3):
        T = E.call('pr_pose', t, out=16).reshape(4, 4)
        if any(len(p[t]) for p in r.pl.values()) and t: E.check_eq(f'pose {t}', T, E.call('pose_exp', E.arr([-al*x for x in want[t]]), out=16).reshape(4, 4), tol=1e-6)
        else: E.check_eq(f'pose {t} stays', T, r.I, tol=1e-6)

# initialisation --------------------------------------------------------------------
def initial(E, n, tri, seen):
    """plane 10k+1 has the centre W_k at pose 0 and its image at pose t; seen(k, t)"""
    r = Reg(E, n, 5); cx = E.reals('c', 3, -5, 5); U = E.rot('u'); Ts = [E.eye(4)] + [E.pose(f'T{t}') for t in range(1, n)]
    W, a = (H3, [3.0, 1.0, 0.0]) if tri else (H4, [3.0, 2.0, 1.0])
    common = [k for k in range(5) if all(seen(k, t) for t in range(n))]; Wk = {}
    for j, k in enumerate(common): Wk[k] = [q*w for q, w in zip(a, W[j])] if j < len(W) else [0.0, 0.0, 0.0]
    for k in range(5):
        r.add(10*k+1)
        w = U @ E.arr(Wk.get(k, [0.5*k, 1.0, -2.0])) + cx
        for t in range(n):
            if seen(k, t): r.push(10*k+1, t, Ts[t][:3, :3].T @ (w - Ts[t][:3, 3]))
    nn = perp(E, W); S = [x*y*y for x, y in zip(nn, a)]
    for t in range(1, n):
        R = Ts[t][:3, :3]; E.decomp('svd', R.T @ U @ diag(E, S) @ U.T, S, R.T @ U, U)
    r.expect('i'); E.call('pr_solve', 0, 0, out=16); return r, Ts, E.ret
def initialized(E, n, tri, seen):
    r, Ts, ok = initial(E, n, tri, seen); E.check('success', ok == 1); r.Ts = Ts; r.trajectory()
@harness(max_paths=20, cost=4)
def initialize_all_seen(E):
    """one plane is only seen from a third pose"""
    initialized(E, 2, False, lambda k, t: k != 4)
@harness(max_paths=20, cost=4)
def initialize_unseen(E):
    """a plane missing from the first or from the other pose is left out"""
    k = choose(E, 'which', 5); t = choose(E, 'where', 2); initialized(E, 2, False, lambda i, s: (i, s) != (k, t))
@harness(max_paths=20, cost=4)
def initialize_unseen_both(E):
    """one plane missing from the first pose, another one from the other pose; three remain"""
    k = choose(E, 'which', 4); j = k+1 if choose(E, 'next', 2) else (k+3) % 5
    initialized(E, 2, True, lambda i, s: (i, s) not in ((k, 0), (j, 1)))
@harness(max_paths=20, cost=4)
def initialize_three_poses(E):
    initialized(E, 3, False, lambda i, s: i != 1 or s != 0)
@harness(max_paths=20, cost=2)
def initialize_too_few(E):
    """fewer than three common planes: failure"""
    k = choose(E, 'case', 3); u = [((0, 0), (1, 0), (2, 1)), tuple((i, 1) for i in range(5)), tuple((i, 0) for i in range(5))][k]
    r, Ts, ok = initial(E, 2, True, lambda i, s: (i, s) not in u); E.check('reports failure', ok == 0); r.Ts = [E.eye(4)]*2; r.trajectory('unchanged: ')
