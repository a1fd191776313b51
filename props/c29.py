from symx.runner import *
from props.pclib import *
from props.c18 import choose
import math
HARNESSES = []
REPO_SRCS = PC
HARNESS_SRCS = ['pc.cpp']
CXXFLAGS = FLAGS
ASSUMPTIONS = ['the standard uniform and normal distributions are replaced in both builds by draws that the harness chooses: uniform draws are any value of [0, 1), normal draws any value of [-3, 3]; the claims hold for the draws in any order']
FUNCTIONS = ['CreatePoints::CreatePoints', 'CreatePoints::create_plane_registration', 'SampleUniformSE3::samplePose', 'SampleUniformSE3::samplePosition', 'SampleUniformSE3::sampleOrientation', 'SamplePlanarSurface::samplePoint', 'SamplePlanarSurface::sampleBias']
BOUNDS = '1 to 3 poses, 1 to 3 planes, 1 to 6 points per pose; orientations of planes and of the last pose about a coordinate axis by any angle (0.1 to 3 rad) or none; any positions, any point draws, noise and bias 0 to 1'
B = 3.0
def pool(E, kind, v): E.call('draws', kind, len(v), E.arr(v))
def rotdraw(E, name, c, k):
    """three uniform draws on [-c, c] that give an angle about axis k (3: none)"""
    d = [0.5, 0.5, 0.5]
    if k < 3:
        o = E.angle(name, 0.1, 1.8 if c < 2 else 3.0, div=2); d[k] = (o + c)/(2.0*c)
        if c < 2:     # what the range of the angle implies
            E.assume(E.cos(o*0.5) >= 0.62); E.assume(E.cos(o*0.5) <= 0.9988); E.assume(E.sin(o*0.5) >= 0.0499); E.assume(E.sin(o*0.5) <= 0.784)
    return d
def scene(E, n, planes, poses, kp, kl, noise=None, bias=None):
    u = []
    for i in range(planes): u += rotdraw(E, f'p{i}', math.pi, (kp+i) % 4) + list(E.reals(f'q{i}', 3, 0, 1))
    u += rotdraw(E, 'l', math.pi/math.sqrt(3), kl) + list(E.reals('lt', 3, 0, 1))
    for t in range(poses):
        for i in range(n): u += list(E.reals(f'x{t}_{i}', 2, 0, 1))
    z = list(E.reals('z', poses*(n+2), -B, B))
    pool(E, 0, u); pool(E, 1, z)
    s = 0.0 if noise is None else noise; b = 0.0 if bias is None else bias
    E.call('cp_new', n, planes, poses, [s], [b]); return s, b
def mats(E, fn, n): return [E.call(fn, i, out=16).reshape(4, 4) for i in range(n)]
def cloud(E, t, n):
    X = E.call('cp_cloud', t, out=3*n).reshape(n, 3); a = E.ret; ids = E.call('cp_ids', t, out=n); b = E.ret
    E.check(f'sizes of cloud {t}', a == n and b == n); return X, [int(v) for v in ids]
def back(T, x): return T[:3, :3].T @ (x - T[:3, 3])
def fwd(T, x): return T[:3, :3] @ x + T[:3, 3]
def check_scene(E, n, planes, poses, s, b, exact):
    Ts = mats(E, 'cp_pose', poses); E.check('trajectory length', E.ret == poses); Ps = mats(E, 'cp_plane', planes); E.check('planes', E.ret == planes)
    for t in range(poses):
        X, ids = cloud(E, t, n); E.check(f'labels of cloud {t}', all(0 <= i < planes for i in ids))
        if not all(0 <= i < planes for i in ids): return
        for x, i in zip(X, ids):
            y = back(Ps[i], fwd(Ts[t], x))
            if exact: E.check_eq('on the plane of its label', y[2], 0.0, tol=1e-6)
            else:
                for m in (1, -1): E.check('within the noise of its plane', y[2]*m <= B*s + 1e-9)
            for k in (0, 1):
                for m in (1, -1): E.check('within the patch', y[k]*m <= 1.0 + B*b + 1e-9)
        for i in range(planes):
            mine = [x for x, j in zip(X, ids) if i == j]
            o = E.call('cp_planepts', i, t, out=max(1, 3*len(mine))); E.check(f'points stored in plane {i} of pose {t}', E.ret == 1000*i + len(mine))
            if E.ret == 1000*i + len(mine) and mine: E.check_same(f'plane {i} has the points of its label', o, E.arr([c for x in mine for c in x]))
def check_trajectory(E, poses):
    Ts = mats(E, 'cp_pose', poses); L = E.call('cp_pose', -1, out=16).reshape(4, 4)
    E.check_eq('starts at the identity', Ts[0], E.eye(4), tol=1e-9)
    if poses > 1:
        E.check_eq('ends at the last pose', Ts[-1], L); xi = E.call('pose_ln', L, out=6)
        for t in range(1, poses-1): E.check_close('even steps of the screw motion', Ts[t], E.call('pose_exp', xi*(t/(poses-1)), out=16).reshape(4, 4), tol=1e-9)

@harness(max_paths=24, cost=6)
def exact_points(E):
    """without noise every point lies exactly on its plane"""
    k = choose(E, 'axes', 3); s, b = scene(E, 1, 1, 2, k, (k+1) % 3); check_scene(E, 1, 1, 2, s, b, True)
@harness(max_paths=24, cost=4)
def exact_points_two_planes(E):
    k = choose(E, 'axes', 3); s, b = scene(E, 3, 2, 1, k, 3); check_scene(E, 3, 2, 1, s, b, True)
@harness(max_paths=24, cost=4)
def noisy_points(E):
    k = choose(E, 'axes', 3); s, b = scene(E, 1, 1, 2, 3, k, E.real('s', 0, 1), 0.5); check_scene(E, 1, 1, 2, s, b, False)
@harness(max_paths=24, cost=4)
def noise_along_the_normal(E):
    """noise but no bias: the patch is not enlarged"""
    k = choose(E, 'axes', 3); s, b = scene(E, 2, 2, 1, k, 3, E.real('s', 0, 1)); check_scene(E, 2, 2, 1, s, b, False)
SIZES = [(1, 1), (2, 1), (3, 2), (4, 3), (5, 2), (6, 3), (2, 3), (6, 1)]
@harness(max_paths=24, cost=3)
def labels(E):
    """any number of points over any number of planes"""
    n, p = SIZES[choose(E, 'size', len(SIZES))]; s, b = scene(E, n, p, 1, 3, 3); check_scene(E, n, p, 1, s, b, True); check_trajectory(E, 1)
@harness(max_paths=24, cost=4)
def trajectory(E):
    n = 1 + choose(E, 'poses', 3); k = choose(E, 'axis', 3); scene(E, 1, 1, n, 3, k); check_trajectory(E, n)
@harness(max_paths=24, cost=2)
def trajectory_five(E):
    """no rotation of the last pose"""
    scene(E, 1, 1, 5, 3, 3); check_trajectory(E, 5)
@harness(max_paths=24, cost=2)
def registration(E):
    """the registration filled from the scene has its planes, its points and identity poses, also when filled twice"""
    n, p, q = [(4, 2, 2), (3, 3, 1), (2, 1, 3)][choose(E, 'size', 3)]; scene(E, n, p, q, 3, 3)
    c = E.call('cp_counts', out=3); E.check_same('counts of the scene', c, [float(p), float(q), float(p)])
    for i in range(1 + choose(E, 'twice', 2)):
        E.call('cp_fill'); E.check_same('planes, poses, points', E.call('pr_counts', out=4), [float(p), float(q), float(n*q), float(p)])
        for t in range(q):
            E.check_same('identity pose', E.call('pr_pose', t, out=16), E.eye(4).ravel())
            X, ids = cloud(E, t, n); o = E.call('pr_cloud', t, out=3*n).reshape(n, 3); E.check('size of the cloud', E.ret == n)
            E.check_eq('moments of the cloud', [sum(x[a] for x in o) for a in range(3)] + [sum(x[a]*x[b] for x in o) for a in range(3) for b in range(a, 3)],
                       [sum(x[a] for x in X) for a in range(3)] + [sum(x[a]*x[b] for x in X) for a in range(3) for b in range(a, 3)])

# samplers --------------------------------------------------------------------------
@harness(max_paths=20, cost=2)
def sample_pose(E):
    """equal draws: the sample is the exponential of the scaled draws, whatever their order"""
    R, t = E.real('R', 0.1, 1.5), E.real('t', 0, 5); k = choose(E, 'draw', 2); u = [0.75, 0.25][k]
    pool(E, 0, [u]); w = R*(2*u-1); v = t*(2*u-1)
    E.check_eq('pose', E.call('su_sample', 0, E.arr([R, t]), 2, out=16), E.call('pose_exp', E.arr([w, w, w, v, v, v]), out=16), tol=1e-6)
    E.check_eq('orientation', E.call('su_sample', 2, E.arr([R, t]), 2, out=9), E.call('so_exp', E.arr([w, w, w]), out=9), tol=1e-6)
@harness(max_paths=20)
def sample_range(E):
    """positions cover their range: any draws"""
    pool(E, 0, E.reals('u', 3, 0, 1)); t = E.real('t', 0, 5); p = E.call('su_sample', 1, E.arr([1.0, t]), 2, out=3)
    for x in p: E.check('not above the range', x <= t + 1e-9); E.check('not below the range', x >= -1.0*t - 1e-9)
    a = E.real('a', -5, 4); d = E.real('d', 0.5, 3); p = E.call('su_sample', 1, E.arr([0.5, 1.0, a, a+d]), 4, out=3)
    for x in p: E.check('not above the limit', x <= a + d + 1e-9); E.check('not below the limit', x >= a - 1e-9)
@harness(max_paths=20)
def sample_surface(E):
    u = E.real('u', 0, 1); z = E.real('z', -B, B); s = E.real('s', 0, 1); b = E.real('b', 0, 1); pool(E, 0, [u]); pool(E, 1, [z])
    p = E.call('sp_sample', E.arr([s, b]), 0, out=3); E.check_eq('without a bias', p, [2*u-1, 2*u-1, s*z])
    p = E.call('sp_sample', E.arr([s, b]), 1, out=3); E.check_eq('with a bias', p, [2*u-1+b*z, 2*u-1+b*z, s*z])
@harness(max_paths=20)
def last_pose_is_the_draw(E):
    """equal draws: the trajectory ends at the exponential of the scaled draws (rotation below a half turn, translation within one unit)"""
    n = 1 + choose(E, 'poses', 3); u = [0.75, 0.125, 0.9375][choose(E, 'draw', 3)]; pool(E, 0, [u]); pool(E, 1, [0.5]); E.call('cp_new', 2, 1, n, [0.0], [0.0])
    w = (2*u-1)*math.pi/math.sqrt(3); v = 2*u-1; L = E.call('cp_pose', -1, out=16)
    E.check_close('ends at the drawn pose', L, E.call('pose_exp', [w, w, w, v, v, v], out=16) if n > 1 else E.eye(4).ravel(), tol=1e-9)
