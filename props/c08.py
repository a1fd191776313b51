from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['quat_to_so3', 'so3_to_quat', 'rpy_to_so3']
BOUNDS = 'all quaternions with norm in (0.01, 100), all rotations (every branch of the trace method), all roll/pitch/yaw in [-pi, pi]'

@harness()
def unit_quaternion_to_rotation(E):
    q = E.unit('q', 4)      # w,x,y,z
    R = E.call('q2r', [q[1], q[2], q[3], q[0]], out=9)
    E.check_eq('rotation of a unit quaternion', R, E.quatrot(q))

@harness()
def any_norm(E):
    q = E.reals('q', 4, -10, 10)
    n2 = E.dot(q, q); E.assume(n2 > 0.0001)
    R = E.call('q2r', [q[1], q[2], q[3], q[0]], out=9)
    w, x, y, z = q
    M = E.arr([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])
    E.check_eq('n^2 R(q) for any norm', n2*R, M.ravel(), tol=1e-6)
    k = E.real('k', 0.1, 10)
    R2 = E.call('q2r', [k*q[1], k*q[2], k*q[3], k*q[0]], out=9)
    E.check_eq('independent of the norm', R2, R)
    R3 = E.call('q2r', [-q[1], -q[2], -q[3], -q[0]], out=9)
    E.check_eq('q and -q are the same rotation', R3, R)

@harness(max_paths=20, cost=3)
def rotation_to_quaternion(E):
    q = E.unit('q', 4)
    R = E.quatrot(q)
    p = E.call('r2q', R, out=4)   # x,y,z,w
    E.check_eq('unit norm', [E.dot(p, p)], [1])
    e = [q[1], q[2], q[3], q[0]]
    E.check_eq('same rotation (p p^T = q q^T)', np.outer(p, p), np.outer(e, e))
    E.check_eq('round trip', E.call('q2r', p, out=9), R.ravel())

@harness(max_paths=20)
def half_turns(E):
    u = E.unit('u', 3)
    R = 2*np.outer(u, u) - E.eye(3)
    p = E.call('r2q', R, out=4)
    E.check_eq('half turn: vector part is the axis', np.outer(p[:3], p[:3]), np.outer(u, u))
    E.check_eq('half turn: zero real part', [p[3]*p[3]], [0])

@harness()
def identity(E):
    E.check_eq('identity', E.call('r2q', E.eye(3), out=4), [0, 0, 0, 1], tol=0)
    E.check_eq('identity back', E.call('q2r', [0.0, 0.0, 0.0, 1.0], out=9), E.eye(3), tol=0)

@harness()
def roll_pitch_yaw(E):
    a = [E.angle(n, ('pi', -1), ('pi', 1), div=2, gen=lambda r: r.uniform(-3, 3)) for n in ('r', 'p', 'y')]
    s = [E.sin(x) for x in a]; c = [E.cos(x) for x in a]
    Rx = E.arr([[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]])
    Ry = E.arr([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
    Rz = E.arr([[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]])
    R = E.call('rpy', a, out=9)
    E.check_eq('Rx(roll) Ry(pitch) Rz(yaw)', R, (Rx @ Ry @ Rz).ravel())
