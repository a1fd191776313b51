from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SO3::SO3(Mat31)', 'SO3::exp', 'hat3', 'vee3', 'SO3::R']
BOUNDS = 'w = o*u, u any unit vector, o any real >= 0 (all of R^3); series branch: closeness 1e-12'

def spec(E, u, o):
    return E.rodrigues(u, E.sin(o), E.cos(o))

@harness(max_paths=12)
def exp_is_matrix_exponential(E):
    u = E.unit('u', 3); o = E.angle('o', 0, None, gen=lambda r: r.uniform(0.1, 3))
    w = o*u
    for fn in ('so3_exp', 'so3_exp_member'):
        R = E.call(fn, w, out=9)
        E.check_close(f'{fn} equals exp(hat(w))', R, spec(E, u, o), 1e-12)

@harness(max_paths=12)
def exp_is_rotation(E):
    u = E.unit('u', 3); o = E.angle('o', 0, None, gen=lambda r: r.uniform(0.1, 3))
    R = E.call('so3_exp', o*u, out=9).reshape(3, 3)
    E.check_close('R^T R = I', R.T @ R, E.eye(3), 1e-12)
    det = E.dot(R[0], [R[1][1]*R[2][2]-R[1][2]*R[2][1], R[1][2]*R[2][0]-R[1][0]*R[2][2], R[1][0]*R[2][1]-R[1][1]*R[2][0]])
    E.check_close('det R = 1', [det], [1.0], 1e-12)
    E.check_close('R w = w', R @ (o*u), o*u, 1e-12)
    E.check_close('trace R = 1 + 2 cos|w|', [R[0][0]+R[1][1]+R[2][2]], [1+2*E.cos(o)], 1e-12)

@harness()
def exp_of_zero(E):
    R = E.call('so3_exp', E.zeros(3), out=9)
    E.check_eq('exp(0) = I', R, E.eye(3), tol=0)
