"""Shared by the point-cloud properties."""
GEOM = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp']
D = 'src/PCRegistration/'
PC = GEOM + [D + f for f in ('arun.cpp', 'weight_point.cpp', 'gicp.cpp', 'estimate_plane.cpp', 'plane.cpp', 'plane_registration.cpp', 'create_points.cpp')] + \
    ['src/common/time_profiling.cpp', 'src/common/optimizer.cpp']
FLAGS = ['-include', 'symx_dec.h', '-DSYMX_DRAWS']
DEC = 'Eigen\'s iterative decompositions (JacobiSVD, SelfAdjointEigenSolver) are taken by contract in the symbolic build: the answer is a decomposition of exactly the matrix passed (proved to be the expected one); the replay on the plain build uses Eigen itself'
H4 = [[1.0, 1.0, 1.0], [1.0, -1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0]]   # orthogonal columns that sum to zero
H3 = [[1.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [0.0, -2.0, 0.0]]
def perp(E, W):
    """squared norms of the columns"""
    return [sum(r[k]*r[k] for r in W) for k in range(3)]
def diag(E, d):
    M = E.zeros(3, 3)
    for i in range(3): M[i, i] = d[i]
    return M
