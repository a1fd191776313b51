from symx.runner import *
REPO_SRCS = ['src/geometry/SO3.cpp', 'src/geometry/SE3.cpp', 'src/geometry/SE3cov.cpp']
HARNESS_SRCS = ['geom.cpp']
FUNCTIONS = ['SO3::operator*', 'SO3::mul', 'SO3::inv', 'SO3::operator=', 'SE3::operator*', 'SE3::mul', 'SE3::inv', 'SE3::transform', 'SE3::transform_array', 'SE3::operator=', 'SE3 constructors']
BOUNDS = 'all rotations (unit quaternions) and all translations; arbitrary matrices for products; arrays of 0..4 rows'

@harness()
def so3_products(E):
    A, B = E.reals('a', 9).reshape(3, 3), E.reals('b', 9).reshape(3, 3)
    x = E.call('so3_mul', A, B, out=36)
    E.check_eq('operator* is the matrix product', x[:9], A @ B)
    E.check_eq('mul is the matrix product', x[9:18], A @ B)
    E.check_same('operands unchanged', x[18:], [*A.ravel(), *B.ravel()])

@harness()
def so3_inverse(E):
    R = E.rot('q')
    x = E.call('so3_inv', R, out=27)
    Ri = x[:9].reshape(3, 3)
    E.check_eq('R inv(R) = I', R @ Ri, E.eye(3)); E.check_eq('inv(R) R = I', Ri @ R, E.eye(3))
    E.check_eq('adjoint of a rotation is the rotation', x[9:18], R)
    E.check_same('operand unchanged', x[18:27], R)

@harness()
def so3_copies(E):
    A, B = E.reals('a', 9), E.reals('b', 9)
    x = E.call('so3_copy', A, B, out=72).reshape(8, 9)
    for i, (n, e) in enumerate((('copy', A), ('assignment', B), ('assignment returns the target', B), ('self assignment', B), ('source unchanged', B), ('write through reference', A), ('other object not aliased', B), ('default is identity', E.eye(3)))):
        E.check_eq(n, x[i], e, tol=0)

@harness()
def se3_products(E):
    A = E.mat4(E.reals('a', 9).reshape(3, 3), E.reals('s', 3)); B = E.mat4(E.reals('b', 9).reshape(3, 3), E.reals('t', 3))
    x = E.call('se3_mul', A, B, out=64)
    E.check_eq('operator* is the matrix product', x[:16], A @ B)
    E.check_eq('mul is the matrix product', x[16:32], A @ B)
    E.check_same('operands unchanged', x[32:], [*A.ravel(), *B.ravel()])

@harness()
def se3_inverse(E):
    T = E.pose('p')
    x = E.call('se3_inv', T, out=16+16+12)
    Ti = x[:16].reshape(4, 4)
    E.check_eq('T inv(T) = I', T @ Ti, E.eye(4)); E.check_eq('inv(T) T = I', Ti @ T, E.eye(4))
    E.check_eq('last row of the inverse', Ti[3], [0, 0, 0, 1], tol=0)
    E.check_same('operand unchanged', x[16:32], T)
    E.check_same('R()', x[32:41], T[:3, :3]); E.check_same('t()', x[41:44], T[:3, 3])
    Tii = E.call('se3_inv', Ti, out=44)[:16]
    E.check_eq('inv(inv(T)) = T', Tii, T)

@harness()
def se3_inverse_of_product(E):
    A, B = E.pose('a'), E.pose('b')
    AB = E.call('se3_mul', A, B, out=64)[:16]
    i1 = E.call('se3_inv', AB, out=44)[:16]
    i2 = E.call('se3_mul', E.call('se3_inv', B, out=44)[:16], E.call('se3_inv', A, out=44)[:16], out=64)[:16]
    E.check_eq('inv(AB) = inv(B) inv(A)', i1, i2)

@harness()
def se3_copies(E):
    A = E.mat4(E.reals('a', 9).reshape(3, 3), E.reals('s', 3)); B = E.mat4(E.reals('b', 9).reshape(3, 3), E.reals('t', 3))
    x = E.call('se3_copy', A, B, out=16*9).reshape(9, 16)
    for i, (n, e) in enumerate((('copy', A), ('assignment', B), ('assignment returns the target', B), ('self assignment', B), ('write through reference', A), ('other object not aliased', B), ('default is identity', E.eye(4)), ('from rotation object and translation', A), ('from rotation matrix and translation', A))):
        E.check_eq(n, x[i], e, tol=0)

@harness()
def se3_transform(E):
    R, t = E.reals('r', 9).reshape(3, 3), E.reals('t', 3); p = E.reals('p', 3)
    T = E.mat4(R, t)
    E.check_eq('transform(p) = R p + t', E.call('se3_transform', T, p, out=3), R @ p + t)
    for n in range(5):
        P = E.reals(f'P{n}_', 3*n).reshape(n, 3) if n else E.zeros(0, 3)
        x = E.call('se3_transform_array', T, n, P, out=3*n+1)
        E.check('array result is N x 3', E.ret == n*1000+3)
        exp = [R @ P[i] + t for i in range(n)]
        E.check_eq(f'array of {n} points', x[:3*n], exp)

@harness()
def composition_acts_on_points(E):
    A, B, p = E.pose('a'), E.pose('b'), E.reals('p', 3)
    AB = E.call('se3_mul', A, B, out=64)[:16]
    E.check_eq('(AB)p = A(Bp)', E.call('se3_transform', AB, p, out=3), E.call('se3_transform', A, E.call('se3_transform', B, p, out=3), out=3))
    Ai = E.call('se3_inv', A, out=44)[:16]
    E.check_eq('inv(A)(A p) = p', E.call('se3_transform', Ai, E.call('se3_transform', A, p, out=3), out=3), p)
