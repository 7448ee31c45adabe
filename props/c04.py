"""C04: rotations from rotation vectors, matrices and Euler angles."""
from fractions import Fraction

from symx.harness import case
from props.c03 import check_rotation

ROD = 'blmath.geometry.transform.rodrigues'
ROT = 'blmath.geometry.transform.rotation'
CT = 'blmath.geometry.transform.composite'
TINY = Fraction(1, 10 ** 15)


def formula(t, k, c, s):
    """Rotation about unit k: entries of the matrix."""
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
    return [[(c if i == j else 0) + (1 - c) * k[i] * k[j] + s * K[i][j] for j in range(3)] for i in range(3)]


def shaped(t, r, kind):
    return r if kind == '3' else r.reshape((3, 1)) if kind == '3x1' else r.reshape((1, 3))


@case('C04', 'rotation vector to matrix', bounds='any rotation vector longer than 1e-15, shapes (3,), (3,1), (1,3)')
def vec2mat(t):
    m = t.mod(ROD)
    r = t.vec('r')
    e = t.rows(t.ex(r))
    n2 = t.norm2(e)
    t.assume(t.gt(n2, TINY * TINY))
    th = t.norm(e)
    kind = t.choice('shape', ['3', '3x1', '1x3'])
    f = t.choice('function', ['rodrigues', 'as_rotation_matrix'])
    R = getattr(m, f)(shaped(t, r, kind))
    t.check(R.shape == (3, 3), 'a 3x3 matrix')
    check_rotation(t, R, f)
    t.check_eq(R, formula(t, [x / th for x in e], t.cos(th), t.sin(th)), 'rotation by |r| about r (Rodrigues formula)')
    t.check_eq(t.matvec(t.rows(R), e), e, 'r itself is fixed', n2)
    t.check_unmutated()


@case('C04', 'tiny rotations', bounds='angles of 2^-24, 2^-30 and 2^-40 about three axes, turned by any multiple from 1 to 2; three shapes')
def tiny(t):
    m = t.mod(ROD)
    k = t.choice('axis', [[Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)], [0, Fraction(3, 5), Fraction(4, 5)], [0, 0, -1]])
    s = t.choice('angle', [2.0 ** -24, 2.0 ** -30, 2.0 ** -40])
    th = t.real('th', lo=1, hi=2, gen=lambda rng, i: Fraction(rng.randrange(8, 17), 8)) * t.val(s)
    r = shaped(t, t.array([th * t.val(x) for x in k]), t.choice('shape', ['3', '3x1', '1x3']))
    R = t.rows(m.rodrigues(r))
    for i in range(3):
        a, b = (i + 2) % 3, (i + 1) % 3
        t.check_eq((R[a][b] - R[b][a]) / s, 2 * t.sin(th) * k[i] / s, 'turned by the angle, however small it is')


@case('C04', 'zero rotation vector', bounds='the zero vector, all three shapes')
def zero(t):
    m = t.mod(ROD)
    r = t.np.zeros(3)
    R = m.as_rotation_matrix(shaped(t, r, t.choice('shape', ['3', '3x1', '1x3'])))
    t.check_eq(R, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'zero vector gives the identity')
    t.scribble(R)
    t.check_eq(m.rodrigues(r), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'and again')


# an orthogonal matrix with rational entries; U (1,1,1) (U^T r) is an SVD of any orthogonal r
U0 = [[Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)],
      [Fraction(2, 3), Fraction(2, 3), Fraction(-1, 3)],
      [Fraction(-1, 3), Fraction(2, 3), Fraction(2, 3)]]


def svd_of_scaled_rotation(t, k=1):
    def oracle(a):
        U = t.array(U0)
        V = t.np.dot(U.T, a) / k
        return U, t.array([k, k, k]), V
    t.svd(oracle)


@case('C04', 'matrix to rotation vector and back', bounds='any rotation by an angle in [1e-5, pi) with sine at least 1e-5')
def mat2vec(t):
    m = t.mod(ROD)
    k = t.unit('k')
    th = t.real('th', lo=Fraction(1, 10 ** 4), gen=lambda rng, i: Fraction(rng.randrange(1, 30), 10))
    t.assume(t.lt(th, t.pi))
    t.angle_facts(th)
    c, s = t.cos(th), t.sin(th)
    t.assume(t.gt(s, Fraction(2, 10 ** 5)))
    svd_of_scaled_rotation(t)
    e = t.rows(k)
    R = t.array(formula(t, e, c, s))
    t.check_eq(t.rows(m.rodrigues(t.array(t.smul(th, e)))), t.rows(R), 'the vector gives the matrix')
    r = m.rodrigues(R)
    t.check(r.shape == (3, 1), 'a 3x1 rotation vector')
    t.check_eq([x[0] for x in t.rows(r)], t.smul(th, e), 'the matrix gives the vector back: angle times axis', 10)
    t.check_eq(m.rodrigues(r), R, 'and the vector gives the matrix again', 10)
    t.check_unmutated()


@case('C04', 'half turns', bounds='rotation by exactly 180 degrees about any axis')
def half(t):
    m = t.mod(ROD)
    k = t.unit('k')
    e = t.rows(k)
    svd_of_scaled_rotation(t)
    R = t.array([[2 * e[i] * e[j] - (1 if i == j else 0) for j in range(3)] for i in range(3)])
    r = [x[0] for x in t.rows(m.rodrigues(R))]
    t.check(t.or_(t.eqs(r, t.smul(t.pi, e), 100), t.eqs(r, t.smul(-t.pi, e), 100)), 'rotation vector is +-pi times the axis')
    t.check_eq(m.as_rotation_matrix(R), R, 'and gives the same half turn', 100)


@case('C04', 'half turns with rounding errors', bounds='half turns about the three coordinate axes, four kinds of errors of 1e-16 to 1e-9 '
      'in the matrix, any errors up to 1e-12 on the diagonal of its decomposition (with zero sum)')
def half_rounded(t):
    m = t.mod(ROD)
    ax = t.choice('axis', [0, 1, 2])
    i, j = (ax + 1) % 3, (ax + 2) % 3
    d = t.choice('size of the errors', [Fraction(1, 10 ** 9), Fraction(1, 10 ** 12), Fraction(1, 10 ** 16)])
    H = [[Fraction((1 if p == ax else -1) if p == q else 0) for q in range(3)] for p in range(3)]
    for p, q, k in t.choice('errors', [[(i, ax, 2), (j, ax, 1)], [(i, ax, 2), (ax, j, 1)], [(i, ax, 1), (j, ax, -1), (i, j, 1)],
                                       [(ax, i, -2), (j, i, 1), (j, ax, 3)]]):
        H[p][q] = k * d
    e = [t.real('e%d' % k, lo=-Fraction(1, 10 ** 12), hi=Fraction(1, 10 ** 12)) for k in range(2)]
    e.append(-e[0] - e[1])
    V = [[t.val(H[p][q]) + (e[p] if p == q else 0) for q in range(3)] for p in range(3)]
    t.svd(lambda a: (t.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), t.array([1, 1, 1]), t.array(V)))
    r = m.rodrigues(t.array([[float(x) for x in y] for y in H]))
    t.check(r.shape == (3, 1), 'a 3x1 rotation vector')
    r = [x[0] for x in t.rows(r)]
    for x in r:
        t.check(not t.branch(t.isnan(x)), 'the rotation vector is not nan')
    for k in (i, j):
        t.check(t.le(r[k] * r[k] * 10 ** 6, r[ax] * r[ax]), 'along the axis of the half turn')
    t.check(t.ge(r[ax] * r[ax], Fraction(96, 10)), 'of length pi')
    t.check(t.le(r[ax] * r[ax], Fraction(99, 10)), 'of length pi')


@case('C04', 'rotation matrices are kept', bounds='any rotation with sine of the angle at least 1e-5, or the identity')
def keep(t):
    m = t.mod(ROD)
    svd_of_scaled_rotation(t)
    R = t.rotation('R')
    e = t.rows(R)
    d = [e[2][1] - e[1][2], e[0][2] - e[2][0], e[1][0] - e[0][1]]
    if t.branch(t.gt(t.norm2(d), Fraction(16, 10 ** 10))):
        t.check_eq(m.as_rotation_matrix(R), R, 'as_rotation_matrix keeps a rotation matrix', 100)
        c = t.mod(CT).CompositeTransform()
        p = t.arr('p', (1, 3))
        t.check(c.rotate(R) == 0, 'rotate returns its index')
        t.check_eq(c(p), [t.matvec(e, t.rows(p)[0])], 'rotate() applies the matrix', 100)
        t.check_eq(c(p, reverse=True), [t.matvec([list(x) for x in zip(*e)], t.rows(p)[0])], 'and its transpose', 100)
    I = t.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    t.check_eq(m.as_rotation_matrix(I), I, 'the identity stays')
    t.check_unmutated()


@case('C04', 'scaled rotation matrices', bounds='any rotation (sine at least 1e-5) times any factor in [0.1, 10]')
def scaled(t):
    m = t.mod(ROD)
    k = t.real('k', lo=Fraction(1, 10), hi=10)
    svd_of_scaled_rotation(t, k)
    R = t.rotation('R')
    e = t.rows(R)
    d = [e[2][1] - e[1][2], e[0][2] - e[2][0], e[1][0] - e[0][1]]
    t.assume(t.gt(t.norm2(d), Fraction(16, 10 ** 10)))
    M = R * k
    t.check_eq(m.as_rotation_matrix(M), R, 'the nearest rotation is used', 100)
    t.check_unmutated()


@case('C04', 'matrices which are not rotations', bounds='any rotation (sine at least 1e-5) after any stretch in [0.1, 10] along each of three axes')
def stretched(t):
    m = t.mod(ROD)
    R = t.rotation('R')
    e = t.rows(R)
    d = [e[2][1] - e[1][2], e[0][2] - e[2][0], e[1][0] - e[0][1]]
    t.assume(t.gt(t.norm2(d), Fraction(16, 10 ** 10)))
    V = t.choice('axes', [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], U0])
    s = [t.real('s%d' % i, lo=Fraction(1, 10), hi=10) for i in range(3)]
    # M = R V diag(s) V^T, which has the singular value decomposition (R V) diag(s) V^T
    RV = t.matmul(e, V)
    t.svd(lambda a: (t.array(RV), t.array(s), t.array([list(c) for c in zip(*V)])))
    M = t.array(t.matmul([[RV[i][j] * s[j] for j in range(3)] for i in range(3)], [list(c) for c in zip(*V)]))
    t.check_eq(m.as_rotation_matrix(M), R, 'the nearest rotation is used', 1000)


@case('C04', 'bad shapes', bounds='shapes other than 3, 1x3, 3x1, 3x3')
def bad(t):
    m = t.mod(ROD)
    shape = t.choice('shape', [(2,), (4,), (2, 3), (3, 2), (4, 4), (1, 4), (9,)])
    x = t.np.zeros(shape)
    t.check(t.raises(lambda: m.rodrigues(x)), 'rodrigues refuses other shapes')
    t.check(t.raises(lambda: m.as_rotation_matrix(x)), 'as_rotation_matrix refuses other shapes')


AX = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}


def turn(t, axis, c, s, p):
    i, j = AX[axis]
    q = list(p)
    q[i], q[j] = c * p[i] - s * p[j], s * p[i] + c * p[j]
    return q


ORDERS = ['xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx', 'xyx', 'zxz', 'x', 'y', 'z', 'xy', 'zx']


@case('C04', 'euler angles', bounds='any angles; 13 axis orders of 1 to 3 turns; degrees and radians')
def euler(t):
    m = t.mod(ROT)
    order = t.choice('order', ORDERS)
    units = t.choice('units', ['deg', 'rad'])
    n = len(order)
    a = t.vec('a', n)
    arg = a if t.flag('as array') else list(t.rows(a))
    R = m.euler(arg, order=order, units=units)
    p = t.vec('p')
    q = t.rows(p)
    for ang, ax in zip(t.rows(a), order):
        rad = ang * t.pi / 180 if units == 'deg' else ang
        q = turn(t, ax, t.cos(rad), t.sin(rad), q)
    t.check_eq(t.matvec(t.rows(R), t.rows(p)), q, 'turns about the listed axes, first axis first', 100)
    check_rotation(t, R, 'euler')
    t.check_unmutated()


@case('C04', 'euler defaults', bounds='any angles')
def eulerdef(t):
    m = t.mod(ROT)
    a = t.vec('a')
    t.check_eq(m.euler(a), m.euler(a, order='xyz', units='deg'), 'default is xyz in degrees')
    x = t.pyreal('x')
    ax = t.choice('axis', ['x', 'y', 'z'])
    t.check_eq(m.euler(x, order=ax), m.euler([x], order=ax), 'a single number is one turn')
