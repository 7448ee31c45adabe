"""C05: rigid alignment of point sets."""
from fractions import Fraction

from symx.harness import SIZES, case, resized
from props.c03 import check_rotation

RT = 'blmath.geometry.transform.rigid_transform'

# rows with zero sum, mutually orthogonal, equal length: 4 centred points
H4 = [[1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]]
W_FIXED = [[Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)],
           [Fraction(2, 3), Fraction(2, 3), Fraction(-1, 3)],
           [Fraction(-1, 3), Fraction(2, 3), Fraction(2, 3)]]
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def tr(M):
    return [list(x) for x in zip(*M)]


def scales(t, rank, prefix='d'):
    """Descending scales with the last 3 - rank zero."""
    d = [t.real('%s%d' % (prefix, i), lo=Fraction(1, 10), hi=10) for i in range(rank)]
    for x, y in zip(d, d[1:]):
        t.assume(t.ge(x, y))
    return d + [t.val(0)] * (3 - rank)


def signs(U, V, su, sv):
    return [[x * s for x, s in zip(r, su)] for r in U], [[x * s for x, s in zip(r, sv)] for r in V]


def shift(t, M, name):
    v = t.vec(name)
    e = t.rows(v)
    return [[x + e[i] for x in M[i]] for i in range(3)], e


def layout(t, M, name):
    """3xN or Nx3 array."""
    a = t.array(M if t.choice('layout ' + name, ['3xN', 'Nx3']) == '3xN' else tr(M))
    return t.track(a, name)


def exact(t, pts, dd, rank, improper=False):
    """a = Q D pts + t1, b = G a + t2 with a rotation G (or a reflection)."""
    Q, G = t.rows(t.rotation('Q')), t.rows(t.rotation('G'))
    if improper:
        G = [[-x for x in r] for r in G]
    d = scales(t, rank)
    QD = [[Q[i][j] * d[j] for j in range(3)] for i in range(3)]
    a0 = t.matmul(QD, pts)
    b0 = t.matmul(G, a0)
    a, ta = shift(t, a0, 'ta')
    b, tb = shift(t, b0, 'tb')
    s = [x * x * k for x, k in zip(d, dd)]
    U, V = Q, t.matmul(G, Q)
    su = [1, 1, 1]
    sv = [1, 1, 1]
    if t.flag('both signs flipped'):
        su = sv = [-1, 1, 1]
    if rank < 3 and t.flag('independent sign'):
        sv = sv[:2] + [-1]
    U, V = signs(U, V, su, sv)
    t.svd_of((U, s, V))
    return a, b, ta, tb, G


def same(t, R, T, a, b, G, rank):
    r = t.rows(R)
    check_rotation(t, R, 'find_rigid_transform')
    got = [[x + t.rows(T)[i][0] for x in row] for i, row in enumerate(t.matmul(r, a))]
    t.check_eq(got, b, 'R a + T = b', 100)
    t.check(T.shape == (3, 1), 'T is a column')
    if rank >= 2:
        t.check_eq(r, G, 'the rotation that was applied is recovered')


def exact_case(name, pts, dd, rank, tier='quick', fix_layout=None, symbolic_w=False):
    @case('C05', 'exact motion: ' + name, tier=tier,
          bounds='any rotation and translation; %s; both layouts; every SVD sign choice' % name)
    def f(t):
        m = t.mod(RT)
        p = pts
        if symbolic_w:
            p = t.matmul(t.rows(t.rotation('W')), pts)
        a, b, ta, tb, G = exact(t, p, dd, rank)
        if len(pts[0]) == 3:
            A, B = t.track(t.array(a), 'a'), t.track(t.array(b), 'b')
        else:
            A, B = layout(t, a, 'a'), layout(t, b, 'b')
        R, T = m.find_rigid_transform(A, B)
        same(t, R, T, a, b, G, rank)
        t.check_unmutated()
    return f


exact_case('any 4 points with aligned inertia axes', H4, [4, 4, 4], 3)
exact_case('4 points in general position', [list(r) for r in
                                            [[sum(W_FIXED[i][k] * H4[k][j] for k in range(3)) for j in range(4)]
                                             for i in range(3)]], [4, 4, 4], 3)
exact_case('4 coplanar points', H4, [4, 4, 4], 2)
exact_case('4 colinear points', H4, [4, 4, 4], 1)
exact_case('3 points (isosceles triangle)', [[1, -1, 0], [1, 1, -2], [0, 0, 0]], [2, 6, 0], 2)
exact_case('5 points', [[2, 1, 0, -1, -2], [2, -1, -2, -1, 2], [1, -2, 0, 2, -1]], [10, 14, 10], 3)
exact_case('any 4 points', H4, [4, 4, 4], 3, symbolic_w=True)


@case('C05', 'whole numbers', bounds='4 points whose mean is not whole, in arrays of whole numbers, any offsets; five rotations')
def whole(t):
    m = t.mod(RT)
    G = t.choice('G', [I3, [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
                       [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 0, -1], [0, -1, 0], [-1, 0, 0]]])
    ta, tb = t.rows(t.ints('ta', 3, -9, 9)), t.rows(t.ints('tb', 3, -9, 9))
    base = [[(x + 1) // 2 for x in r] for r in H4]
    gb = [[sum(G[i][k] * base[k][j] for k in range(3)) for j in range(4)] for i in range(3)]
    a = [[t.val(x) + ta[i] for x in base[i]] for i in range(3)]
    b = [[t.val(x) + tb[i] for x in gb[i]] for i in range(3)]
    t.svd_of((I3, [1, 1, 1], G))
    which = t.choice('whole numbers', ['both', 'a', 'b'])
    A = t.track(t.int_array(a) if which != 'b' else t.array(a), 'a')
    B = t.track(t.int_array(b) if which != 'a' else t.array(b), 'b')
    R, T = m.find_rigid_transform(A, B)
    same(t, R, T, a, b, [[t.val(x) for x in r] for r in G], 3)
    t.check_unmutated()


@case('C05', 'points of any size', bounds='4 points, any translations, four rotations, all lengths multiplied by 2^-30 or 2^30')
def sizes(t):
    m = t.mod(RT)
    s = t.choice('size', SIZES)
    G = t.choice('G', [I3, [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]])
    ta, tb = [t.rows(t.ex(t.vec(n, lo=-9, hi=9))) for n in ('ta', 'tb')]
    gb = [[sum(G[i][k] * H4[k][j] for k in range(3)) for j in range(4)] for i in range(3)]
    a = [[t.val(x) + ta[i] for x in H4[i]] for i in range(3)]
    b = [[t.val(x) + tb[i] for x in gb[i]] for i in range(3)]
    t.svd_of((I3, [4 * s * s] * 3, G))
    R, T = m.find_rigid_transform(t.array(resized(t, a, s)), t.array(resized(t, b, s)))
    same(t, R, t.array(resized(t, t.rows(T), 1 / s)), a, b, [[t.val(x) for x in r] for r in G], 3)


@case('C05', 'coincident points', bounds='4 equal points, any position')
def coincident(t):
    m = t.mod(RT)
    p, q = t.vec('p'), t.vec('q')
    a = [[x] * 4 for x in t.rows(p)]
    b = [[x] * 4 for x in t.rows(q)]
    z = [[0] * 3] * 3
    t.svd_of((I3, [0, 0, 0], I3))
    R, T = m.find_rigid_transform(t.array(a), t.array(b))
    same(t, R, T, a, b, None, 0)


@case('C05', 'mirrored points', bounds='any reflection and translation of 4 points in general position')
def mirrored(t):
    m = t.mod(RT)
    a, b, ta, tb, G = exact(t, H4, [4, 4, 4], 3, improper=True)
    t.check(t.raises(lambda: m.find_rigid_transform(t.array(a), t.array(b)), ValueError),
            'a mirror image of a solid point set raises ValueError')


# the same with 3 points (coplanar) and 6 points (octahedron); squared row lengths
H3 = [[1, -1, 0], [1, 1, -2], [0, 0, 0]]
H6 = [[1, -1, 0, 0, 0, 0], [0, 0, 1, -1, 0, 0], [0, 0, 0, 0, 1, -1]]
SHAPES = {3: (H3, [2, 6, 0]), 4: (H4, [4, 4, 4]), 6: (H6, [2, 2, 2])}


def noisy(t, improper, n=4):
    """a = U X H, b = V Y H: the cross covariance has singular values h_i x_i y_i."""
    H, h = SHAPES[n]
    U, V = t.rows(t.rotation('U')), t.rows(t.rotation('V'))
    if improper:
        V = [[-x for x in r] for r in V]
    x = [t.real('x%d' % i, lo=Fraction(1, 10), hi=10) for i in range(3)]
    y = [t.real('y%d' % i, lo=Fraction(1, 10), hi=10) for i in range(3)]
    s = [k * p * q for k, p, q in zip(h, x, y)]
    t.assume(t.and_(t.ge(s[0], s[1] * Fraction(101, 100)), t.ge(s[1], s[2] * Fraction(101, 100))))
    a0 = t.matmul([[U[i][j] * x[j] for j in range(3)] for i in range(3)], H)
    b0 = t.matmul([[V[i][j] * y[j] for j in range(3)] for i in range(3)], H)
    t.svd_of((U, s, V))
    return U, V, s, a0, b0


def optimal(t, R, U, V, s):
    """R maximises trace(R c) over rotations, where c = U diag(s) V^T."""
    W = t.rows(t.rotation('other'))
    r = t.rows(R)
    # trace(R U S V^T) = sum_i s_i (V^T R U)_ii
    M = t.matmul(tr(V), t.matmul(r, U))
    d = t.det3(V) if not t.symbolic else None
    lhs = sum((s[i] * M[i][i] for i in range(3)), 0)
    return W, lhs


@case('C05', 'best rotation for noisy points', bounds='any 4 or 6 point pairs with matched inertia axes, any competing rotation')
def best(t):
    m = t.mod(RT)
    improper = t.flag('improper')
    U, V, s, a, b = noisy(t, improper, t.choice('points', [4, 6]))
    R = m.find_rigid_rotation(t.array(a), t.array(b))
    check_rotation(t, R, 'find_rigid_rotation')
    W = t.rows(t.rotation('other'))
    sg = -1 if improper else 1
    M = t.matmul(tr(V), t.matmul(t.rows(R), U))
    mine = s[0] * M[0][0] + s[1] * M[1][1] + s[2] * M[2][2]
    # any competitor is V W U^T (times -1 when V is improper)
    theirs = sg * (s[0] * W[0][0] + s[1] * W[1][1] + s[2] * W[2][2])
    t.check(t.ge(mine, theirs, 1000), 'no rotation fits better (least squares)')


@case('C05', 'motion of noisy points', bounds='any 3, 4 or 6 point pairs with matched inertia axes, any translations')
def noisyT(t):
    m = t.mod(RT)
    U, V, s, a0, b0 = noisy(t, False, t.choice('points', [3, 4, 6]))
    a, ta = shift(t, a0, 'ta')
    b, tb = shift(t, b0, 'tb')
    R, T = m.find_rigid_transform(t.array(a), t.array(b))
    check_rotation(t, R, 'find_rigid_transform')
    t.check_eq(R, t.matmul(V, tr(U)), 'the optimal rotation')
    t.check_eq([x[0] for x in t.rows(T)], t.sub(tb, t.matvec(t.rows(R), ta)), 'centroid is carried to centroid', 1000)


def rot_case(name, npts, rank, improper_w=False):
    @case('C05', 'rotation only: ' + name, bounds='any rotation, any factor in [0.1, 10], %s, also with a point at the origin, every SVD sign choice' % name)
    def f(t):
        m = t.mod(RT)
        Q, G = t.rows(t.rotation('Q')), t.rows(t.rotation('G'))
        d = scales(t, rank)
        QD = [[Q[i][j] * d[j] for j in range(3)] for i in range(3)]
        pts = H4 if npts == 4 else W_FIXED
        if improper_w:
            pts = [[-x for x in r] for r in pts]
        n2 = 4 if npts == 4 else 1
        scaling = t.flag('allow_scaling')
        if scaling and t.flag('one at the origin'):
            pts = [r[:1] + [0] + r[1:] for r in pts]
        a = t.matmul(QD, pts)
        k = t.real('k', lo=Fraction(1, 10), hi=10) if scaling else 1
        b = [[k * x for x in r] for r in t.matmul(G, a)]
        s = [n2 * k * x * x for x in d]
        U, V = Q, t.matmul(G, Q)
        sv = [1, 1, 1]
        if rank < 3 and t.flag('independent sign'):
            sv = [1, 1, -1]
        U, V = signs(U, V, [1, 1, 1], sv)
        t.svd_of((U, s, V))
        A, B = t.track(t.array(a), 'a'), t.track(t.array(b), 'b')
        R = m.find_rigid_rotation(A, B, allow_scaling=scaling) if scaling else m.find_rigid_rotation(A, B)
        t.check_eq(t.matmul(t.rows(R), a), b, 'R a = b', 1000)
        if rank >= 2:
            t.check_eq(R, [[k * x for x in r] for r in G], 'the rotation (times the factor) is recovered', 100)
        if not scaling:
            check_rotation(t, R, 'find_rigid_rotation')
        t.check_unmutated()
    return f


rot_case('4 points', 4, 3)
rot_case('3 points', 3, 3)
rot_case('3 points, left-handed', 3, 3, True)
rot_case('coplanar points', 4, 2)
rot_case('colinear points', 4, 1)


@case('C05', 'rotation only: single vectors', bounds='any pair of nonzero vectors, any lengths in [0.1, 10]')
def single(t):
    m = t.mod(RT)
    Q = t.rows(t.rotation('Q'))
    q = tr(Q)
    c, s = t.unit_list('cs', 2)
    x, y = t.real('x', lo=Fraction(1, 10), hi=10), t.real('y', lo=Fraction(1, 10), hi=10)
    u2 = [c * q[0][i] + s * q[1][i] for i in range(3)]
    a, b = t.smul(x, q[0]), t.smul(y, u2)
    w = t.smul(s, q[2])
    # c = xy u1 u2^T + (x y s)^2 q3 q3^T
    s1, s2 = x * y, (x * y * s) * (x * y * s)
    v3 = [-s * q[0][i] + c * q[1][i] for i in range(3)]
    e = -1 if t.flag('third sign') else 1
    if t.branch(t.ge(s1, s2)):
        U = tr([q[0], q[2], q[1]])
        V = tr([u2, q[2], t.smul(e, v3)])
        sg = [s1, s2, t.val(0)]
    else:
        U = tr([q[2], q[0], q[1]])
        V = tr([q[2], u2, t.smul(e, v3)])
        sg = [s2, s1, t.val(0)]
    t.svd_of((U, sg, V))
    scaling = t.flag('allow_scaling')
    A, B = t.track(t.array([[z] for z in a]), 'a'), t.track(t.array([[z] for z in b]), 'b')
    R = m.find_rigid_rotation(A, B, allow_scaling=scaling)
    Ra = t.matvec(t.rows(R), a)
    if scaling:
        t.check_eq(Ra, b, 'with scaling, R a = b', 100)
        r = t.rows(R)
        k = y / x
        for i in range(3):
            t.check(t.eq(t.dot(r[i], r[i]), k * k, 100), 'R is a rotation times |b|/|a|')
    else:
        check_rotation(t, R, 'find_rigid_rotation')
        t.check_eq(t.smul(y, Ra), t.smul(x, b), 'R turns a to the direction of b', 100)
    t.check_unmutated()
