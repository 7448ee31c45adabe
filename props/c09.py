"""C09: plane construction."""
from fractions import Fraction
from itertools import permutations

from symx.harness import SIZES, case, changing, plane, resized
from props.c05 import H4
from props.c29 import FRAMES

PL = 'blmath.geometry.primitives.plane'
EPS = Fraction(1, 10 ** 6)


def pt(t, name):
    kind = t.choice('kind', ['array', 'list'])
    v = t.vec(name)
    return (v if kind == 'array' else list(t.rows(v))), t.rows(t.ex(v))


def on(t, pl, p, label, scale=None):
    n = t.rows(pl.normal)
    r = t.rows(t.ex(pl.reference_point))
    t.check(t.eq(t.dot(n, t.sub(p, r)), 0, scale), label)


def unit(t, pl):
    t.check(t.eq(t.norm2(t.rows(pl.normal)), 1), 'the normal has length one')


def parallel(t, n, d, label):
    """n is d normalised."""
    l = t.norm(d)
    t.check_eq(t.smul(l, n), d, label, t.norm2(d))


def big(t, v):
    return t.or_(*[t.or_(t.gt(x, EPS), t.lt(x, -EPS)) for x in v])


@case('C09', 'from three points', bounds='any three points not nearly colinear, arrays or lists')
def from_points(t):
    Plane = t.mod(PL).Plane
    a, e = pt(t, 'a')
    b, f = pt(t, 'b')
    c, g = pt(t, 'c')
    d = t.cross(t.sub(f, e), t.sub(g, e))
    t.assume(big(t, d))
    pl = Plane.from_points(a, b, c)
    unit(t, pl)
    parallel(t, t.rows(pl.normal), d, 'normal is (p2 - p1) x (p3 - p1) normalised (counterclockwise)')
    t.check_eq(pl.reference_point, e, 'the reference point is the first point')
    s = sum((t.norm2(x) for x in (e, f, g)), 1) if t.symbolic else 1 + sum(float(t.norm2(x)) for x in (e, f, g))
    for i, p in enumerate((e, f, g)):
        on(t, pl, p, 'point %d lies on the plane' % (i + 1), s)
    t.check_eq(pl.signed_distance(t.array([e, f, g])), [0, 0, 0], 'signed distance of the three points is 0', s)
    t.check_unmutated()


@case('C09', 'from two points and a vector', bounds='any two points and vector, arrays or lists, not nearly parallel')
def from_pv(t):
    Plane = t.mod(PL).Plane
    a, e = pt(t, 'a')
    b, f = pt(t, 'b')
    v, g = pt(t, 'v')
    d = t.cross(t.sub(f, e), g)
    t.assume(big(t, d))
    pl = Plane.from_points_and_vector(a, b, v)
    unit(t, pl)
    parallel(t, t.rows(pl.normal), d, 'normal is (p2 - p1) x vector normalised')
    t.check_eq(pl.reference_point, e, 'the reference point is the first point')
    s = 1 + sum(float(t.norm2(x)) for x in (e, f, g)) if not t.symbolic else None
    on(t, pl, e, 'first point lies on the plane', s)
    on(t, pl, f, 'second point lies on the plane', s)
    t.check(t.eq(t.dot(t.rows(pl.normal), g), 0, s), 'the vector lies in the plane')
    t.check_unmutated()


@case('C09', 'degenerate planes are refused', bounds='exactly colinear integer points, parallel vectors, zero normals, '
                                                     'wrong shapes')
def degenerate(t):
    Plane = t.mod(PL).Plane
    a = t.ints('a', 3, -9, 9)
    d = t.ints('d', 3, -9, 9)
    k, m = t.integer('k', -5, 5), t.integer('m', -5, 5)
    t.check(t.raises(lambda: Plane.from_points(a, a + k * d, a + m * d), ValueError), 'colinear points raise ValueError')
    t.check(t.raises(lambda: Plane.from_points_and_vector(a, a + k * d, m * d), ValueError),
            'a vector along the points raises ValueError')
    t.check(t.raises(lambda: Plane(a, t.np.zeros(3)), ValueError), 'a zero normal raises ValueError')
    bad = t.choice('bad', [[1., 2.], [1., 2., 3., 4.], [[1., 2., 3.], [4., 5., 6.]], None])
    t.check(t.raises(lambda: Plane.from_points(bad, a, a + d), ValueError), 'p1 of another shape raises ValueError')
    t.check(t.raises(lambda: Plane.from_points(a, bad, a + d), ValueError), 'p2 of another shape raises ValueError')
    t.check(t.raises(lambda: Plane.from_points_and_vector(a, a + d, bad), ValueError),
            'a vector of another shape raises ValueError')


@case('C09', 'constructor', bounds='any point, any normal with a component above 1e-8 (floats and integers)')
def ctor(t):
    Plane = t.mod(PL).Plane
    if t.flag('integers'):
        p, n = t.ints('p', 3, -9, 9), t.ints('n', 3, -9, 9)
    else:
        p, n = t.vec('p'), t.vec('n')
    e = t.rows(t.ex(n))
    t.assume(t.or_(*[t.gt(t.abs(x), Fraction(1, 10 ** 7)) for x in e]))
    pl = Plane(p, n)
    unit(t, pl)
    parallel(t, t.rows(pl.normal), e, 'the normal keeps its direction')
    t.check_eq(pl.reference_point, t.rows(t.ex(p)), 'the reference point is the point given')
    t.check_unmutated()


@case('C09', 'equation and canonical point', bounds='any plane, any point')
def equation(t):
    pl, p0, n = plane(t)
    q = t.vec('q')
    e = t.rows(t.ex(q))
    eq = t.rows(pl.equation)
    t.check(len(eq) == 4, 'four coefficients')
    t.check_eq(eq[:3], n, 'A, B, C is the unit normal')
    t.check(t.eq(t.dot(eq[:3], p0) + eq[3], 0), 'the reference point satisfies the equation')
    t.check(t.eq(t.dot(eq[:3], e) + eq[3], pl.signed_distance(q)), 'Ax + By + Cz + D is the signed distance')
    c = t.rows(pl.canonical_point)
    t.check(t.eq(t.dot(n, c), t.dot(n, p0)), 'the canonical point lies on the plane')
    t.check_eq(t.cross(n, c), [0, 0, 0], 'on the normal through the origin')
    t.scribble(pl.equation, pl.canonical_point)
    t.check_eq(pl.equation, eq, 'the equation is the same when read again')
    t.check_eq(pl.canonical_point, c, 'the canonical point is the same when read again')
    t.check(t.eq(t.dot(eq[:3], e) + eq[3], pl.signed_distance(q)), 'and so is the signed distance')
    t.check_unmutated()


@case('C09', 'canonical point does not depend on the reference point', bounds='any plane, any point of it')
def canon(t):
    Plane = t.mod(PL).Plane
    R = t.rows(t.rotation('R'))
    t.assume(big(t, R[2]))      # true of any unit vector
    p0 = t.vec('p0')
    a, b = t.real('a'), t.real('b')
    q = [x + a * y + b * z for x, y, z in zip(t.rows(p0), R[0], R[1])]
    p1 = Plane(p0, t.array(R[2]))
    p2 = Plane(t.array(q), t.array(R[2]))
    t.check_eq(p1.canonical_point, p2.canonical_point, 'same canonical point')
    t.check_eq(p1.equation, p2.equation, 'same equation')


@case('C09', 'flipped', bounds='any plane, any point')
def flipped(t):
    pl, p0, n = plane(t)
    q = t.vec('q')
    fl = pl.flipped()
    t.check_eq(fl.normal, [-x for x in n], 'normal is reversed')
    t.check_eq(fl.reference_point, p0, 'same reference point')
    t.check_eq(fl.canonical_point, pl.canonical_point, 'same canonical point')
    t.check_eq(fl.equation, [-x for x in t.rows(pl.equation)], 'equation is negated')
    t.check_eq(pl.normal, n, 'the plane itself is not changed')
    t.check_eq(fl.flipped().normal, n, 'flipping twice restores the normal')


PERMS = list(permutations(range(3)))


# five points of which two are equal
H5 = [[1, 1, -2, 0, 0], [0, 0, 0, 1, -1], [2, 2, 2, -3, -3]]


def fit_case(name, rank, pts=H4, w=False, frames=None, unit_size=1):
    n = len(pts[0])

    @case('C09', 'best fit: ' + name, bounds='any %d points with distinct inertia (%s); eigenvectors in any order and sign' % (n, name))
    def fit(t):
        Plane = t.mod(PL).Plane
        Q = [[t.val(Fraction(x)) for x in r] for r in t.choice('frame', frames)] if frames else t.rows(t.rotation('Q'))
        t.assume(big(t, [Q[i][2] for i in range(3)]))      # true of any unit vector
        d = [t.real('d%d' % i, lo=Fraction(1, 10), hi=10) for i in range(rank)] + [t.val(0)] * (3 - rank)
        pts_ = [[x * unit_size for x in row] for row in pts]
        size = [sum(x * x for x in row) for row in pts_]
        lam = [k * x * x for k, x in zip(size, d)]
        for x, y in zip(d, d[1:]) if pts is H4 else zip(lam, lam[1:]):
            t.assume(t.ge(x, y + Fraction(1, 100) * (1 if pts is H4 else unit_size ** 2)))
        QD = [[Q[i][j] * d[j] for j in range(3)] for i in range(3)]
        H = t.matmul(t.rows(t.rotation('W')), pts_) if w else pts_
        a = t.matmul(QD, H)
        c = t.vec('c')
        cc = t.rows(c)
        points = t.track(t.array([[a[i][k] + cc[i] for i in range(3)] for k in range(n)]), 'points')
        perm = t.choice('order', PERMS)
        sg = t.choice('sign', [1, -1])

        def oracle(m):
            e = t.rows(m)
            for k in (Fraction(1, n - 1), Fraction(1, n), 1):
                M = [[k * sum((Q[i][l] * lam[l] * Q[j][l] for l in range(3)), 0) for j in range(3)] for i in range(3)]
                if t.holds(t.eqs(e, M)):
                    return (t.array([k * lam[p] for p in perm]),
                            t.array([[sg * Q[i][p] if p == 0 else Q[i][p] for p in perm] for i in range(3)]))
            from symx.core import EngineLimit
            raise EngineLimit('eigenvectors of a matrix the harness has no decomposition for')
        t.eig(oracle)
        pl = Plane.fit_from_points(points)
        unit(t, pl)
        q3 = [Q[i][2] for i in range(3)]
        t.check_eq(t.cross(t.rows(pl.normal), q3), [0, 0, 0], 'the normal is the direction of least variance')
        on(t, pl, cc, 'the centroid lies on the plane', 100)
        t.check_eq(pl.reference_point, cc, 'the reference point is the centroid')
        if rank == 2:
            t.check_eq(pl.signed_distance(points), [0] * n, 'coplanar points lie on the fitted plane', 100)
        t.check_unmutated()
    return fit


fit_case('points in space', 3)
fit_case('any 4 points in space', 3, w=True)
fit_case('coplanar points', 2)
fit_case('repeated points', 3, H5)
fit_case('repeated points in four frames', 3, H5, frames=FRAMES[3:])
fit_case('points close to each other in four frames', 3, frames=FRAMES[3:], unit_size=Fraction(1, 10 ** 6))


PLANE = 'blmath.geometry.primitives.plane'


@case('C09', 'points of any distance', bounds='two points one unit apart and any third point or vector, all lengths multiplied by 2^-30 or 2^30; '
      'colinear points')
def distances(t):
    Plane = t.mod(PL).Plane
    s = t.choice('size', SIZES)
    a, b = [t.val(x) for x in (1, -2, 1)], [t.val(x) for x in (3, -1, 3)]
    w = t.rows(t.ex(t.vec('w', lo=-9, hi=9)))
    # the direction from a to b is (2, 1, 2)
    n = t.cross([2, 1, 2], w)
    t.assume(t.gt(n[2], Fraction(1, 10)))
    how = t.choice('how', ['points', 'vector', 'colinear'])
    A, B = [t.array(resized(t, x, s)) for x in (a, b)]
    if how == 'colinear':
        k = t.real('k', lo=-9, hi=9)
        c = resized(t, [x + k * y for x, y in zip(a, (2, 1, 2))], s)
        if t.symbolic:
            t.check(t.raises(lambda: Plane.from_points(A, B, t.array(c)), ValueError), 'colinear points raise ValueError')
        t.check(t.raises(lambda: Plane.from_points(A, B, A), ValueError), 'a point given twice raises ValueError')
        t.check(t.raises(lambda: Plane.from_points(A, A, B), ValueError), 'a point given twice raises ValueError')
        t.check(t.raises(lambda: Plane.from_points_and_vector(A, A, B), ValueError), 'a point given twice raises ValueError')
        return
    if how == 'points':
        pl = Plane.from_points(A, B, t.array(resized(t, t.add(a, w), s)))
    else:
        pl = Plane.from_points_and_vector(A, B, t.array(resized(t, w, s)))
    k = t.norm(n)
    t.check_eq(t.rows(pl.normal), [x / k for x in n], 'the normal of the plane they span')
    t.check_eq(resized(t, t.rows(pl.reference_point), 1 / s), a, 'the reference point is the first point')


def spans(t, u, w):
    t.assume(t.gt(t.cross(u, w)[2], Fraction(1, 10)))


changing('C09', ('from_points', lambda t, a, b, c: t.mod(PLANE).Plane.from_points(a, b, c).equation, [[0, 0, 0], [1, 0, 0], [0, 2, 1]],
                 lambda t, a, b, c: spans(t, t.sub(b, a), t.sub(c, a))),
         ('from_points_and_vector', lambda t, a, b, c: t.mod(PLANE).Plane.from_points_and_vector(a, b, c).equation, [[0, 0, 0], [1, 0, 0], [0, 2, 1]],
          lambda t, a, b, c: spans(t, t.sub(b, a), c)))
