"""C28: convex hulls of planar curves."""
from fractions import Fraction as F

from symx.harness import SIZES, case, resized

from props.c29 import FRAMES, orient, place

CX = 'blmath.geometry.convexify'
PL = 'blmath.geometry.primitives.polyline'
FIXED = [[0, 0], [4, 1], [1, 3], [-2, 2], [3, -3]]
# planes with axes which are not orthonormal
SKEW = FRAMES + [[[1, -1, 0], [0, 1, -1], [1, 1, 1]], [[1, 0, 2], [0, 1, -2], [-2, 2, 1]]]


def points(t, frames, n, moving, o=True, off=()):
    """n points of a plane, those in `moving` anywhere and those in `off` next to it -> frame, array, 2-d rows, 3-d rows"""
    fr = t.choice('frame', frames)
    ab = []
    for i in range(n):
        if i in moving:
            ab.append([t.real('a%d' % i, lo=-10, hi=10), t.real('b%d' % i, lo=-10, hi=10)])
        else:
            ab.append(FIXED[i])
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                if {i, j, k} & set(moving):
                    t.assume(t.gt(t.abs(orient(ab[i], ab[j], ab[k])), F(1, 100)))
    org = [t.real('o%s' % k, lo=-10, hi=10) for k in 'xyz'] if o else [0, 0, 0]
    rows = place(t, fr, ab, org)
    for i in off:
        h = t.real('h%d' % i, lo=-10, hi=10)
        rows[i] = [x + h * y for x, y in zip(rows[i], fr[2])]
    p = t.track(t.array(rows), 'points')
    return fr, p, ab, rows


def check_hull(t, ab, idx, label):
    """idx: the extreme points of ab, in cyclic order"""
    idx = [int(i) for i in idx]
    t.check(len(idx) >= 3 and len(set(idx)) == len(idx) and all(0 <= i < len(ab) for i in idx), label + ': distinct points')
    on = []
    for s in (1, -1):
        conds = []
        for a, b in zip(idx, idx[1:] + idx[:1]):
            for k in range(len(ab)):
                if k not in (a, b):
                    d = orient(ab[a], ab[b], ab[k])
                    conds.append(t.gt(d if s > 0 else -d, 0))
        on.append(t.and_(*conds))
    t.check(t.or_(*on), label + ': all points on the same side of every edge')
    return idx


def both(t, fn, line, **kw):
    """With and without the indices -> polyline, indices"""
    r, idx = fn(line, want_vertices=True, **kw)
    plain = fn(line, **kw)
    t.check(t.and_(*[t.eqs(a, b) for a, b in zip(t.rows(plain.v), t.rows(r.v))]) if len(plain.v) == len(r.v) else False,
            'the same hull without the indices')
    t.check(plain.closed == line.closed and r.closed == line.closed, 'open or closed as before')
    return r, idx


def run(t, n, moving, frames=SKEW):
    fr, p, ab, rows = points(t, frames, n, moving)
    line = t.mod(PL).Polyline(p, closed=t.flag('closed'))
    k = t.choice('normal scale', [1, -3])
    nrm = t.track(t.array([k * x for x in fr[2]]), 'normal')
    r, idx = both(t, t.mod(CX).convexify_planar_curve, line, normal=nrm)
    idx = check_hull(t, ab, idx, 'hull')
    t.check(t.eqs(t.rows(r.v), [rows[i] for i in idx]), 'the vertices are those points')
    t.check(t.eqs(t.rows(line.v), rows), 'the curve is not altered')
    t.check_unmutated()


@case('C28', 'planar: three points', bounds='3 points, no three on a line, nine planes, any position, open or closed, given normal')
def three(t):
    run(t, 3, (0, 1, 2))


# planes whose given normal has two equally large components, of either sign
TIES = [[[1, 0, -1], [0, 1, 0], [1, 0, 1]], [[1, 1, 0], [0, 0, 1], [1, -1, 0]], [[0, 1, 1], [1, 0, 0], [0, 1, -1]], [[1, -1, 0], [1, 1, -2], [1, 1, 1]]]


@case('C28', 'planar: ties in the normal', bounds='3 points, four planes whose normals have equally large components, in both directions')
def ties(t):
    run(t, 3, (0, 1, 2), TIES)


@case('C28', 'planar: four points', bounds='4 points, two of them anywhere', deadline=(120, 600))
def four(t):
    run(t, 4, (2, 3), SKEW[1::2])


@case('C28', 'planar: four points anywhere', tier='thorough', bounds='4 points', deadline=(100, 700))
def four_any(t):
    run(t, 4, (0, 1, 2, 3))


@case('C28', 'planar: five points', tier='thorough', bounds='5 points, two of them anywhere', deadline=(100, 700))
def five(t):
    run(t, 5, (1, 3))


@case('C28', 'planar: estimated normal', bounds='4 points, one anywhere, seven planes')
def estimated(t):
    fr, p, ab, rows = points(t, FRAMES, 4, (3,))
    line = t.mod(PL).Polyline(p, closed=t.flag('closed'))
    t.pca([fr + [None]])
    r, idx = t.mod(CX).convexify_planar_curve(line, want_vertices=True)
    idx = check_hull(t, ab, idx, 'hull')
    t.check(t.eqs(t.rows(r.v), [rows[i] for i in idx]), 'the vertices are those points')
    t.check(r.closed == line.closed, 'open or closed as before')
    t.check_unmutated()


@case('C28', 'points inside and on edges', bounds='a triangle or square of points with others inside, on edges, or equal to none; moved anywhere; '
      'as they are, or times 2^-30 or 2^30')
def inner(t):
    fr = t.choice('frame', SKEW)
    ab, want = t.choice('points', [
        ([[0, 0], [2, 0], [4, 0], [1, 1], [0, 4]], [0, 2, 4]),
        ([[1, 1], [0, 0], [3, 0], [3, 3], [0, 3], [2, 1]], [1, 2, 3, 4]),
        ([[0, 0], [0, 5], [2, 2], [1, 1], [5, 0]], [0, 1, 4]),
    ])
    o = [t.real('o%s' % k, lo=-10, hi=10) for k in 'xyz']
    rows = place(t, fr, ab, o)
    if not t.symbolic:
        # rounding decides about points on edges
        t.assume(all(float(x).is_integer() for r in rows for x in r))
    s = t.choice('size', [F(1)] + SIZES)
    line = t.mod(PL).Polyline(t.array(resized(t, rows, s)), closed=True)
    r, idx = t.mod(CX).convexify_planar_curve(line, want_vertices=True, normal=t.array(fr[2]))
    idx = [int(i) for i in idx]
    t.check(sorted(idx) == want, 'the extreme points')
    t.check(t.eqs(resized(t, t.rows(r.v), 1 / s), [rows[i] for i in idx]), 'the vertices are those points')


def run_flat(t, n, moving, off, o=True, given=True, frames=FRAMES):
    fr, p, ab, rows = points(t, frames, n, moving, o=o, off=off)
    line = t.mod(PL).Polyline(p, closed=t.flag('closed'))
    kw = {}
    if given:
        kw['normal'] = t.track(t.array(fr[2]), 'normal')
    else:
        t.pca([fr + [None]])
    if not t.symbolic:
        c = [sum((x[i] for x in rows), 0) / n for i in range(3)]
        d = t.norm(c)
        t.assume(t.or_(t.lt(d, F(9, 10 ** 6)), t.gt(d, F(11, 10 ** 6))))
    if given:
        r, idx = both(t, t.mod(CX).convexify_planar_curve, line, flatten=True, **kw)
    else:
        r, idx = t.mod(CX).convexify_planar_curve(line, flatten=True, want_vertices=True)
        t.check(r.closed == line.closed, 'open or closed as before')
    idx = check_hull(t, ab, idx, 'hull')
    c = [sum((x[i] for x in rows), 0) / n for i in range(3)]
    want = []
    for q in rows:
        h = sum(((q[i] - c[i]) * fr[2][i] for i in range(3)), 0)
        want.append([q[i] - h * fr[2][i] for i in range(3)])
    t.check(t.eqs(t.rows(r.v), [want[i] for i in idx], 100), 'the vertices are projections to the plane of the center')
    t.check(t.eqs(t.rows(line.v), rows), 'the curve is not altered')
    t.check_unmutated()


@case('C28', 'flatten: given normal, three points', bounds='3 points, one of them next to the plane, seven planes, anywhere', deadline=(100, 500))
def flat_three(t):
    run_flat(t, 3, (2,), (1,))


@case('C28', 'flatten: given normal, four points', bounds='4 points, one of them anywhere', deadline=(100, 500))
def flat_four(t):
    run_flat(t, 4, (3,), (3,), frames=FRAMES[1::2])


@case('C28', 'flatten: centered', bounds='planes through the origin', deadline=(100, 500))
def flat_centered(t):
    run_flat(t, 3, (2,), (0, 2), o=False, frames=FRAMES[::2])


@case('C28', 'flatten: estimated normal', bounds='3 points of a plane, one anywhere, seven planes', deadline=(100, 500))
def flat_estimated(t):
    run_flat(t, 3, (2,), (), given=False)


@case('C28', 'flatten: more points', tier='thorough', bounds='4 or 5 points, two of them anywhere', deadline=(100, 700))
def flat_more(t):
    n = t.choice('n', [4, 5])
    run_flat(t, n, (1, 3), (0, 3))


@case('C28', 'one point', bounds='no or one vertex, open or closed, flattened or not')
def single(t):
    n = t.choice('n', [0, 1])
    line = t.mod(PL).Polyline(t.arr('p', (n, 3)) if n else None, closed=t.flag('closed'))
    r = t.mod(CX).convexify_planar_curve(line, flatten=t.flag('flatten'), normal=t.choice('normal', [None, [0, 0, 1]]))
    t.check(r is line, 'returned as it is')
