"""C29: translation, plane normals and rotation to the x-z plane."""
from fractions import Fraction as F

from symx.harness import case, long_stack

ROT = 'blmath.geometry.transform.rotation'
TR = 'blmath.geometry.transform.translation'

# orthonormal frames e1, e2, n
FRAMES = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    [[1, 0, 0], [0, 0, 1], [0, -1, 0]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    [[F(2, 3), F(-1, 3), F(2, 3)], [F(2, 3), F(2, 3), F(-1, 3)], [F(-1, 3), F(2, 3), F(2, 3)]],
    [[F(4, 5), F(-3, 5), 0], [0, 0, -1], [F(3, 5), F(4, 5), 0]],
    [[F(6, 7), F(-2, 7), F(3, 7)], [F(3, 7), F(6, 7), F(-2, 7)], [F(-2, 7), F(3, 7), F(6, 7)]],
]


def place(t, frame, ab, o):
    e1, e2, _n = frame
    return [[o[i] + a * e1[i] + b * e2[i] for i in range(3)] for a, b in ab]


def planar(t, n, frame, centered=False, moving=None):
    """n points of a plane, not on a line -> array, exact rows, centre."""
    ab = []
    for i in range(n):
        if moving is None or i in moving:
            ab.append([t.real('a%d' % i, lo=-10, hi=10), t.real('b%d' % i, lo=-10, hi=10)])
        else:
            ab.append([[0, 0], [4, 1], [1, 3], [-2, 2], [3, -3]][i])
    if centered:
        ab[-1] = [-sum((x[k] for x in ab[:-1]), 0) for k in (0, 1)]
    o = [0, 0, 0] if centered else [t.real('o%s' % k, lo=-10, hi=10) for k in 'xyz']
    p = t.track(t.array(place(t, frame, ab, o)), 'points')
    return p, ab


def orient(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def apart(t, ab):
    """no three on a line"""
    n = len(ab)
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                d = orient(ab[i], ab[j], ab[k])
                t.assume(t.gt(t.abs(d), F(1, 100)))


@case('C29', 'translation', bounds='1 to 4 points, any factor or none')
def translation(t):
    fn = t.mod(TR).translation
    n = t.choice('n', [1, 2, 3, 4])
    p = t.arr('p', (n, 3))
    rows = t.rows(t.ex(p))
    c = [sum((r[i] for r in rows), 0) / n for i in range(3)]
    given = t.choice('factor', ['none', 'vector', 'row'])
    f = None if given == 'none' else t.vec('f')
    if given == 'row':
        f = t.track(f.reshape(1, 3))
    image, factor = fn(p) if given == 'none' else fn(p, f)
    want = [-x for x in c] if f is None else t.rows(t.ex(f))
    if given == 'row':
        want = want[0]
    t.check(image.shape == p.shape, 'one point per point')
    t.check(t.eqs(t.rows(image), [[x + y for x, y in zip(r, want)] for r in rows]), 'every point moved by the factor, or to put the mean at the origin')
    t.check(t.eqs(t.rows(factor)[0] if given == 'row' else t.rows(factor), want), 'the factor used is returned')
    back, _ = fn(image, -factor)
    t.check(t.eqs(t.rows(back), rows), 'the opposite factor moves the points back')
    t.scribble(image, back)
    t.check_unmutated()


@case('C29', 'estimate_normal: planar points', bounds='3 to 5 points in planes of seven directions, not on a line, any position')
def normal_planar(t):
    fr = t.choice('frame', FRAMES)
    n = t.choice('n', [3, 4, 5])
    p, ab = planar(t, n, fr)
    t.assume(t.gt(t.abs(orient(ab[0], ab[1], ab[2])), F(1, 10)))
    t.pca([fr + [None]])
    r = t.mod(ROT).estimate_normal(p)
    t.check(r.shape == (3,), 'a vector')
    v = t.rows(r)
    t.check(t.or_(t.eqs(v, fr[2]), t.eqs(v, [-x for x in fr[2]])), 'the unit normal of the plane')
    t.check_unmutated()


@case('C29', 'estimate_normal: scattered points', bounds='six points in pairs along three axes of different spread, seven frames, any position')
def normal_scatter(t):
    fr = t.choice('frame', FRAMES)
    k = [t.real('k%d' % i, lo=F(1, 10), hi=10) for i in range(3)]
    t.assume(t.gt(k[0], k[1] * F(11, 10)))
    t.assume(t.gt(k[1], k[2] * F(11, 10)))
    o = [t.real('o%s' % x, lo=-10, hi=10) for x in 'xyz']
    rows = [[o[i] + s * k[j] * fr[j][i] for i in range(3)] for j in t.choice('order', [(0, 1, 2), (2, 0, 1)]) for s in (1, -1)]
    p = t.track(t.array(rows))
    t.pca([fr + [[2 * x * x for x in k]]])
    v = t.rows(t.mod(ROT).estimate_normal(p))
    t.check(t.or_(t.eqs(v, fr[2]), t.eqs(v, [-x for x in fr[2]])), 'the unit direction of least spread')
    t.check_unmutated()


def is_rotation(t, R, label):
    t.check(t.eqs(t.matmul(R, [list(x) for x in zip(*R)]), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), label + ': orthonormal')
    t.check(t.eq(t.det3(R), 1), label + ': determinant one')


def check_xz(t, p, rows, n, r, normal_signs=(1,)):
    """r = rotate_to_xz_plane(p) for points with the unit normal n."""
    rot, R, p0 = r
    cnt = len(rows)
    c = [sum((x[i] for x in rows), 0) / cnt for i in range(3)]
    R = t.rows(R)
    is_rotation(t, R, 'the rotation')
    Rn = t.matvec(R, n)
    t.check(t.or_(*[t.eqs(Rn, [0, s, 0]) for s in normal_signs]), 'takes the normal to the y axis')
    if not t.symbolic:
        d = t.norm(c)
        t.assume(t.or_(t.lt(d, F(9, 10 ** 6)), t.gt(d, F(11, 10 ** 6))))
    if t.branch(t.gt(t.norm(c), F(1, 10 ** 5))):
        t.check(p0 is not None, 'the translation')
        t.check(t.eqs(t.rows(p0), [-x for x in c]), 'moves the center of mass to the origin')
        moved = [[x - y for x, y in zip(q, c)] for q in rows]
    else:
        t.check(p0 is None, 'no translation when centered already')
        moved = rows
    t.check(tuple(rot.shape) == (cnt, 3), 'one point per point')
    t.check(t.eqs(t.rows(rot), [t.matvec(R, q) for q in moved], 100), 'the points are moved and then rotated')
    return t.rows(rot)


@case('C29', 'rotate_to_xz_plane: estimated normal', bounds='3 or 4 points in planes of seven directions, not on a line, centered or anywhere')
def xz_estimated(t):
    fr = t.choice('frame', FRAMES)
    p, ab = planar(t, t.choice('n', [3, 4]), fr, centered=t.flag('centered'))
    t.assume(t.gt(t.abs(orient(ab[0], ab[1], ab[2])), F(1, 10)))
    rows = t.rows(t.ex(p))
    t.pca([fr + [None]])
    out = check_xz(t, p, rows, fr[2], t.mod(ROT).rotate_to_xz_plane(p), (1, -1))
    c = [sum((x[i] for x in rows), 0) / len(rows) for i in range(3)]
    for q in out:
        t.check(t.or_(t.eq(q[1], 0, 100), t.le(t.norm(c), F(1, 10 ** 5))), 'the points lie in the x-z plane')
    t.check_unmutated()


@case('C29', 'rotate_to_xz_plane: given normal', bounds='1 to 3 points anywhere, seven normals')
def xz_given(t):
    fr = t.choice('frame', FRAMES)
    n = t.choice('n', [1, 2, 3])
    p = t.arr('p', (n, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(p))
    nrm = t.track(t.array(fr[2]), 'normal')
    check_xz(t, p, rows, fr[2], t.mod(ROT).rotate_to_xz_plane(p, normal=nrm))
    t.check_unmutated()


@case('C29', 'rotate_to_xz_plane: any normal', bounds='one point anywhere, any unit normal at an angle with a sine above 0.001 from the y axis')
def xz_any(t):
    p = t.arr('p', (1, 3), lo=-10, hi=10)
    n = t.unit('n')
    e = t.rows(t.ex(n))
    t.assume(t.gt(e[0] * e[0] + e[2] * e[2], F(1, 10 ** 6)))
    rows = t.rows(t.ex(p))
    check_xz(t, p, rows, e, t.mod(ROT).rotate_to_xz_plane(p, normal=n))
    t.check_unmutated()


@case('C29', 'rotate_to_xz_plane: a normal with rounding errors', bounds='1 or 2 points anywhere, normals along the y axis which are '
      'longer than one by 2^-52 or 2^-46')
def xz_rounded(t):
    p = t.arr('p', (t.choice('n', [1, 2]), 3), lo=-10, hi=10)
    rows = t.rows(t.ex(p))
    s, e = t.choice('sign', [1, -1]), t.choice('error', [F(1, 2 ** 52), F(1, 2 ** 46)])
    n = t.track(t.array([0., float(s * (1 + e)), 0.]), 'normal')
    check_xz(t, p, rows, [0, s, 0], t.mod(ROT).rotate_to_xz_plane(p, normal=n))
    t.check_unmutated()


@case('C29', 'no points', bounds='None and empty collections')
def nothing(t):
    fn = t.mod(ROT).rotate_to_xz_plane
    for x in (None, [], t.iarray([]).reshape(0, 3)):
        t.check(t.raises(lambda: fn(x), ValueError), 'ValueError without points')


@case('C29', 'many points', bounds='70 and 300 points, all but one of them fixed; two normals')
def many(t):
    n, at = t.choice('rows', [(70, 69), (300, 3)])
    p, rows = long_stack(t, 'p', n, at)
    c = [sum((r[i] for r in rows), t.val(0)) / n for i in range(3)]
    image, factor = t.mod(TR).translation(p)
    t.check(t.eqs(t.rows(image), [[x - y for x, y in zip(r, c)] for r in rows]), 'every point moved to put the mean at the origin')
    t.check(t.eqs(t.rows(factor), [-x for x in c]), 'the factor used is returned')
    fr = t.choice('frame', [FRAMES[3], FRAMES[4]])
    check_xz(t, p, rows, fr[2], t.mod(ROT).rotate_to_xz_plane(p, normal=t.array(fr[2])))
    t.check_unmutated()
