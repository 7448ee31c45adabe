"""C01: composite transforms."""
from fractions import Fraction as F

from symx.harness import case, long_stack

CT = 'blmath.geometry.transform.composite'
VX = 'blmath.numerics.vector_shortcuts'


def affine(t, name, lin=None):
    """A 4x4 affine matrix with symbolic entries and nonzero determinant."""
    A = t.arr(name, (3, 4))
    e = t.rows(t.ex(A))
    d = t.det3([r[:3] for r in e])
    t.assume(t.or_(t.gt(d, t.val(0) + t_lo(t)), t.lt(d, -t_lo(t))))
    M = t.array([list(r) for r in t.rows(A)] + [[0, 0, 0, 1]])
    return M, e


def t_lo(t):
    from fractions import Fraction
    return Fraction(1, 100)


def papply(t, e, p):
    """e: 3x4 exact affine rows."""
    return [t.dot(r[:3], p) + r[3] for r in e]


OPS = ['translate', 'scale', 'rotation', 'affine']


def add_op(t, c, kind, i, oracle):
    """Append op number i of the given kind; oracle gets (forward, reverse) point maps."""
    if kind == 'translate':
        v = t.vec('v%d' % i)
        r = c.translate(v)
        e = t.rows(t.ex(v))
        oracle.append((lambda p: t.add(p, e), lambda p: t.sub(p, e)))
    elif kind == 'scale':
        k = t.real('k%d' % i, pos=True)
        if not t.symbolic:
            t.assume(t.gt(k, 1e-3))
        r = c.scale(k)
        oracle.append((lambda p: t.smul(k, p), lambda p: [x / k for x in p]))
    elif kind == 'rotation':
        R = t.rotation('r%d' % i)
        r = c.append_transform3(R, R.T)
        e = t.rows(R)
        eT = [list(col) for col in zip(*e)]
        oracle.append((lambda p: t.matvec(e, p), lambda p: t.matvec(eT, p)))
    elif kind == 'shear':
        k = t.arr('s%d' % i, (3,))
        a, b, d = t.rows(k)
        M = t.array([[1, a, b], [0, 1, d], [0, 0, 1]])
        r = c.append_transform3(M)
        oracle.append((lambda p: [p[0] + a * p[1] + b * p[2], p[1] + d * p[2], p[2]],
                       lambda p: [p[0] - a * (p[1] - d * p[2]) - b * p[2], p[1] - d * p[2], p[2]]))
    elif kind == 'swap':
        k = t.real('w%d' % i)
        M = t.array([[0, 0, 1, k], [1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 0, 1]])
        r = c.append_transform4(M)
        oracle.append((lambda p: [p[2] + k, p[0], 2 * p[1]], lambda p: [p[1], p[2] / 2, p[0] - k]))
    return r


def build(t, kinds):
    c = t.mod(CT).CompositeTransform()
    o = []
    for i, k in enumerate(kinds):
        r = add_op(t, c, k, i, o)
        t.check(r == i, 'appending returns the index of the new transform')
    return c, o


def run_oracle(o, pts, lo, hi, reverse):
    sel = o[lo:hi]
    out = []
    for p in pts:
        for f, g in (reversed(sel) if reverse else sel):
            p = (g if reverse else f)(p)
        out.append(p)
    return out


@case('C01', 'inverse of a general affine transform', bounds='any 4x4 affine matrix with |det| > 0.01, 1 to 2 points')
def inverse(t):
    c = t.mod(CT).CompositeTransform()
    M, e = affine(t, 'A')
    r = c.append_transform4(M)
    t.check(r == 0, 'first index is 0')
    pts = t.arr('p', (t.choice('n', [1, 2]), 3))
    q = c(pts)
    t.check_eq(q, [papply(t, e, p) for p in t.rows(t.ex(pts))], 'forward is the given matrix applied to each point')
    t.check_eq(c(q, reverse=True), pts, 'reverse undoes forward', 1e4)
    t.check_eq(c(c(pts, reverse=True)), pts, 'forward undoes reverse', 1e4)
    t.check_unmutated()


@case('C01', 'inverse of a general 3x3 transform', bounds='any 3x3 matrix with |det| > 0.01, 1 point')
def inverse3(t):
    c = t.mod(CT).CompositeTransform()
    A = t.arr('A', (3, 3))
    e = t.rows(t.ex(A))
    d = t.det3(e)
    t.assume(t.or_(t.gt(d, t_lo(t)), t.lt(d, -t_lo(t))))
    c.append_transform3(A)
    pts = t.arr('p', (1, 3))
    q = c(pts)
    t.check_eq(q, [t.matvec(e, p) for p in t.rows(t.ex(pts))], 'forward is the given matrix applied to each point')
    t.check_eq(c(q, reverse=True), pts, 'reverse undoes forward', 1e4)
    t.check_unmutated()


def seq_case(kinds, name, tier='quick'):
    @case('C01', 'sequence ' + name, bounds='every from_range over %d transforms, any parameters, 1 to 2 points' % len(kinds),
          tier=tier)
    def seq(t):
        n = len(kinds)
        c, o = build(t, kinds)
        pts = t.arr('p', (t.choice('n', [1, 2]), 3))
        lo = t.choice('lo', range(n + 1))
        hi = t.choice('hi', range(n + 1))
        rev = t.flag('reverse')
        ref = run_oracle(o, t.rows(t.ex(pts)), lo, hi, rev)
        got = c(pts, from_range=(lo, hi), reverse=rev)
        t.check_eq(got, ref, 'applies transforms [start, stop) in order, or undoes them in reverse order', 100)
        if lo == 0 and hi == n:
            t.check_eq(c(pts, reverse=rev), ref, 'no range applies all of them', 100)
        m = c.matrix_for(from_range=(lo, hi), reverse=rev)
        t.check(m.shape == (4, 4), 'matrix is 4x4')
        rows = t.rows(m)
        t.check_eq([papply(t, r4(rows), p) for p in t.rows(t.ex(pts))], ref, 'the matrix agrees with the application', 100)
        t.check_eq(rows[3], [0, 0, 0, 1], 'the matrix is affine')
        back = c(got, from_range=(lo, hi), reverse=not rev)
        t.check_eq(back, pts, 'the opposite direction undoes it', 100)
        t.check(len(c.transforms) == n, 'reading does not change the transform list')
        t.check_unmutated()
    return seq


def r4(rows):
    return rows[:3]


seq_case(['translate', 'scale', 'swap'], 'translate, scale, permute')
seq_case(['scale', 'rotation', 'translate'], 'scale, rotate, translate')
seq_case(['shear', 'translate', 'swap', 'scale'], 'shear, translate, permute, scale')
seq_case(['translate', 'rotation', 'scale', 'shear', 'translate'], 'five transforms', tier='thorough')


@case('C01', 'no transforms', bounds='0 transforms, any range, 1 to 2 points')
def empty(t):
    c = t.mod(CT).CompositeTransform()
    pts = t.arr('p', (t.choice('n', [1, 2]), 3))
    rev = t.flag('reverse')
    t.check_eq(c(pts, reverse=rev), pts, 'identity')
    t.check_eq(c.matrix_for(reverse=rev), [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], 'identity matrix')


@case('C01', 'scale rejects non-positive factors', bounds='any real factor')
def badscale(t):
    c = t.mod(CT).CompositeTransform()
    k = t.real('k')
    if t.branch(t.le(k, 0)):
        t.check(t.raises(lambda: c.scale(k), ValueError), 'scale factor <= 0 raises ValueError')
        t.check(len(c.transforms) == 0, 'and appends nothing')
    else:
        t.check(c.scale(k) == 0, 'positive factor accepted')


@case('C01', 'unit conversion transforms', bounds='every ordered pair of length units, any point')
def conv(t):
    U = t.mod('blmath.units')
    names = sorted(U.lengths) if t.thorough else ['m', 'mm', 'centimeters', 'in', 'feet', 'fathoms', 'cubits']
    a, b = t.choice('from', names), t.choice('to', names)
    c = t.mod(CT).CompositeTransform()
    t.check(c.convert_units(a, b) == 0, 'the index of the transform is returned')
    pts = t.arr('p', (1, 3))
    fr = U.factor(from_units=a, to_units=b, units_class='length')
    t.check(len(c.transforms) == 1, 'one transform is appended')
    for x, y in zip(t.rows(c(pts))[0], t.rows(pts)[0]):
        t.check(t.near(x, y * fr, 1e-12, y * fr), 'points are scaled by the unit factor')
    back = t.rows(c(c(pts), reverse=True))
    for x, y in zip(back[0], t.rows(pts)[0]):
        t.check(t.near(x, y, 1e-9, y), 'and back')


@case('C01', 'rotate by a rodrigues vector', bounds='any rotation vector, 1 point')
def rotvec(t):
    c = t.mod(CT).CompositeTransform()
    r = t.vec('r')
    pts = t.arr('p', (1, 3))
    c.rotate(r)
    q = c(pts)
    e = t.rows(t.ex(r))
    n2 = t.norm2(e)
    p = t.rows(pts)[0]
    if t.branch(t.lt(n2, t.val(1) / 10 ** 20)):
        return
    th = t.norm(e)
    k = [x / th for x in e]
    cs, sn = t.cos(th), t.sin(th)
    kp = t.dot(k, p)
    kx = t.cross(k, p)
    ref = [p[i] * cs + kx[i] * sn + k[i] * kp * (1 - cs) for i in range(3)]
    t.check_eq(q, [ref], 'rotates by |r| about r')
    t.check_eq(c(q, reverse=True), pts, 'reverse undoes the rotation')
    t.check_unmutated()


@case('C01', 'rotate by a small angle', bounds='angles from 1e-9 to 1e-3 about each axis and about the diagonal, 1 point')
def rotsmall(t):
    c = t.mod(CT).CompositeTransform()
    m = t.real('m', lo=F(1, 10 ** 9), hi=F(1, 1000))
    d = t.choice('axis', [(1, 0, 0), (0, -1, 0), (0, 0, 1), (2, 2, 1)])
    pts = t.arr('p', (1, 3), lo=-10 ** 4, hi=10 ** 4)
    c.rotate(t.array([x * m for x in d]))
    q = c(pts)
    th = m * t.norm([t.val(x) for x in d])
    k = [x * m / th for x in d]
    p = t.rows(pts)[0]
    cs, sn = t.cos(th), t.sin(th)
    kp, kx = t.dot(k, p), t.cross(k, p)
    t.check(t.eqs(t.rows(q), [[p[i] * cs + kx[i] * sn + k[i] * kp * (1 - cs) for i in range(3)]], F(1, 10 ** 6)), 'rotates by |r| about r')
    t.check(t.eqs(t.rows(c(q, reverse=True)), t.rows(pts), F(1, 10 ** 6)), 'reverse undoes the rotation')
    t.check_unmutated()


@case('C01', 'homogeneous helpers', bounds='1 to 3 points, any affine matrix; any 4-column array')
def homog(t):
    vx = t.mod(VX)
    n = t.choice('n', [1, 2, 3])
    p = t.arr('p', (n, 3))
    A = t.arr('A', (3, 4))
    e = t.rows(t.ex(A))
    M = t.array([list(r) for r in t.rows(A)] + [[0, 0, 0, 1]])
    pad = vx.pad_with_ones(p)
    t.check_eq(pad, [list(r) + [1] for r in t.rows(p)], 'padding appends a column of ones')
    t.check_eq(vx.unpad(pad), p, 'unpad undoes pad')
    t.check_eq(vx.apply_homogeneous(p, M), [papply(t, e, r) for r in t.rows(t.ex(p))], 'applies the affine map row by row')
    t.check_unmutated()


@case('C01', 'unpad refuses non-unit homogeneous coordinates', bounds='1 to 3 rows of any 4 numbers')
def unpad(t):
    vx = t.mod(VX)
    n = t.choice('n', [1, 2, 3])
    q = t.arr('q', (n, 4))
    t.on_grid()
    ones = t.and_(*[t.eq(r[3], 1) for r in t.rows(t.ex(q))])
    k, v = t.outcome(lambda: vx.unpad(q))
    if t.branch(ones):
        t.check(k == 'ok', 'a column of ones is stripped')
        if k == 'ok':
            t.check_eq(v, [r[:3] for r in t.rows(q)], 'first three columns remain')
    else:
        t.check(k == 'raised' and isinstance(v, ValueError), 'anything else raises ValueError')


@case('C01', 'homogeneous helpers refuse other shapes', bounds='shapes of one to three dimensions up to 4')
def hshapes(t):
    vx = t.mod(VX)
    k = t.choice('shape', [(3,), (4,), (1, 2), (2, 3), (2, 4), (3, 3), (4, 4), (4, 1), (1, 4), (1, 3), (2, 2, 3), (2, 2, 4)])
    X = t.arr('X', k)
    if len(k) != 2 or k[1] != 3:
        t.check(t.raises(lambda: vx.pad_with_ones(X), ValueError), 'padding anything but n x 3 raises ValueError')
        t.check(t.raises(lambda: vx.apply_homogeneous(X, t.np.eye(4)), ValueError), 'transforming anything but n x 3 raises ValueError')
    if len(k) != 2 or k[1] != 4:
        t.check(t.raises(lambda: vx.unpad(X), ValueError), 'stripping anything but n x 4 raises ValueError')
    if k != (4, 4):
        t.check(t.raises(lambda: vx.apply_homogeneous(t.np.ones((2, 3)), X), ValueError), 'any matrix but 4 x 4 raises ValueError')
    t.check_unmutated()


@case('C01', '3x3 and 4x4 matrices convert losslessly', bounds='any 3x3 matrix; shapes up to 5x5 rejected')
def mats(t):
    m = t.mod(CT)
    A = t.arr('A', (3, 3))
    B = m.convert_33_to_44(A)
    t.check_eq(B, [list(r) + [0] for r in t.rows(A)] + [[0, 0, 0, 1]], '3x3 embeds in 4x4')
    t.check_eq(m.convert_44_to_33(B), A, 'and comes back')
    i, j = t.choice('i', [1, 2, 3, 4, 5]), t.choice('j', [1, 3, 4])
    X = t.np.zeros((i, j))
    if (i, j) != (3, 3):
        t.check(t.raises(lambda: m.convert_33_to_44(X), ValueError), 'non 3x3 raises ValueError')
        c = m.CompositeTransform()
        t.check(t.raises(lambda: c.append_transform3(X), ValueError), 'appending a non 3x3 raises ValueError')
    if (i, j) != (4, 4):
        t.check(t.raises(lambda: m.convert_44_to_33(X), ValueError), 'non 4x4 raises ValueError')
    t.check_unmutated()


@case('C01', 'histories', bounds='two composite transforms filled in turn, read forwards and backwards, as matrix and by call, after every step')
def histories(t):
    CTf = t.mod(CT).CompositeTransform
    c, d = CTf(), CTf()
    oc, od = [], []
    p = t.arr('p', (1, 3), lo=-10, hi=10)
    e = t.rows(t.ex(p))
    for i, (k1, k2) in enumerate([('translate', 'scale'), ('swap', 'translate'), ('scale', 'swap')]):
        r1 = add_op(t, c, k1, 2 * i, oc)
        r2 = add_op(t, d, k2, 2 * i + 1, od)
        t.check(r1 == i and r2 == i, 'every composite transform counts its own transforms')
        for x, o in ((c, oc), (d, od)):
            for rev in (False, True):
                ref = run_oracle(o, e, 0, i + 1, rev)
                t.check_eq(x(p, reverse=rev), ref, 'the transforms appended so far', 100)
                m = x.matrix_for(reverse=rev)
                t.check_eq([papply(t, t.rows(m)[:3], q) for q in e], ref, 'the matrix follows', 100)
    t.check_eq(c(p, from_range=(1, 2)), run_oracle(oc, e, 1, 2, False), 'one of them', 100)
    t.check_eq(CTf()(p), p, 'a new composite transform is empty')
    t.check_unmutated()


@case('C01', 'many points', bounds='70 and 300 points, all but one of them fixed; translate, scale and permute by any parameters')
def many(t):
    c, o = build(t, ['translate', 'scale', 'swap'])
    n, at = t.choice('rows', [(70, 69), (300, 257)])
    v, rows = long_stack(t, 'v', n, at)
    rev = t.flag('reverse')
    got = c(v, reverse=rev)
    t.check_eq(got, run_oracle(o, rows, 0, 3, rev), 'every point is transformed', 1000)
    t.check_eq(c(got, reverse=not rev), rows, 'and back', 1000)
    t.check_unmutated()


@case('C01', 'many transforms', bounds='12 transforms, every range that starts or ends at the middle or at an end, any parameters of four of them')
def many_transforms(t):
    c, o = t.mod(CT).CompositeTransform(), []
    for i in range(12):
        if i in (0, 3, 6, 11):
            add_op(t, c, ('translate', 'scale')[i % 2], i, o)
        else:
            w = [i % 3 - 1, i % 5, 2 - i % 4]
            M = [[0, 1, 0, w[0]], [0, 0, -1, w[1]], [1, 0, 0, w[2]], [0, 0, 0, 1]] if i % 2 else [[1, 0, 0, w[0]], [1, 1, 0, w[1]], [0, 0, 2, w[2]], [0, 0, 0, 1]]
            r = c.append_transform4(t.array(M))
            t.check(r == i, 'appending returns the index of the new transform')
            if i % 2:
                o.append((lambda p, w=w: [p[1] + w[0], -p[2] + w[1], p[0] + w[2]], lambda p, w=w: [p[2] - w[2], p[0] - w[0], w[1] - p[1]]))
            else:
                o.append((lambda p, w=w: [p[0] + w[0], p[0] + p[1] + w[1], 2 * p[2] + w[2]],
                          lambda p, w=w: [p[0] - w[0], p[1] - w[1] - (p[0] - w[0]), (p[2] - w[2]) / 2]))
    p = t.arr('p', (1, 3), lo=-10, hi=10)
    lo, hi = t.choice('range', [(0, 12), (0, 6), (6, 12), (5, 9), (11, 12), (1, 11)])
    rev = t.flag('reverse')
    got = c(p, from_range=(lo, hi), reverse=rev)
    t.check_eq(got, run_oracle(o, t.rows(t.ex(p)), lo, hi, rev), 'applies transforms [start, stop) in order, or undoes them in reverse order', 10 ** 5)
    t.check_eq(c(got, from_range=(lo, hi), reverse=not rev), p, 'and back', 10 ** 5)
