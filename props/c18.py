"""C18: extreme points and inflections."""
from symx.harness import case, long_stack, LONG, SIZES, resized

AP = 'blmath.geometry.apex'


for n in (1, 2, 3, 4):
    @case('C18', 'apex of %d points' % n, bounds='%d points, any axis; real and integer arrays' % n)
    def apex(t, n=n):
        f = t.mod(AP).apex
        if t.flag('integers'):
            p, a = t.ints('p', (n, 3), -9, 9), t.ints('a', 3, -9, 9)
        else:
            p, a = t.arr('p', (n, 3)), t.vec('a')
        rows, e = t.rows(t.ex(p)), t.rows(t.ex(a))
        r = f(p, a)
        g = t.rows(r)
        t.check(t.or_(*[t.eqs(g, x) for x in rows]), 'one of the points')
        for x in rows:
            t.check(t.ge(t.dot(g, e), t.dot(x, e)), 'no point lies further along the axis')
        t.check_unmutated()

    @case('C18', 'farthest of %d points' % n, bounds='any point, %d candidates; real and integer arrays' % n)
    def far(t, n=n):
        f = t.mod(AP).farthest
        if t.flag('integers'):
            p, a = t.ints('p', (n, 3), -9, 9), t.ints('a', 3, -9, 9)
        else:
            p, a = t.arr('p', (n, 3)), t.vec('a')
        rows, e = t.rows(t.ex(p)), t.rows(t.ex(a))
        x, i = f(a, p)
        i = int(i)
        t.check(0 <= i < n, 'index in range')
        t.check_eq(x, rows[i], 'the point at the index')
        for y in rows:
            t.check(t.ge(t.norm2(t.sub(rows[i], e)), t.norm2(t.sub(y, e))), 'no candidate is farther away')
        t.check_unmutated()


def frame(t, free):
    if free:
        return t.rows(t.rotation('R'))
    return [[0, 0, 1], [1, 0, 0], [0, 1, 0]]


def curve(t, xs, ys, free=True):
    """Points with the given coordinates along span and axis, anything along the third direction."""
    R = frame(t, free)
    zs = [t.real('z%d' % i) for i in range(len(xs))]
    pts = t.track(t.array([[x * a + y * b + z * c for a, b, c in zip(*R)] for x, y, z in zip(xs, ys, zs)]), 'points')
    return pts, t.array(R[1]), t.array(R[0])


@case('C18', 'inflection of a cubic', bounds='a(x - c)^3 + b(x - c) + d on 7 to 8 (10 thorough) equally spaced samples, any a, b, c, d; '
      'inflection strictly between two inner samples')
def cubic(t):
    f = t.mod(AP).inflection_points
    n = t.choice('n', range(7, t.n(8, 10) + 1))
    a, b, d = t.real('a', lo=-5, hi=5), t.real('b', lo=-5, hi=5), t.real('d', lo=-5, hi=5)
    h = t.real('h', lo=0.1, hi=2)
    t.assume(t.or_(t.gt(a, t.val(1) / 100), t.lt(a, -t.val(1) / 100)))
    k = t.choice('k', range(2, n - 3))
    fr = t.real('f', lo=0.01, hi=0.99)
    xs = [(i - k - fr) * h for i in range(n)]
    ys = [a * x * x * x + b * x + d for x in xs]
    pts, axis, span = curve(t, xs, ys, free=t.thorough)
    r = f(pts, axis, span)
    t.check(t.np.shape(r)[0] == 1, 'one inflection point')
    t.check_eq(r, [t.rows(t.ex(pts))[k]], 'the sample just before the inflection')
    t.check_unmutated()


def convex(n, deadline=None):
    @case('C18', 'no inflection of a convex or concave curve, %d samples' % n, deadline=deadline,
          bounds='%d samples at any increasing (or decreasing) positions' % n)
    def f(t):
        g = t.mod(AP).inflection_points
        xs, ys = [t.real('x0')], [t.real('y0')]
        s = t.real('s')
        back, flip = t.flag('decreasing'), t.flag('concave')
        for i in range(1, n):
            h = t.real('h%d' % i, lo=0.1, hi=10)
            if i > 1:
                s = s + t.real('d%d' % i, lo=0.1, hi=10)
            xs.append(xs[-1] + h)
            ys.append(ys[-1] + s * h)
        if flip:
            ys = [-y for y in ys]
        if back:
            xs = [-x for x in xs]
        pts, axis, span = curve(t, xs, ys, free=False)
        r = g(pts, axis, span)
        t.check(len(r) == 0, 'no inflection points')
        t.check_unmutated()
    return f


convex(3)
convex(4)
convex(5)


@case('C18', 'inflection of a curve with one change of curvature',
      bounds='7 equally spaced samples, convex up to a sample and concave after it (or the other way), any slopes')
def change(t):
    g = t.mod(AP).inflection_points
    n = 7
    m = t.choice('m', [3, 4])
    flip = t.flag('flip')
    s = t.real('s', lo=-10, hi=10)
    xs, ys = list(range(n)), [t.real('y0', lo=-10, hi=10)]
    for i in range(1, n):
        if i > 1:
            d = t.real('d%d' % i, lo=0.1, hi=10)
            s = s + (d if i <= m else -d)
        ys.append(ys[-1] + s)
    if flip:
        ys = [-y for y in ys]
    pts, axis, span = curve(t, xs, ys, free=False)
    r = t.rows(g(pts, axis, span))
    t.check(1 <= len(r) <= 2, 'the change is found, once')
    rows = t.rows(t.ex(pts))
    for p in r:
        near = rows[m - 3:m + 2]
        t.check(t.or_(*[t.eqs(p, q) for q in near]), 'close to where the curvature changes')
    t.check_unmutated()


@case('C18', 'long stacks', bounds='70 and 300 points, all but one of them fixed')
def long_stacks(t):
    m = t.mod(AP)
    n, at = t.choice('rows', LONG)
    p, e = long_stack(t, 'p', n, at)
    t.on_grid()
    g = t.rows(m.apex(p, t.array([0, 0, -2])))
    t.check(t.or_(*[t.eqs(g, x) for x in e]), 'one of the points')
    t.check(t.and_(*[t.le(g[2], x[2]) for x in e]), 'no point lies further along the axis')
    c = [1, 2, 3]
    x, i = m.farthest(t.array(c), p)
    i = int(i)
    t.check(0 <= i < n, 'index in range')
    t.check_eq(x, e[i], 'the point at the index')
    t.check(t.and_(*[t.ge(t.norm2(t.sub(e[i], c)), t.norm2(t.sub(y, c))) for y in e]), 'no candidate is farther away')
    t.check_unmutated()


@case('C18', 'points of any size', bounds='1 to 3 points on a line of any direction, or in space for the apex, '
      'all lengths multiplied by 2^-30 or 2^30')
def sizes(t):
    s = t.choice('size', SIZES)
    n = t.choice('n', [1, 2, 3])
    if t.flag('apex'):
        rows, e = t.rows(t.ints('p', (n, 3), -9, 9)), t.rows(t.ints('a', 3, -9, 9))
        p = t.track(t.array(resized(t, rows, s)), 'p')
        a = t.track(t.array(resized(t, e, s) if t.flag('axis too') else e), 'a')
        g = resized(t, t.rows(t.mod(AP).apex(p, a)), 1 / s)
        t.check(t.or_(*[t.eqs(g, x) for x in rows]), 'one of the points')
        for x in rows:
            t.check(t.ge(t.dot(g, e), t.dot(x, e)), 'no point lies further along the axis')
    else:
        d = t.choice('direction', [(0, 1, 0), (2, -1, 2)])
        k = [t.integer('k%d' % i, -9, 9) for i in range(n)]
        e = [1, 2, 3]
        p = t.track(t.array(resized(t, [[x + m * y for x, y in zip(e, d)] for m in k], s)), 'p')
        x, i = t.mod(AP).farthest(t.track(t.array(resized(t, e, s)), 'a'), p)
        i = int(i)
        t.check(0 <= i < n, 'index in range')
        t.check_eq(x, t.rows(p)[i], 'the point at the index', s)
        for m in k:
            t.check(t.ge(k[i] * k[i], m * m), 'no candidate is farther away')
    t.check_unmutated()


@case('C18', 'inflections of curves of any size', bounds='4 and 5 samples at any increasing positions, convex or concave, and 7 samples '
      'with one change of curvature; heights, or all lengths, multiplied by 2^-30 or 2^30')
def curve_sizes(t):
    s = t.choice('size', SIZES)
    w = s if t.flag('positions too') else t.val(1)
    n = t.choice('n', [4, 5, 7])
    xs, ys = [t.val(0)], [t.val(0)]
    m = t.real('s', lo=-10, hi=10)
    for i in range(1, n):
        h = t.real('h%d' % i, lo=0.1, hi=10) if n < 7 else t.val(1)
        if i > 1:
            d = t.real('d%d' % i, lo=0.1, hi=10)
            m = m + (d if i <= 3 or n < 7 else -d)
        xs.append(xs[-1] + h)
        ys.append(ys[-1] + m * h)
    rows = [[x * w, y * s, z] for x, y, z in zip(xs, ys, range(n))]
    r = t.mod(AP).inflection_points(t.track(t.array(rows), 'p'), t.array([0, 1, 0]), t.array([1, 0, 0]))
    if n < 7:
        t.check(len(r) == 0, 'no inflection points')
    else:
        g = t.rows(r)
        t.check(1 <= len(g) <= 2, 'the change is found, once')
        for p in g:
            t.check(t.or_(*[t.eq(p[2], k) for k in range(5)]), 'close to where the curvature changes')
    t.check_unmutated()
