"""C15: intersections of two lines."""
from fractions import Fraction as F
from symx.harness import case, changing, apart, SIZES, resized

SG = 'blmath.geometry.segment'


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def two_d(name, ints):
    @case('C15', '2-d lines: ' + name, bounds='any two lines given by two distinct points each, parallel ones included')
    def f(t):
        li = t.mod(SG).line_intersect
        how = t.choice('given as', ['arrays', 'lists'])
        if ints:
            args = [t.ints(n, 2, -2, 2) for n in 'abcd']
        else:
            args = [t.vec(n, 2) for n in 'abcd']
        a, b, c, d = [t.rows(t.ex(x)) for x in args]
        u, w = t.sub(b, a), t.sub(d, c)
        t.assume(t.gt(t.norm2(u), 0))
        t.assume(t.gt(t.norm2(w), 0))
        det = cross2(u, w)
        if how == 'lists':
            args = [[x for x in t.rows(y)] for y in args]
        parallel = t.branch(t.eq(det, 0))
        if not ints and not t.symbolic:
            # exact reals: any crossing angle; the replay needs it away from rounding
            t.assume(t.gt(det * det, 1e-6 * t.norm2(u) * t.norm2(w)))
        r = li(*args)
        if parallel:
            t.check(t.np.shape(r) == (2,), 'two coordinates')
            for x in t.rows(r):
                t.check(t.isnan(x), 'parallel lines give nan')
        else:
            k = cross2(t.sub(c, a), w) / det
            t.check_eq(r, [a[i] + k * u[i] for i in range(2)], 'the point on both lines', 1000)
            m = cross2(t.sub(c, a), u) / det
            t.check_eq(r, [c[i] + m * w[i] for i in range(2)], 'also seen from the second line', 1000)
        t.check_unmutated()
    return f


two_d('real coordinates', False)
two_d('integer coordinates', True)


@case('C15', '2-d lines: order does not matter', bounds='any two lines that are not parallel')
def order2(t):
    li = t.mod(SG).line_intersect
    a, b, c, d = [t.vec(n, 2) for n in 'abcd']
    e = [t.rows(t.ex(x)) for x in (a, b, c, d)]
    u, w = t.sub(e[1], e[0]), t.sub(e[3], e[2])
    det = cross2(u, w)
    t.assume(t.or_(t.gt(det, t.val(1) / 100), t.lt(det, -t.val(1) / 100)))
    r = li(a, b, c, d)
    which = t.choice('swap', ['first', 'second', 'lines'])
    s = {'first': (b, a, c, d), 'second': (a, b, d, c), 'lines': (c, d, a, b)}[which]
    t.check_eq(li(*s), t.rows(r), 'same point', 1000)
    t.check_unmutated()


def three_d(name, tier='quick'):
    @case('C15', '3-d lines: ' + name, tier=tier,
          bounds='any point of intersection, any two non-parallel directions, any two points on either line')
    def f(t):
        li = t.mod(SG).line_intersect3
        x = t.rows(t.ex(t.vec('x')))
        # two directions in an arbitrarily rotated plane
        R = t.rows(t.rotation('R'))
        c = t.real('c', lo=-10, hi=10)
        d0 = R[0]
        d1 = [c * p + q for p, q in zip(R[0], R[1])]
        s = [t.real('s%d' % i, lo=-10, hi=10) for i in range(4)]
        if not t.symbolic:
            for i in range(4):
                t.assume(t.or_(t.gt(t.abs(s[i]), 1e-3), t.const(s[i] == 0)))
        t.assume(t.or_(t.gt(s[0] - s[1], t.val(1) / 100), t.lt(s[0] - s[1], -t.val(1) / 100)))
        t.assume(t.or_(t.gt(s[2] - s[3], t.val(1) / 100), t.lt(s[2] - s[3], -t.val(1) / 100)))
        ps = [t.track(t.array([a + k * b for a, b in zip(x, d)]), n)
              for n, k, d in zip(('p0', 'q0', 'p1', 'q1'), s, (d0, d0, d1, d1))]
        if t.symbolic:
            # follows from the directions being independent; the solver does not find it by itself
            for i in (0, 1):
                for j in (2, 3):
                    same = t.eqs(t.rows(ps[i]), t.rows(ps[j]))
                    t.assume(t.implies(same, t.and_(t.eq(s[i], 0), t.eq(s[j], 0))))
        r = li(*ps)
        t.check_eq(r, x, 'the point on both lines', 1000)
        t.check_unmutated()
    return f


three_d('real coordinates')


@case('C15', '3-d lines: integer coordinates', bounds='any integer point, two integer directions that are not parallel, '
      'points at any integer multiples, shared end points included')
def ints3(t):
    li = t.mod(SG).line_intersect3
    x = t.ints('x', 3, -9, 9)
    d0 = t.choice('d0', [(1, 0, 0), (1, 2, -1), (0, -3, 1)])
    d1 = t.choice('d1', [(0, 2, 0), (2, 2, 1), (-1, 0, 0)])
    if t.cross(d0, d1) == [0, 0, 0]:
        return
    s = [t.integer('s%d' % i, -4, 4) for i in range(4)]
    t.assume(t.not_(t.eq(s[0], s[1])))
    t.assume(t.not_(t.eq(s[2], s[3])))
    e = t.rows(x)
    ps = []
    for k, d in zip(s, (d0, d0, d1, d1)):
        ps.append(t.array([a + k * b for a, b in zip(e, d)]))
    r = li(*ps)
    t.check_eq(r, e, 'the point on both lines', 1000)
    t.check_unmutated()


@case('C15', '3-d lines: a line in an array of whole numbers', bounds='any point of half numbers, one line of fixed whole points, '
      'three directions of the other, either first or second')
def mixed3(t):
    li = t.mod(SG).line_intersect3
    o = t.rows(t.ints('o', 3, -9, 9))
    d0, d1 = t.choice('directions', [([2, 0, 0], [0, 2, 0]), ([2, 4, -2], [1, 0, 3]), ([0, 6, 2], [-3, 1, 1])])
    half = t.choice('half', [1, 3, -1])
    x = [a + t.val(F(half * b, 4)) for a, b in zip(o, d0)]
    first = [t.int_array(o), t.int_array([a + b for a, b in zip(o, d0)])]
    other = [t.array([a + k * t.val(F(b)) for a, b in zip(x, d1)]) for k in (1, -1)]
    args = first + other if t.flag('first') else other + first
    t.check_eq(li(*[t.track(a, 'argument') for a in args]), x, 'the point on both lines', 1000)
    t.check_unmutated()


@case('C15', '3-d lines: parallel', bounds='any integer direction from a list, distinct parallel lines or overlapping '
      'colinear ones without a common end point')
def par3(t):
    li = t.mod(SG).line_intersect3
    p = t.ints('p', 3, -9, 9)
    d = t.choice('d', [(1, 0, 0), (0, 2, 1), (1, -2, 3)])
    o = t.ints('o', 3, -2, 2)
    k, m, n = t.integer('k', -4, 4), t.integer('m', -4, 4), t.integer('n', -4, 4)
    t.assume(t.not_(t.eq(k, 0)))
    t.assume(t.not_(t.eq(m, n)))
    e, f = t.rows(p), t.rows(o)
    ps = [e, [a + k * b for a, b in zip(e, d)], [a + g + m * b for a, g, b in zip(e, f, d)],
          [a + g + n * b for a, g, b in zip(e, f, d)]]
    for a in (0, 1):
        for b in (2, 3):
            t.assume(t.or_(*[t.not_(t.eq(x, y)) for x, y in zip(ps[a], ps[b])]))
    t.check(li(*[t.array(q) for q in ps]) is None, 'no single point of intersection: None')


@case('C15', '3-d lines: a common end point', bounds='any points, sharing either end of each line')
def shared(t):
    li = t.mod(SG).line_intersect3
    x, a, b = t.vec('x'), t.vec('a'), t.vec('b')
    e, f, g = [t.rows(t.ex(v)) for v in (x, a, b)]
    n2 = t.norm2(t.cross(t.sub(f, e), t.sub(g, e)))
    t.assume(t.gt(n2, t.val(1) / 100))
    args = (x, a) if t.flag('first reversed') else (a, x)
    args += (x, b) if t.flag('second reversed') else (b, x)
    t.check_eq(li(*args), e, 'the shared end point')
    t.check_unmutated()


@case('C15', '3-d lines: colinear with a common end point', bounds='any integer point and multiples of three directions')
def colinear_shared(t):
    li = t.mod(SG).line_intersect3
    x = t.ints('x', 3, -9, 9)
    d = t.choice('d', [(1, 0, 0), (0, 2, 1), (1, -2, 3)])
    k, m = t.integer('k', -4, 4), t.integer('m', -4, 4)
    t.assume(t.and_(t.not_(t.eq(k, 0)), t.not_(t.eq(m, 0)), t.not_(t.eq(k, m))))
    e = t.rows(x)
    a, b = [t.array([p + s * q for p, q in zip(e, d)]) for s in (k, m)]
    c = t.array(e)
    args = (c, a) if t.flag('first reversed') else (a, c)
    args += (c, b) if t.flag('second reversed') else (b, c)
    t.check_eq(li(*args), e, 'the shared end point')
    t.check_unmutated()


@case('C15', '2-d lines of any size', bounds='any two lines that are not parallel, all lengths multiplied by 2^-30 or 2^30')
def sizes2(t):
    li = t.mod(SG).line_intersect
    s = t.choice('size', SIZES)
    a, b, c, d = [t.rows(t.ints(n, 2, -4, 4)) for n in 'abcd']
    u, w = t.sub(b, a), t.sub(d, c)
    det = cross2(u, w)
    t.assume(t.ne(det, 0))
    r = li(*[t.track(t.array(resized(t, x, s)), n) for x, n in zip((a, b, c, d), 'abcd')])
    k = cross2(t.sub(c, a), w) / (det * t.val(1))
    t.check_eq(resized(t, t.rows(r), 1 / s), [a[i] + k * u[i] for i in range(2)], 'the point on both lines', 1000)
    t.check_unmutated()


@case('C15', '3-d lines of any size', bounds='any integer point, two pairs of directions, any points on the lines, '
      'all lengths multiplied by 2^-30 or 2^30')
def sizes3(t):
    li = t.mod(SG).line_intersect3
    size = t.choice('size', SIZES)
    e = t.rows(t.ints('x', 3, -9, 9))
    d0, d1 = t.choice('directions', [((1, 2, -1), (0, 2, 0)), ((0, -3, 1), (2, 2, 1)), ((1, 2, -1), (3, 6, -2))])
    s = [t.integer('s%d' % i, -4, 4) for i in range(4)]
    t.assume(t.not_(t.eq(s[0], s[1])))
    t.assume(t.not_(t.eq(s[2], s[3])))
    ps = [t.track(t.array(resized(t, [a + k * b for a, b in zip(e, d)], size)), n)
          for n, k, d in zip(('p0', 'q0', 'p1', 'q1'), s, (d0, d0, d1, d1))]
    r = li(*ps)
    t.check(r is not None, 'lines that meet are not parallel')
    t.check_eq(resized(t, t.rows(r), 1 / size), e, 'the point on both lines', 1000)
    t.check_unmutated()


changing('C15', ('line_intersect', lambda t, *a: t.mod(SG).line_intersect(*a), [[0, 0], [1, 1], [1, 0], [0, 1]],
                 lambda t, a, b, c, d: t.assume(t.gt(cross2(t.sub(b, a), t.sub(d, c)), t.val(1) / 10))),
         ('line_intersect3', lambda t, a, b, c: t.mod(SG).line_intersect3(a, a + b, a + c, a - c), [[0, 0, 0], [1, 1, 0], [1, 0, 0]],
          lambda t, a, b, c: apart(t, b, c)))
