"""C10: lines and segments against a plane."""
from symx.harness import case, resized, raw_plane, plane, grid_plane, grid_arr, long_stack, LONG


def free(t, name, shape):
    return t.arr(name, shape)


BOTH = [('', raw_plane, free), (', integer grid', grid_plane, grid_arr)]
GB = {'': '', ', integer grid': '; axis-parallel plane, integer coordinates'}


def tpar(t, p, n, a, b):
    """(denominator, numerator) of the parameter along a..b."""
    return t.dot(t.sub(b, a), n), t.dot(t.sub(p, a), n)


for kind, mk_, ar in BOTH:
    @case('C10', 'one line' + kind, bounds='any plane, any line' + GB[kind])
    def line(t, mk_=mk_, ar=ar):
        pl, p, n = mk_(t)
        x, r = ar(t, 'x', 3), ar(t, 'r', 3)
        e, f = t.rows(t.ex(x)), t.rows(t.ex(r))
        den, num = t.dot(f, n), t.dot(t.sub(p, e), n)
        got = pl.line_xsection(x, r)
        if t.branch(t.eq(den, 0)):
            t.check(got is None, 'a parallel line has no intersection')
        else:
            t.check_eq(got, [xi + num * fi / den for xi, fi in zip(e, f)], 'point where the line meets the plane')
        t.check_unmutated()


for kind, mk_, ar in BOTH:
    @case('C10', 'one segment' + kind, bounds='any plane, any two endpoints' + GB[kind])
    def segment(t, mk_=mk_, ar=ar):
        pl, p, n = mk_(t)
        a, b = ar(t, 'a', 3), ar(t, 'b', 3)
        e, f = t.rows(t.ex(a)), t.rows(t.ex(b))
        den, num = tpar(t, p, n, e, f)
        if t.branch(t.eq(den, 0)):
            got = pl.line_segment_xsection(a, b)
            t.check(got is None, 'a parallel segment has no intersection')
        else:
            # parameter in [0,1]
            inside = t.branch(t.and_(t.ge(num * den, 0), t.le(num * den, den * den)))
            got = pl.line_segment_xsection(a, b)
            if inside:
                t.check(got is not None, 'a segment meeting the plane has an intersection')
                if got is not None:
                    t.check_eq(got, [x + num * (y - x) / den for x, y in zip(e, f)], 'the intersection point')
            else:
                t.check(got is None, 'a segment beside the plane has no intersection')
        t.check_unmutated()


@case('C10', 'one segment, list arguments', bounds='any plane, any two endpoints')
def segment_list(t):
    pl, p, n = raw_plane(t)
    a, b = t.vec('a'), t.vec('b')
    e, f = t.rows(t.ex(a)), t.rows(t.ex(b))
    den, num = tpar(t, p, n, e, f)
    t.assume(t.gt(num * den, 0))
    t.assume(t.lt(num * den, den * den))
    got = pl.line_segment_xsection(a.tolist(), b.tolist())
    t.check(got is not None, 'a segment meeting the plane has an intersection')
    if got is not None:
        t.check_eq(got, [x + num * (y - x) / den for x, y in zip(e, f)], 'the intersection point')


for k, (kind, mk_, ar) in [(k, b) for k in (1, 2, 3) for b in BOTH]:
    @case('C10', '%d lines at once%s' % (k, kind), bounds='any plane, %d lines' % k + GB[kind])
    def lines(t, k=k, mk_=mk_, ar=ar):
        pl, p, n = mk_(t)
        x, r = ar(t, 'x', (k, 3)), ar(t, 'r', (k, 3))
        e, f = t.rows(t.ex(x)), t.rows(t.ex(r))
        pts, ok = pl.line_xsections(x, r)
        t.check(pts.shape == (k, 3) and ok.shape == (k,), 'one row per line')
        for i in range(k):
            den, num = t.dot(f[i], n), t.dot(t.sub(p, e[i]), n)
            z = t.branch(t.eq(den, 0))
            t.check(t.iff(t.truth(ok[i]), t.const(not z)), 'valid exactly for lines that are not parallel')
            if z:
                t.check(t.and_(*[t.isnan(v) for v in pts[i]]), 'parallel lines give NaN')
            else:
                t.check_eq(pts[i], [xi + num * fi / den for xi, fi in zip(e[i], f[i])], 'same point as the single call')
        t.check_unmutated()


for k, (kind, mk_, ar) in [(k, b) for k in (1, 2, 3) for b in BOTH]:
    @case('C10', '%d segments at once%s' % (k, kind), bounds='any plane, %d segments' % k + GB[kind],
          tier='quick' if k < 3 else 'thorough')
    def segments(t, k=k, mk_=mk_, ar=ar):
        pl, p, n = mk_(t)
        a, b = ar(t, 'a', (k, 3)), ar(t, 'b', (k, 3))
        e, f = t.rows(t.ex(a)), t.rows(t.ex(b))
        state = []
        for i in range(k):
            den, num = tpar(t, p, n, e[i], f[i])
            if t.branch(t.eq(den, 0)):
                state.append(None)
            else:
                state.append(t.branch(t.and_(t.ge(num * den, 0), t.le(num * den, den * den))))
        pts, ok = pl.line_segment_xsections(a, b)
        t.check(pts.shape == (k, 3) and ok.shape == (k,), 'one row per segment')
        for i in range(k):
            den, num = tpar(t, p, n, e[i], f[i])
            t.check(t.iff(t.truth(ok[i]), t.const(bool(state[i]))), 'valid exactly for segments that meet the plane')
            if state[i]:
                t.check_eq(pts[i], [x + num * (y - x) / den for x, y in zip(e[i], f[i])],
                           'same point as the single call')
            else:
                t.check(t.and_(*[t.isnan(v) for v in pts[i]]), 'segments without intersection give NaN')
        t.check_unmutated()


@case('C10', 'segments of all sizes', bounds='two planes through the origin, segments with whole coordinates times 2^-30, 2^-12, 1 or 2^30')
def sizes(t):
    P = t.mod('blmath.geometry.primitives.plane').Plane
    s = t.choice('size', [2.0 ** -30, 2.0 ** -12, 1, 2.0 ** 30])
    n = [t.val(x) for x in t.choice('normal', [[0, 0, 1], [-1, 0, 0]])]
    a, b = t.rows(t.ints('a', 3, -9, 9)), t.rows(t.ints('b', 3, -9, 9))
    da, db = t.dot(a, n), t.dot(b, n)
    pl = P(t.array([0, 0, 0]), t.array(n))
    A, B = [t.array(resized(t, q, s)) for q in (a, b)]
    if t.flag('stacked'):
        pts, ok = pl.line_segment_xsections(A.reshape(1, 3), B.reshape(1, 3))
        got = pts[0] if t.branch(t.truth(ok[0])) else None
    else:
        got = pl.line_segment_xsection(A, B)
    if t.branch(t.eq(da, db)):
        t.check(got is None, 'a parallel segment has no intersection')
    elif t.branch(t.le(da * db, 0)):
        t.check(got is not None, 'a segment across the plane has an intersection')
        if got is not None:
            want = [x + da * (y - x) / (da - db) for x, y in zip(a, b)]
            t.check_eq(resized(t, t.rows(got), 1 / s), want, 'the intersection point')
    else:
        t.check(got is None, 'a segment beside the plane has no intersection')


@case('C10', 'long stacks', bounds='70 and 300 lines and segments, all but one of them fixed')
def long_stacks(t):
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    n, at = t.choice('rows', LONG)
    a, e = long_stack(t, 'a', n, at)
    b, f = long_stack(t, 'b', n, at, seed=5)
    h = 5
    pl = Plane(t.array([h, -h, 0]), t.array([2, -1, 2]))
    da, db = [[(2 * r[0] - r[1] + 2 * r[2] - 3 * h) * t.val(1) / 3 for r in q] for q in (e, f)]
    state = []
    for x, y in zip(da, db):
        state.append(None if t.branch(t.eq(x, y)) else t.branch(t.le(x * y, 0)))
    pts, ok = pl.line_segment_xsections(a, b)
    lp, lok = pl.line_xsections(a, b - a)
    t.check(pts.shape == lp.shape == (n, 3) and ok.shape == lok.shape == (n,), 'one row per segment')
    for i in range(n):
        t.check(t.iff(t.truth(ok[i]), t.const(bool(state[i]))), 'valid exactly for segments that meet the plane')
        t.check(t.iff(t.truth(lok[i]), t.const(state[i] is not None)), 'valid exactly for lines that are not parallel')
        want = None if state[i] is None else [x + da[i] * (y - x) / (da[i] - db[i]) for x, y in zip(e[i], f[i])]
        for got, there in ((pts[i], state[i]), (lp[i], state[i] is not None)):
            if there:
                t.check_eq(got, want, 'same point as the single call', 1e5)
            else:
                t.check(t.and_(*[t.isnan(v) for v in got]), 'nan otherwise')
    t.check_unmutated()
