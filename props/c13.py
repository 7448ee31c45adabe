"""C13: subdivision of segments and polylines."""
from fractions import Fraction as F
from symx.harness import case
from props.c12 import structure

PO = 'blmath.geometry.primitives.polyline'
SG = 'blmath.geometry.segment'


def lerp(a, b, i, n):
    return [x + (y - x) * i / n for x, y in zip(a, b)]


def poly_case(name, nv, closed, maxseg, tier='quick', deadline=None):
    @case('C13', name, tier=tier, deadline=deadline,
          bounds='%d vertices, every edge at most %d x max_length, repeated vertices included' % (nv, maxseg))
    def f(t):
        P = t.mod(PO).Polyline
        m = t.real('max_length', pos=True)
        # edges along a fixed direction keep the lengths linear; the direction is arbitrary
        u = t.unit('u')
        d = t.rows(u)
        p0 = t.vec('p0')
        rows = [t.rows(t.ex(p0))]
        s = [t.val(0)]
        k = nv - 1
        for i in range(k):
            step = t.real('s%d' % i)
            t.assume(t.and_(t.le(step, maxseg * m), t.ge(step, -maxseg * m)))
            rows.append(t.add(rows[-1], t.smul(step, d)))
            s.append(s[-1] + step)
        if closed:
            t.assume(t.and_(t.le(s[-1], maxseg * m), t.ge(s[-1], -maxseg * m)))
        ret = t.flag('ret_indices')
        v = t.track(t.array(rows), 'v')
        p = P(v, closed=closed)
        total = p.total_length
        r = p.partition_by_length(m, ret_indices=True) if ret else p.partition_by_length(m)
        if not ret:
            t.check(r is p, 'returns the polyline for chaining')
        check_partition(t, p, rows, closed, m, r if ret else None)
        t.check(t.eq(p.total_length, total), 'total length is kept')
        t.check_unmutated()
    return f


def check_partition(t, p, rows, closed, m, idx, exact=False):
    new = t.rows(p.v)
    n = len(rows)
    pairs = [(i, (i + 1) % n) for i in range(n if closed else n - 1)]
    t.check(p.closed == closed, 'open stays open, closed stays closed')
    # where the original vertices must be: walk and count
    pos, counts = 0, []
    L = [t.norm(t.sub(rows[j], rows[i])) for i, j in pairs]
    if idx is not None:
        idx = [int(x) for x in t.rows(idx)]
        t.check(len(idx) == n, 'one index per original vertex')
        for q, i in enumerate(idx):
            t.check(0 <= i < len(new), 'indices are in range')
            t.check_eq(new[i], rows[q], 'the indices name the original vertices')
        ends = idx[1:] + ([len(new)] if closed else [])
        counts = [b - a for a, b in zip(idx, ends)]
        t.check(idx[0] == 0 and all(c >= 1 for c in counts), 'original vertices stay in order')
        t.check(closed or idx[-1] == len(new) - 1, 'the last vertex stays last')
        for (i, j), c, l, a in zip(pairs, counts, L, idx):
            for k in range(c):
                t.check_eq(new[a + k], lerp(rows[i], rows[j], k, c), 'new vertices divide the edge equally')
            t.check(t.le(l, c * m), 'no new segment is longer than max_length')
            # at a tie the comparison on the real code must not be tolerant
            more = t.not_(t.le(l, (c - 1) * m)) if exact else t.gt(l, (c - 1) * m)
            t.check(t.or_(c == 1, more), 'no more segments than needed')
    else:
        k = len(new) if closed else len(new) - 1
        for i in range(k):
            a, b = new[i], new[(i + 1) % len(new)]
            t.check(t.le(t.norm2(t.sub(b, a)), m * m), 'no new segment is longer than max_length')
    structure(t, p, new, closed, 'partitioned')


poly_case('open polyline, 2 vertices', 2, False, 4)
poly_case('open polyline, 3 vertices', 3, False, 3)
poly_case('closed polyline, 2 vertices', 2, True, 3)
poly_case('closed polyline, 3 vertices', 3, True, 2)
poly_case('closed polyline, 4 vertices', 4, True, 2, tier='thorough')
poly_case('open polyline, 4 vertices', 4, False, 3, tier='thorough')


@case('C13', 'exact multiples of the maximum length', bounds='rectangles and right-angled chains with any integer sides up to '
      '6, zero included, open and closed, max_length 1, 2, 3 or 1/2')
def exact(t):
    P = t.mod(PO).Polyline
    m = t.choice('max_length', [1, 2, 3, 0.5])
    top = 2 if m == 0.5 else 6 if m > 1 else 3
    a, b = t.integer('a', -top, top), t.integer('b', -top, top)
    o = t.rows(t.ints('o', 3, -9, 9))
    shape = t.choice('shape', ['open corner', 'closed rectangle', 'closed there and back', 'open rectangle'])
    rows = [o, t.add(o, [a, 0, 0])]
    if 'back' not in shape:
        rows.append(t.add(o, [a, 0, b]))
    if 'rectangle' in shape:
        rows.append(t.add(o, [0, 0, b]))
    closed = 'closed' in shape
    p = P(t.array(rows), closed=closed)
    check_partition(t, p, rows, closed, t.val(m), p.partition_by_length(m, ret_indices=True), exact=True)


@case('C13', 'bent polyline', bounds='3 vertices with edges in arbitrary directions, at most 2 (open) x max_length')
def bent(t):
    P = t.mod(PO).Polyline
    m = t.real('max_length', pos=True)
    u, w = t.rows(t.unit('u')), t.rows(t.unit('w'))
    a, b = t.real('a', nonneg=True), t.real('b', nonneg=True)
    t.assume(t.and_(t.le(a, 2 * m), t.le(b, 2 * m)))
    p0 = t.rows(t.ex(t.vec('p0')))
    rows = [p0, t.add(p0, t.smul(a, u))]
    rows.append(t.add(rows[1], t.smul(b, w)))
    p = P(t.array(rows))
    r = p.partition_by_length(m, ret_indices=True)
    check_partition(t, p, rows, False, m, r)


@case('C13', 'partition_segment', bounds='any end points in 2 to 4 dimensions, 2 to 6 samples (9 thorough), with and without end')
def seg(t):
    f = t.mod(SG).partition_segment
    dim = t.choice('dim', [2, 3, 4])
    n = t.choice('n', range(2, t.n(6, 9) + 1))
    if t.flag('integers'):
        a, b = t.ints('a', dim, -9, 9), t.ints('b', dim, -9, 9)
    else:
        a, b = t.vec('a', dim), t.vec('b', dim)
    e, g = t.rows(t.ex(a)), t.rows(t.ex(b))
    endpoint = t.choice('endpoint', [True, False, None])
    r = f(a, b, n) if endpoint is None else f(a, b, n, endpoint=endpoint)
    k = n if endpoint is False else n - 1
    t.check_eq(r, [lerp(e, g, i, k) for i in range(n)], 'n equidistant points from p1 to p2 (p2 only with endpoint)')
    t.check_unmutated()


@case('C13', 'partition_segment arguments', bounds='sample counts from -3 to 1; non-integers')
def segbad(t):
    f = t.mod(SG).partition_segment
    g = t.mod(SG).partition_segment_old
    a, b = t.vec('a'), t.vec('b')
    n = t.choice('n', [-3, -1, 0, 1])
    t.check(t.raises(lambda: f(a, b, n), ValueError), 'fewer than 2 samples raises ValueError')
    t.check(t.raises(lambda: g(a, b, n), ValueError), 'fewer than 2 parts raises ValueError')
    x = t.choice('x', [2.5, 3.0, '3', None])
    t.check(t.raises(lambda: f(a, b, x), TypeError), 'a count that is not an int raises TypeError')
    t.check(t.raises(lambda: g(a, b, x), TypeError), 'a count that is not an int raises TypeError')


@case('C13', 'partition_segment_old', bounds='any two points, 2 to 6 parts')
def old(t):
    g = t.mod(SG).partition_segment_old
    a, b = t.vec('a'), t.vec('b')
    e, f = t.rows(t.ex(a)), t.rows(t.ex(b))
    n = t.choice('n', range(2, 7))
    t.check_eq(g(a, b, n), [lerp(e, f, i, n) for i in range(1, n)], 'the interior points of n equal parts')
    t.check(t.np.shape(g(a, b))[0] == 4, '5 parts by default')
    t.check_unmutated()


@case('C13', 'partition of a point list', bounds='any 2 to 4 points, 1 to 4 parts')
def part(t):
    g = t.mod(SG).partition
    n = t.choice('points', [2, 3, 4])
    k = t.choice('parts', [1, 2, 3, 4])
    v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    ref = [lerp(a, b, i, k) for a, b in zip(rows, rows[1:]) for i in range(k)] + [rows[-1]]
    t.check_eq(g(v, k), ref, 'every segment is divided into equal parts, the last point kept')
    t.check(t.np.shape(g(v))[0] == 5 * (n - 1) + 1, '5 parts by default')
    t.check_unmutated()


@case('C13', 'partition of repeated points', bounds='2 to 3 points anywhere, each repeated once or twice, 1 to 4 parts')
def repeated(t):
    S = t.mod(SG)
    n = t.choice('points', [2, 3])
    k = t.choice('parts', [1, 2, 4])
    e = t.rows(t.ex(t.arr('v', (n, 3))))
    at = t.choice('repeated', range(n))
    rows = e[:at] + [e[at]] * t.choice('times', [2, 3]) + e[at + 1:]
    v = t.track(t.array(rows), 'points')
    ref = [lerp(a, b, i, k) for a, b in zip(rows, rows[1:]) for i in range(k)] + [rows[-1]]
    t.check_eq(S.partition(v, k), ref, 'every segment is divided into equal parts, also one of length zero')
    a = t.track(t.array(e[0]), 'a')
    t.check_eq(S.partition_segment_old(a, a, 3), [e[0], e[0]], 'also a segment of length zero')
    t.check_eq(S.partition_segment(a, a, 3), [e[0]] * 3, 'also a segment of length zero')
    t.check_unmutated()


@case('C13', 'many parts', bounds='segments in 100 and 1000 points or parts, any end points; a polyline of two edges in 70 and 257 parts')
def many(t):
    S = t.mod(SG)
    n = t.choice('n', [100, 1000])
    a, b = t.vec('a'), t.vec('b')
    e, g = t.rows(t.ex(a)), t.rows(t.ex(b))
    t.check_eq(S.partition_segment(a, b, n), [lerp(e, g, i, n - 1) for i in range(n)], 'n equidistant points from p1 to p2')
    t.check_eq(S.partition_segment(a, b, n, endpoint=False), [lerp(e, g, i, n) for i in range(n)], 'n equidistant points without p2')
    v = t.array([[1, 2, 3], [2, 0, 1], e])
    r = [[t.val(x) for x in q] for q in ([1, 2, 3], [2, 0, 1])] + [e]
    t.check_eq(S.partition(v, n), [lerp(x, y, i, n) for x, y in zip(r, r[1:]) for i in range(n)] + [e], 'every segment is divided into equal parts')
    t.check_unmutated()


@case('C13', 'many parts by length', bounds='two edges of 70 and 257 times max_length, anywhere, open and closed')
def many_by_length(t):
    P = t.mod(PO).Polyline
    closed = t.flag('closed')
    o = t.rows(t.ints('o', 3, -9, 9))
    rows = [o, t.add(o, [70, 0, 0]), t.add(o, [70, 0, 257])]
    if closed:
        rows = [rows[0], rows[1], rows[2], t.add(o, [0, 0, 257])]
    p = P(t.array(rows), closed=closed)
    check_partition(t, p, rows, closed, t.val(1), p.partition_by_length(1, ret_indices=True), exact=True)


@case('C13', 'thousands of parts by length', bounds='an edge of 1500 (thorough: 5000) times max_length, anywhere')
def thousands(t):
    n = 5000 if t.thorough else 1500
    o = t.rows(t.ints('o', 3, -9, 9))
    rows = [o, t.add(o, [0, n, 0])]
    p = t.mod(PO).Polyline(t.array(rows))
    check_partition(t, p, rows, False, t.val(1), p.partition_by_length(1, ret_indices=True), exact=True)


@case('C13', 'nothing to subdivide', bounds='empty polylines made in five ways, and one vertex anywhere, open and closed')
def none(t):
    from props.c12 import nothing
    closed = t.flag('closed')
    one = t.flag('one vertex')
    v = t.arr('o', (1, 3))
    p = t.mod(PO).Polyline(v, closed=closed) if one else nothing(t, closed)
    if t.flag('ret_indices'):
        r = p.partition_by_length(2, ret_indices=True)
        t.check([int(x) for x in r] == ([0] if one else []), 'one index per vertex')
    else:
        t.check(p.partition_by_length(2) is p, 'returns the polyline for chaining')
    t.check(len(p) == (1 if one else 0) and p.closed == closed, 'nothing is added')
    if one:
        structure(t, p, t.rows(t.ex(v)), closed, 'one vertex')
    t.check_unmutated()


@case('C13', 'edges just longer or shorter than a multiple', bounds='two edges along an axis, 1 to 6 times the greatest length, longer or shorter by a '
      'factor of 2^-24 or 2^-40 of that, any height, six greatest lengths from 2^-30 to 2^30')
def just(t):
    m = t.mod('blmath.geometry.primitives.polyline')
    big = F(t.choice('max_length', [1, F(1, 2), 2, F(1, 1024), F(1, 2 ** 30), 2 ** 30]))
    k = [t.choice('parts %d' % i, [1, 3, 6]) for i in range(2)]
    e = [t.choice('longer %d' % i, [F(1, 2 ** 24), -F(1, 2 ** 24), F(1, 2 ** 40)]) for i in range(2)]
    z = t.real('z', lo=-9, hi=9)
    x = [t.val(0), t.val(k[0] * big * (1 + e[0])), t.val(k[0] * big * (1 + e[0]))]
    y = [t.val(0), t.val(0), t.val(k[1] * big * (1 + e[1]))]
    p = m.Polyline(t.array([[a, b, z] for a, b in zip(x, y)]))
    idx = p.partition_by_length(t.val(big) if t.symbolic else float(big), ret_indices=True)
    n = [q + (d > 0) for q, d in zip(k, e)]
    t.check([int(i) for i in t.rows(idx)] == [0, n[0], n[0] + n[1]], 'as many parts as needed, and no more')
    t.check(len(p.v) == n[0] + n[1] + 1, 'as many parts as needed, and no more')
    u = k[0] * (1 + e[0]), k[1] * (1 + e[1])
    want = [[u[0] * i / n[0], F(0)] for i in range(n[0])] + [[u[0], u[1] * i / n[1]] for i in range(n[1] + 1)]
    if len(p.v) == len(want):
        inv = 1 / big if t.symbolic else float(1 / big)
        t.check_eq([[r[0] * inv, r[1] * inv] for r in t.rows(p.v)], [[t.val(x) for x in r] for r in want], 'the parts of an edge are equally long')
