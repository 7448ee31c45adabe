"""C19: Gram-Schmidt and change of basis."""
from symx.harness import case, SIZES, resized

GS = 'blmath.numerics.linalg.gram_schmidt'
ISO = 'blmath.numerics.linalg.isomorphism'


def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), 0)


def gram(t, rows):
    return [[t.dot(a, b) for b in rows] for a in rows]


def independent(t, rows, lo):
    """All leading Gram determinants above lo."""
    g = gram(t, rows)
    for k in range(1, len(rows) + 1):
        t.assume(t.gt(det([r[:k] for r in g[:k]]), lo))


def span(t, inp, out, label):
    """Every output vector is the input vector plus a combination of the earlier ones."""
    for k in range(len(inp)):
        r = t.sub(inp[k], out[k])
        for j in range(k):
            u = out[j]
            n2 = t.norm2(u)
            c = t.dot(r, u) / n2
            r = t.sub(r, t.smul(c, u))
        for x in r:
            t.check(t.eq(x, 0, 1000), label)


def gs(m, n, ints=False, tier='quick'):
    @case('C19', 'orthogonalize %d vectors in %d dimensions%s' % (m, n, ', integers' if ints else ''), tier=tier,
          bounds='any %d linearly independent vectors of length %d' % (m, n))
    def f(t):
        g = t.mod(GS)
        v = t.ints('v', (m, n), -3, 3) if ints else t.arr('v', (m, n), lo=-3, hi=3)
        e = t.rows(t.ex(v))
        independent(t, e, t.val(1) / 100)
        o = t.rows(g.orthogonalize(v))
        t.check_eq(o[0], e[0], 'the first vector is kept')
        for i in range(m):
            for j in range(i):
                t.check(t.eq(t.dot(o[i], o[j]), 0, 1000), 'the vectors are perpendicular')
        span(t, e, o, 'each one is the vector given less a combination of those before')
        t.check_unmutated()
    return f


gs(1, 3)
gs(2, 2)
gs(2, 3)
gs(3, 3)
gs(3, 3, ints=True)
gs(3, 4, tier='thorough')


@case('C19', 'orthogonalize 4 vectors', bounds='4 vectors in 4 dimensions, triangular: integer entries below a diagonal of ones')
def gs4(t):
    g = t.mod(GS)
    rows = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    for i, j in ((1, 0), (2, 0), (3, 0), (3, 1)):
        rows[i][j] = t.integer('a%d%d' % (i, j), -2, 2)
    v = t.track(t.array(rows), 'v')
    if t.flag('normalized'):
        o = t.rows(g.orthonormalize(v))
        for i in range(4):
            t.check(t.eq(t.norm2(o[i]), 1), 'length one')
    else:
        o = t.rows(g.orthogonalize(v))
        span(t, rows, o, 'each one is the vector given less a combination of those before')
    for i in range(4):
        for j in range(i):
            t.check(t.eq(t.dot(o[i], o[j]), 0, 1000), 'the vectors are perpendicular')
    t.check_unmutated()


@case('C19', 'orthonormalize', bounds='any 1 to 2 (3 thorough) linearly independent vectors, any subset of them to be scaled, indices counted from either end; '
      'real and integer arrays')
def orthonormal(t):
    g = t.mod(GS)
    m = t.choice('m', range(1, t.n(2, 3) + 1))
    v = t.ints('v', (m, 3), -3, 3) if t.flag('integers') else t.arr('v', (m, 3), lo=-3, hi=3)
    e = t.rows(t.ex(v))
    independent(t, e, t.val(1) / 100)
    idx = t.choice('indices', [None, [-1], [-m]] + [[i for i in range(m) if k >> i & 1] for k in range(2 ** m)])
    r = t.rows(g.orthonormalize(v) if idx is None else g.orthonormalize(v, indices=idx))
    idx = idx and [i % m for i in idx]
    o = t.rows(g.orthogonalize(v))
    for i in range(m):
        if idx is None or i in idx:
            t.check(t.eq(t.norm2(r[i]), 1), 'length one')
            t.check(t.gt(t.dot(r[i], o[i]), 0), 'same direction')
            for a in range(3):
                t.check(t.eq(r[i][a] * r[i][a] * t.norm2(o[i]), o[i][a] * o[i][a], 1000), 'a multiple of the orthogonal one')
        else:
            t.check_eq(r[i], o[i], 'vectors that are not listed keep their length')
    t.check_unmutated()


@case('C19', 'projection helper', bounds='any vector, any nonzero target')
def proj(t):
    g = t.mod(GS)
    u, v = t.vec('u', lo=-3, hi=3), t.vec('v', lo=-3, hi=3)
    e, f = t.rows(t.ex(u)), t.rows(t.ex(v))
    t.assume(t.gt(t.norm2(e), t.val(1) / 100))
    k = t.dot(e, f) / t.norm2(e)
    t.check_eq(g.proj(u, v), [k * x for x in e], 'the part of v along u', 1000)
    t.check_unmutated()


def iso(n, tier='quick', deadline=None):
    @case('C19', 'change of basis in %d dimensions' % n, tier=tier, deadline=deadline,
          bounds='any two bases of %d vectors (determinants above 0.01), given as arrays or lists of vectors' % n)
    def f(t):
        g = t.mod(ISO).isomorphism
        a, b = t.arr('a', (n, n), lo=-3, hi=3), t.arr('b', (n, n), lo=-3, hi=3)
        e, f = t.rows(t.ex(a)), t.rows(t.ex(b))
        for m in (e, f):
            d = det(m)
            t.assume(t.or_(t.gt(d, t.val(1) / 100), t.lt(d, -t.val(1) / 100)))
        how = t.choice('given as', ['arrays', 'lists of arrays', 'lists'])
        if how == 'arrays':
            x, y = a, b
        elif how == 'lists of arrays':
            x, y = [r for r in a], [r for r in b]
        else:
            x, y = t.rows(a), t.rows(b)
        L = g(x, y)
        t.check(L.shape == (n, n), 'n x n')
        l = t.rows(L)
        # column k holds the coordinates of b_k in the basis a
        for k in range(n):
            for i in range(n):
                t.check(t.eq(sum((l[j][k] * e[j][i] for j in range(n)), 0), f[k][i], 1000),
                        'the columns are the coordinates of the second basis in the first')
        t.check_unmutated()
    return f


iso(1)
iso(2)
iso(3)


@case('C19', 'dependent or mismatched bases are refused', bounds='dimension 2 or 3; colinear or (dimension 3) coplanar integer vectors, different lengths')
def bad(t):
    m = t.mod(ISO)
    n = t.choice('n', [2, 3])
    good = t.array([[2 if i == j else 0 for j in range(n)] for i in range(n)])
    d = t.ints('d', n, -4, 4)
    k = t.choice('k', [0, 1, -1, 2, -4])
    e = t.rows(d)
    if n == 3 and t.flag('a plane'):
        # three vectors of a plane: rounding doesn't spare the determinant
        f = t.choice('f', [[1, 2, 3], [3, -1, 4], [2, 0, 7]])
        rows = [f, e, [x + k * y for x, y in zip(e, f)]]
    else:
        rows = [e, [k * x for x in e]] + ([[1, 2, 4]] if n == 3 else [])
    flat = t.array(rows)
    if t.flag('first'):
        t.check(t.raises(lambda: m.isomorphism(flat, good), m.LinearDependenceError),
                'a first basis that is dependent raises LinearDependenceError')
    else:
        t.check(t.raises(lambda: m.isomorphism(good, flat), m.LinearDependenceError),
                'a second basis that is dependent raises LinearDependenceError')
    t.check(issubclass(m.LinearDependenceError, ValueError) and issubclass(m.DimensionalityError, ValueError),
            'both errors are ValueErrors')
    t.check(t.raises(lambda: m.isomorphism(good, good[:n - 1]), m.DimensionalityError),
            'different numbers of vectors raise DimensionalityError')
    t.check(t.raises(lambda: m.isomorphism(good[:n - 1], good), m.DimensionalityError),
            'different numbers of vectors raise DimensionalityError')


@case('C19', 'vectors of any size', bounds='any two (3 thorough) linearly independent vectors, or bases of the plane (of space thorough), '
      'all lengths multiplied by 2^-30 or 2^30')
def sizes(t):
    s = t.choice('size', SIZES)
    n = t.n(2, 3)
    if t.flag('bases'):
        g = t.mod(ISO).isomorphism
        e, f = [t.rows(t.ex(t.arr(k, (n, n), lo=-3, hi=3))) for k in 'ab']
        for m in (e, f):
            d = det(m)
            t.assume(t.or_(t.gt(d, t.val(1) / 100), t.lt(d, -t.val(1) / 100)))
        r = s if t.flag('both') else 1
        l = t.rows(g(t.track(t.array(resized(t, e, s)), 'a'), t.track(t.array(resized(t, f, r)), 'b')))
        l = resized(t, l, s / r)
        for k in range(n):
            for i in range(n):
                t.check(t.eq(sum((l[j][k] * e[j][i] for j in range(n)), 0), f[k][i], 1000),
                        'the columns are the coordinates of the second basis in the first')
    else:
        g = t.mod(GS)
        e = t.rows(t.ex(t.arr('v', (n, 3), lo=-3, hi=3)))
        independent(t, e, t.val(1) / 100)
        v = t.track(t.array(resized(t, e, s)), 'v')
        o = resized(t, t.rows(g.orthogonalize(v)), 1 / s)
        t.check_eq(o[0], e[0], 'the first vector is kept')
        for i in range(n):
            for j in range(i):
                t.check(t.eq(t.dot(o[i], o[j]), 0, 1000), 'the vectors are perpendicular')
        span(t, e, o, 'each one is the vector given less a combination of those before')
        r = t.rows(g.orthonormalize(v))
        for i in range(n):
            t.check(t.eq(t.norm2(r[i]), 1), 'length one')
            t.check(t.gt(t.dot(r[i], o[i]), 0), 'same direction')
    t.check_unmutated()
