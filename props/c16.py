"""C16: barycentric coordinates of projections."""
from symx.harness import case, changing, apart, long_stack, LONG, SIZES, resized

BC = 'blmath.geometry.barycentric'


def check_row(t, b, p, q, u, v, frame=None):
    b = list(b)
    t.check(len(b) == 3, 'three coordinates')
    t.check(t.eq(b[0] + b[1] + b[2], 1, 1000), 'the coordinates sum to one')
    pt = [b[0] * q[i] + b[1] * (q[i] + u[i]) + b[2] * (q[i] + v[i]) for i in range(3)]
    w = t.sub(p, pt)
    t.check(t.eq(t.dot(w, u), 0, 1000), 'what remains is perpendicular to the first edge')
    t.check(t.eq(t.dot(w, v), 0, 1000), 'and to the second')


for k in (1, 2):
    @case('C16', 'projection of %d points' % k, bounds='%d points, each with its own triangle, area above 0.01' % k)
    def proj(t, k=k):
        f = t.mod(BC).barycentric_coordinates_of_projection
        args = [t.arr(n, (k, 3), lo=-10, hi=10) for n in 'pquv']
        e = [t.rows(t.ex(a)) for a in args]
        for i in range(k):
            t.assume(t.gt(t.norm2(t.cross(e[2][i], e[3][i])), t.val(1) / 100))
        b = f(*args)
        t.check(b.shape == (k, 3), 'one row per point')
        for i in range(k):
            check_row(t, t.rows(b)[i], *[a[i] for a in e])
        t.check_unmutated()


@case('C16', 'single point', bounds='any point, any triangle of area above 0.01, vectors of length 3')
def single(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    args = [t.vec(n, lo=-10, hi=10) for n in 'pquv']
    e = [t.rows(t.ex(a)) for a in args]
    t.assume(t.gt(t.norm2(t.cross(e[2], e[3])), t.val(1) / 100))
    b = f(*args)
    t.check(b.shape == (1, 3), 'one row')
    check_row(t, t.rows(b)[0], *e)
    t.check_unmutated()


@case('C16', 'points of the triangle', bounds='any triangle, any barycentric coordinates, any offset along the normal')
def inside(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    q, u, v = [t.arr(n, (1, 3), lo=-10, hi=10) for n in 'quv']
    eq, eu, ev = [t.rows(t.ex(a))[0] for a in (q, u, v)]
    n = t.cross(eu, ev)
    t.assume(t.gt(t.norm2(n), t.val(1) / 100))
    x, y, h = t.real('x', lo=-10, hi=10), t.real('y', lo=-10, hi=10), t.real('h', lo=-10, hi=10)
    p = t.array([[eq[i] + x * eu[i] + y * ev[i] + h * n[i] for i in range(3)]])
    t.check_eq(f(p, q, u, v), [[1 - x - y, x, y]], 'the coordinates the point was made from', 1e5)
    t.check_unmutated()


@case('C16', 'degenerate triangles', bounds='2 points; the first or both triangles colinear or with zero edges (integers)')
def degenerate(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    which = t.choice('which', ['first', 'both', 'single'])
    n = 1 if which == 'single' else 2
    d = t.ints('d', 3, -5, 5)
    k, m = t.integer('k', -3, 3), t.integer('m', -3, 3)
    e = t.rows(d)
    flat_u, flat_v = [k * x for x in e], [m * x for x in e]
    if t.flag('integer arrays'):
        p, q = [t.track(t.ints(k, (n, 3), -5, 5), k) for k in ('p', 'q')]
        array = t.int_array
    else:
        p, q = t.arr('p', (n, 3)), t.arr('q', (n, 3))
        array = t.array
    if which == 'single':
        b = f(p[0], q[0], array(flat_u), array(flat_v))
    else:
        u2, v2 = (flat_u, flat_v) if which == 'both' else ([1, 0, 2], [0, 3, 1])
        b = f(p, q, array([flat_u, u2]), array([flat_v, v2]))
        if which == 'first':
            check_row(t, t.rows(b)[1], t.rows(t.ex(p))[1], t.rows(t.ex(q))[1], u2, v2)
    for r in t.rows(b):
        for x in r:
            t.check(t.isfinite(x), 'finite coordinates')
        t.check(t.eq(r[0] + r[1] + r[2], 1), 'which sum to one')
    t.check_unmutated()


@case('C16', 'long stacks', bounds='stacks of 70 and 300 points and triangles, all but one of them fixed')
def long_stacks(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    n, at = t.choice('rows', LONG)
    args = [long_stack(t, k, n, at, seed=i * 7) for i, k in enumerate('pquv')]
    e = [x[1] for x in args]
    for i in range(n):
        if i == at:
            t.assume(t.gt(t.norm2(t.cross(e[2][i], e[3][i])), t.val(1) / 100))
    b = f(*[x[0] for x in args])
    t.check(b.shape == (n, 3), 'one row per point')
    rows = t.rows(b)
    for i in range(n):
        if t.norm2(t.cross(e[2][i], e[3][i])) != 0 if i != at else True:
            check_row(t, rows[i], *[a[i] for a in e])
    t.check_unmutated()


@case('C16', 'triangles of any size', bounds='any point and triangle, all lengths multiplied by 2^-30 or 2^30, single and stacked')
def sizes(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    s = t.choice('size', SIZES)
    e = [t.rows(t.ex(t.vec(n, lo=-10, hi=10))) for n in 'pquv']
    t.assume(t.gt(t.norm2(t.cross(e[2], e[3])), t.val(1) / 100))
    args = [resized(t, x, s) for x in e]
    if t.flag('stacked'):
        o = [[0, 0, 1], [1, 0, 0], [1, 2, 0], [-1, 0, 3]]
        b = f(*[t.track(t.array([x, y]), n) for x, y, n in zip(args, o, 'pquv')])
        t.check(b.shape == (2, 3), 'one row per point')
        check_row(t, t.rows(b)[1], *o)
    else:
        b = f(*[t.track(t.array(x), n) for x, n in zip(args, 'pquv')])
        t.check(b.shape == (1, 3), 'one row')
    check_row(t, t.rows(b)[0], *e)
    t.check_unmutated()


@case('C16', 'fixed triangles of any size', bounds='any point above three fixed triangles, all lengths multiplied by 2^-30 or 2^30')
def fixed_sizes(t):
    f = t.mod(BC).barycentric_coordinates_of_projection
    s = t.choice('size', SIZES)
    q, u, v = t.choice('triangle', [([0, 0, 0], [1, 0, 0], [0, 1, 0]), ([1, 2, 3], [3, 0, 4], [1, 1, 0]), ([2, 0, 1], [0, -2, 1], [0, 1, 1])])
    a, b, c = t.real('a', lo=0.2, hi=5), t.real('b', lo=0.2, hi=5), t.real('c', lo=-5, hi=5)
    p = t.add(t.add(q, t.add(t.smul(a, u), t.smul(b, v))), t.smul(c, t.cross(u, v)))
    r = f(*[t.track(t.array(resized(t, [t.val(k) for k in x], s)), n) for x, n in zip((p, q, u, v), 'pquv')])
    t.check_eq(t.rows(r), [[1 - a - b, a, b]], 'the coordinates the point was made from')
    t.check_unmutated()


changing('C16', ('barycentric_coordinates_of_projection', lambda t, *a: t.mod(BC).barycentric_coordinates_of_projection(*a),
                 [[[0, 1, 0]], [[0, 0, 0]], [[1, 0, 0]], [[0, 0, 1]]], lambda t, p, q, u, v: apart(t, u[0], v[0])))
