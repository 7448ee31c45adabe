"""C08: point queries of a plane."""
from symx.harness import case, plane, raw_plane, grid_plane, grid_arr, long_stack, LONG


@case('C08', 'signed distance of a stack', bounds='3 points, any plane (unnormalised normal)')
def signed(t):
    pl, p, n = plane(t)
    pts = t.arr('x', (3, 3))
    e = t.rows(t.ex(pts))
    want = [t.dot(t.sub(x, p), n) for x in e]
    sc = t.norm2(p) + sum(t.norm2(x) for x in e)
    t.check_eq(pl.signed_distance(pts), want, 'signed distance is (x - p).n with unit n', sc)
    t.check_eq(pl.distance(pts), [t.abs(w) for w in want], 'distance is the absolute signed distance', sc)
    t.check_unmutated()


@case('C08', 'signed distance of one point', bounds='any point, any plane')
def signed1(t):
    pl, p, n = plane(t)
    x = t.vec('x')
    want = t.dot(t.sub(t.rows(t.ex(x)), p), n)
    t.check(t.eq(pl.signed_distance(x), want), 'signed distance is (x - p).n with unit n')
    t.check(t.eq(pl.distance(x), t.abs(want)), 'distance is the absolute signed distance')
    t.check_unmutated()


@case('C08', 'signed distance, integer points', bounds='2 integer points, any plane')
def signed_int(t):
    pl, p, n = plane(t)
    pts = t.ints('x', (2, 3))
    e = t.rows(t.ex(pts))
    t.check_eq(pl.signed_distance(pts), [t.dot(t.sub(x, p), n) for x in e],
               'signed distance is (x - p).n with unit n')
    for x, y in zip(pts, e):
        d = t.dot(t.sub(y, p), n)
        t.check_eq(pl.project_point(x), [a - d * b for a, b in zip(y, n)], 'projections are not rounded', 100)
    t.check_unmutated()


@case('C08', 'distance to a different reference point of the same plane', bounds='any plane, any point')
def reference_free(t):
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    pl, p, n = plane(t, unit=True)
    a, b = t.real('a'), t.real('b')
    x = t.vec('x')
    # two directions spanning the plane
    w = t.vec('w')
    u = t.cross(n, t.rows(w))
    q = t.array([pi + a * ui for pi, ui in zip(t.rows(t.np.asarray(pl.reference_point)), u)])
    k = t.real('k', pos=True)
    other = Plane(q, t.array([ni * k for ni in n]) if t.branch(t.gt(k, 1)) else t.array(n))
    t.check(t.eq(other.signed_distance(x), pl.signed_distance(x), t.norm2(t.rows(x)) + t.norm2(t.rows(q))),
            'same plane, same signed distance')


for k, grid in [(k, g) for k in (1, 2, 3) for g in (False, True)]:
    @case('C08', 'sign and half-space selection of %d points%s' % (k, ', integer grid' if grid else ''),
          bounds='%d points, %s' % (k, 'axis-parallel plane, integer coordinates' if grid else 'any plane'))
    def half(t, k=k, grid=grid):
        pl, p, n = grid_plane(t) if grid else raw_plane(t)
        pts = grid_arr(t, 'x', (k, 3)) if grid else t.arr('x', (k, 3))
        e = t.rows(t.ex(pts))
        d = [t.dot(t.sub(x, p), n) for x in e]
        s = [1 if t.branch(t.gt(v, 0)) else (0 if t.branch(t.eq(v, 0)) else -1) for v in d]
        t.check_eq(pl.sign(pts), s, 'sign is +1 in front, -1 behind, 0 on the plane')
        front = [i for i in range(k) if s[i] >= 0]
        back = [i for i in range(k) if s[i] <= 0]
        for inv, idx in ((False, front), (True, back)):
            got = pl.points_in_front(pts, inverted=inv, ret_indices=True)
            t.check_eq(got, idx, 'indices of the points on the chosen side or on the plane')
            got = pl.points_in_front(pts, inverted=inv)
            t.check(got.shape == (len(idx), 3), 'selection shape')
            t.check_eq(got, [e[i] for i in idx] if idx else t.np.zeros((0, 3)), 'the points themselves')
        t.check_eq(pl.points_in_front(pts), [e[i] for i in front] if front else t.np.zeros((0, 3)),
                   'default is the front side')
        t.check_unmutated()


@case('C08', 'projection of a point', bounds='any point, any plane')
def project(t):
    pl, p, n = plane(t)
    x = t.vec('x')
    e = t.rows(t.ex(x))
    q = t.rows(pl.project_point(x))
    d = t.dot(t.sub(e, p), n)
    sc = t.norm2(p) + t.norm2(e)
    t.check_eq(q, [xi - d * ni for xi, ni in zip(e, n)], 'foot of the perpendicular', sc)
    t.check(t.eq(t.dot(t.sub(q, p), n), 0, sc), 'projection lies on the plane')
    t.check(t.eq(pl.signed_distance(t.array(q)), 0, sc), 'projection has distance zero')
    t.check(t.eq(t.norm2(t.sub(q, e)), d * d, sc * sc), 'projection moves by exactly the distance')
    t.check_eq(pl.project_point(t.array(q)), q, 'projecting twice changes nothing', sc)
    t.check_unmutated()


@case('C08', 'a flipped plane sees the opposite sign', bounds='2 points, any plane')
def flip(t):
    pl, p, n = plane(t)
    pts = t.arr('x', (2, 3))
    e = t.rows(t.ex(pts))
    f = pl.flipped()
    sc = t.norm2(p) + sum(t.norm2(x) for x in e)
    t.check_eq(f.signed_distance(pts), [-t.dot(t.sub(x, p), n) for x in e], 'flipped plane negates distances', sc)
    t.check_eq(f.distance(pts), pl.distance(pts), 'flipped plane keeps unsigned distances', sc)
    t.check_eq(f.project_point(pts[0]), pl.project_point(pts[0]), 'flipped plane keeps projections', sc)


@case('C08', 'long stacks', bounds='stacks of 70 and 300 points, all but one of them fixed, a plane at any height')
def long_stacks(t):
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    n, at = t.choice('rows', LONG)
    x, e = long_stack(t, 'x', n, at)
    h = t.real('h', lo=5, hi=5.1)
    # 2 x - y + 2 z = 3 h, between the fixed points
    pl = Plane(t.array([h, -h, 0]), t.array([2, -1, 2]))
    d = [(2 * r[0] - r[1] + 2 * r[2]) / 3 - h for r in e]
    s = [1 if t.branch(t.gt(v, 0)) else (0 if t.branch(t.eq(v, 0)) else -1) for v in d]
    t.check_eq(pl.signed_distance(x), d, 'signed distance is (x - p).n with unit n', 1000)
    t.check_eq(pl.distance(x), [t.abs(v) for v in d], 'distance is the absolute signed distance', 1000)
    t.check_eq(pl.sign(x), s, 'sign is +1 in front, -1 behind, 0 on the plane')
    for inv in (False, True):
        idx = [i for i in range(n) if (s[i] <= 0 if inv else s[i] >= 0)]
        t.check_eq(pl.points_in_front(x, inverted=inv, ret_indices=True), idx, 'indices of the points on the chosen side or on the plane')
        t.check_eq(pl.points_in_front(x, inverted=inv), [e[i] for i in idx], 'the points themselves')
    t.check_unmutated()
