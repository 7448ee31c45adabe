"""C26: triangle normals and generated shapes."""
import numpy as np

from symx.harness import case, changing, apart, long_stack, LONG, SIZES, resized

SN = 'blmath.geometry.surface_normals'
SH = 'blmath.geometry.shapes'


def tri(t, rows):
    return t.cross(t.sub(rows[1], rows[0]), t.sub(rows[2], rows[0]))


def unit_along(t, got, n, label):
    l = t.norm(n)
    t.check_eq(t.smul(l, got), n, label, 1000)
    t.check(t.eq(t.norm2(got), 1), 'length one')


@case('C26', 'normal of one triangle', bounds='any three points (area above 0.005 when normalized), real and integer')
def one(t):
    f = t.mod(SN).surface_normal
    p = t.ints('p', (3, 3), -9, 9) if t.flag('integers') else t.arr('p', (3, 3), lo=-9, hi=9)
    e = t.rows(t.ex(p))
    n = tri(t, e)
    how = t.choice('normalize', [None, True, False])
    if how is not False:
        t.assume(t.gt(t.norm2(n), t.val(1) / 10000))
    r = f(p) if how is None else f(p, normalize=how)
    if how is False:
        t.check_eq(r, n, 'the cross product of the edges, right hand rule', 1000)
    else:
        unit_along(t, t.rows(r), n, 'unit normal by the right hand rule')
    t.check_unmutated()


for k in (1, 2, 3):
    @case('C26', 'normals of %d triangles' % k, bounds='%d triangles of any points (areas above 0.005 when normalized)' % k)
    def many(t, k=k):
        f = t.mod(SN).surface_normal
        p = t.arr('p', (k, 3, 3), lo=-9, hi=9)
        e = t.rows(t.ex(p))
        norm = t.flag('normalize')
        ns = [tri(t, r) for r in e]
        if norm:
            for n in ns:
                t.assume(t.gt(t.norm2(n), t.val(1) / 10000))
        r = f(p, normalize=norm)
        t.check(r.shape == (k, 3), 'one normal per triangle')
        for g, n in zip(t.rows(r), ns):
            if norm:
                unit_along(t, g, n, 'unit normal by the right hand rule')
            else:
                t.check_eq(g, n, 'the cross product of the edges', 1000)
        t.check_unmutated()


def closed_surface(t, tris, ids, label):
    """Every directed edge is used exactly once, and so is its reverse; tris by vertex id."""
    edges = [(f[i], f[(i + 1) % 3]) for f in ids for i in range(3)]
    t.check(len(set(edges)) == len(edges), label + ': no edge is used twice in the same direction')
    t.check(all((b, a) in edges for a, b in edges), label + ': watertight and consistently oriented')


def volume(t, tris):
    s = 0
    for a, b, c in tris:
        s = s + t.dot(a, t.cross(b, c))
    return s / 6


def solid(t, make, corners, vol, label):
    """make(flag) builds the shape; corners: the exact vertices; vol: its volume."""
    V, F = make(True)
    v = t.rows(V)
    ids = [[int(i) for i in f] for f in t.rows(t.np.asarray(F))]
    t.check(len(v) == len(corners), label + ': number of vertices')
    if len(v) != len(corners):
        return
    # match every expected corner to the vertices (the order is not promised)
    for c in corners:
        t.check(t.or_(*[t.eqs(c, x, 1000) for x in v]), label + ': every corner is a vertex')
    t.check(all(0 <= i < len(v) for f in ids for i in f), label + ': faces index the vertices')
    t.check(sorted(set(i for f in ids for i in f)) == list(range(len(v))), label + ': every vertex is used')
    closed_surface(t, None, ids, label)
    tris = [[v[i] for i in f] for f in ids]
    t.check(t.eq(volume(t, tris), vol, 1e4), label + ': encloses its volume, faces oriented outward')
    flat = make(False)
    t.check(flat.shape == (len(ids), 3, 3), label + ': one row per triangle')
    t.check_eq(flat, tris, label + ': flattened vertices are the faces')
    t.scribble(flat, V, F)
    V, F = make(True)
    t.check_eq(V, v, label + ': the same vertices when made again')
    t.check([[int(i) for i in f] for f in t.rows(t.np.asarray(F))] == ids, label + ': and the same faces')


@case('C26', 'rectangular prism', bounds='any origin, any sizes (positive for the orientation), arrays and lists, real and integer')
def prism(t):
    f = t.mod(SH).create_rectangular_prism
    o = t.ints('o', 3, -9, 9) if t.flag('integer origin') else t.vec('o', lo=-9, hi=9)
    s = t.ints('s', 3, 1, 9) if t.flag('integer size') else t.vec('s', lo=0.1, hi=9)
    a, b = t.rows(t.ex(o)), t.rows(t.ex(s))
    corners = [[a[0] + i * b[0], a[1] + j * b[1], a[2] + k * b[2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    solid(t, lambda u: f(o, s, ret_unique_vertices_and_faces=u), corners, b[0] * b[1] * b[2], 'prism')
    t.check_eq(f(o, s), t.rows(f(o, s, ret_unique_vertices_and_faces=False)), 'flattened by default')
    t.check_unmutated()


@case('C26', 'cube', bounds='any origin, any positive size, real and integer')
def cube(t):
    f = t.mod(SH).create_cube
    o = t.ints('o', 3, -9, 9) if t.flag('integer origin') else t.vec('o', lo=-9, hi=9)
    s = t.integer('s', 1, 9) if t.flag('integer size') else t.real('s', lo=0.1, hi=9)
    a = t.rows(t.ex(o))
    corners = [[a[0] + i * s, a[1] + j * s, a[2] + k * s] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    solid(t, lambda u: f(o, s, ret_unique_vertices_and_faces=u), corners, s * s * s, 'cube')
    t.check_eq(f(o, s), t.rows(f(o, s, ret_unique_vertices_and_faces=False)), 'flattened by default')
    t.check_unmutated()


@case('C26', 'tall triangular prisms', bounds='three tilted triangles, heights up to 1e7, corners good to ten digits')
def tall(t):
    low, normal = t.choice('triangle', [([[0, 0, 0], [2, -1, 0], [2, 0, -1]], (1, 2, 2)), ([[1, 1, 1], [3, 0, 1], [3, 1, 0]], (1, 2, 2)),
                                        ([[0, 0, 0], [0, 0, 1], [2, -1, 0]], (1, 2, 0))])
    h = t.real('height', lo=1, hi=10 ** 7)
    v, f = t.mod(SH).create_triangular_prism(*([np.array(p, dtype=float) for p in low] + [h]), ret_unique_vertices_and_faces=True)
    n = t.sqrt(t.val(sum(x * x for x in normal)))
    for i in range(3):
        for j in range(3):
            t.check(t.near(v[3 + i][j], low[i][j] - h * normal[j] / n, 1e-10, h), 'the second base is the height behind the first')


@case('C26', 'triangular prism', bounds='any triangle (area above 0.05), any positive height')
def triangular(t):
    f = t.mod(SH).create_triangular_prism
    R = t.rows(t.rotation('R'))
    p1 = t.vec('p1', lo=-9, hi=9)
    e = t.rows(t.ex(p1))
    x, y, z = t.real('x', lo=0.3, hi=9), t.real('y', lo=-9, hi=9), t.real('z', lo=0.3, hi=9)
    h = t.real('height', lo=0.1, hi=9)
    if t.symbolic:
        # some component of a unit vector is at least 1/sqrt(3), and x z at least 0.09
        lo = t.val(1) / 100
        t.assume(t.or_(*[c for q in R[2] for c in (t.gt(x * z * q, lo), t.lt(x * z * q, -lo))]))
    f2 = t.add(e, t.smul(x, R[0]))
    f3 = t.add(e, [y * a + z * b for a, b in zip(R[0], R[1])])
    p2, p3 = t.track(t.array(f2), 'p2'), t.track(t.array(f3), 'p3')
    low = [e, f2, f3]
    corners = low + [t.sub(c, t.smul(h, R[2])) for c in low]
    solid(t, lambda u: f(p1, p2, p3, h, ret_unique_vertices_and_faces=u), corners, x * z * h / 2, 'triangular prism')
    t.check_eq(f(p1, p2, p3, h), t.rows(f(p1, p2, p3, h, ret_unique_vertices_and_faces=False)), 'flattened by default')
    t.check_unmutated()


@case('C26', 'horizontal plane', bounds='no inputs')
def horizontal(t):
    f = t.mod(SH).create_horizontal_plane
    V, F = f(ret_unique_vertices_and_faces=True)
    v = t.rows(V)
    for p in v:
        t.check(t.eq(p[1], 0), 'every vertex has height 0')
    tris = [[v[int(i)] for i in g] for g in t.rows(t.np.asarray(F))]
    t.check_eq(f(), tris, 'flattened vertices are the faces')
    for g in tris:
        n = tri(t, g)
        t.check(t.and_(t.eq(n[0], 0), t.eq(n[2], 0), t.gt(n[1] * n[1], 0)), 'triangles are not degenerate')
    n0, n1 = tri(t, tris[0]), tri(t, tris[1])
    ids = [[int(i) for i in g] for g in t.rows(t.np.asarray(F))]
    t.check(len(v) == 4 and len(ids) == 2, 'two triangles, four vertices')
    edges = [(g[i], g[(i + 1) % 3]) for g in ids for i in range(3)]
    rim = [e for e in edges if e[::-1] not in edges]
    t.check(len(set(edges)) == 6 and len(rim) == 4 and sorted(a for a, _ in rim) == [0, 1, 2, 3],
            'the triangles have one side in common, and make up a quadrilateral')
    t.check(t.gt(t.dot(n0, n1), 0), 'both face the same way')


@case('C26', 'normals of many triangles', bounds='70 and 300 triangles, all but one of them fixed')
def normals_long(t):
    f = t.mod(SN).surface_normal
    n, at = t.choice('triangles', LONG)
    es = [long_stack(t, k, n, at, seed=7 * i)[1] for i, k in enumerate('abc')]
    rows = [list(x) for x in zip(*es)]
    p = t.track(t.array(rows), 'p')
    ns = [tri(t, r) for r in rows]
    t.assume(t.gt(t.norm2(ns[at]), t.val(1) / 100))
    r = f(p, normalize=False)
    t.check(r.shape == (n, 3), 'one normal per triangle')
    t.check_eq(r, ns, 'the cross product of the edges', 1e5)
    ok = [i for i in range(n) if i == at or any(ns[i])]
    g = t.rows(f(p))
    for i in ok:
        t.check_eq(t.smul(t.norm(ns[i]), g[i]), ns[i], 'unit normal by the right hand rule', 1e5)
    t.check_unmutated()


@case('C26', 'triangles of any size', bounds='any two triangles, all lengths multiplied by 2^-30 or 2^30')
def normals_sizes(t):
    f = t.mod(SN).surface_normal
    s = t.choice('size', SIZES)
    e = t.rows(t.ex(t.arr('p', (2, 3, 3), lo=-9, hi=9)))
    ns = [tri(t, r) for r in e]
    for n in ns:
        t.assume(t.gt(t.norm2(n), t.val(1) / 10000))
    p = t.track(t.array(resized(t, e, s)), 'p')
    for g, n in zip(t.rows(f(p)), ns):
        unit_along(t, g, n, 'unit normal by the right hand rule')
    unit_along(t, t.rows(f(p[0])), ns[0], 'unit normal by the right hand rule')
    t.check_eq(resized(t, t.rows(f(p, normalize=False)), 1 / s / s), ns, 'the cross product of the edges', 1000)
    t.check_unmutated()


@case('C26', 'fixed triangles of any size', bounds='three triangles, anywhere, all lengths multiplied by 2^-40, 2^-30, 2^-20 or 2^30')
def normals_fixed_sizes(t):
    f = t.mod(SN).surface_normal
    s = t.choice('size', [2.0 ** -40, 2.0 ** -30, 2.0 ** -20, 2.0 ** 30])
    tris = [[[0, 0, 0], [3, 1, 0], [-1, 2, 5]], [[0, 0, 0], [7, -3, 2], [4, 1, -9]], [[0, 0, 0], [1, 0, 0], [0, 1, 0]]]
    o = t.rows(t.ints('o', 3, -9, 9))
    e = [[t.add(o, [t.val(x) for x in q]) for q in r] for r in tris]
    p = t.track(t.array(resized(t, e, s)), 'p')
    for g, r in zip(t.rows(f(p)), tris):
        unit_along(t, g, tri(t, [[t.val(x) for x in q] for q in r]), 'unit normal by the right hand rule')
    t.check_unmutated()


changing('C26', ('surface_normal', lambda t, a: t.mod('blmath.geometry.surface_normals').surface_normal(a), [[[0, 0, 0], [1, 0, 0], [0, 1, 1]]],
                 lambda t, a: apart(t, t.sub(a[1], a[0]), t.sub(a[2], a[0]))))


@case('C26', 'solids of any size', bounds='a prism and a cube of any sizes, a triangular prism of a fixed base and any height; all lengths '
      'multiplied by 2^-30 or 2^30')
def solids_sizes(t):
    m = t.mod(SH)
    s = t.choice('size', SIZES)
    kind = t.choice('solid', ['prism', 'cube', 'triangular'])
    a = [t.val(1), t.val(-2), t.val(3)]
    h = t.real('h', lo=0.1, hi=9)
    o = t.array(resized(t, a, s))
    if kind == 'prism':
        z = [t.real('x', lo=0.1, hi=9), t.real('y', lo=0.1, hi=9), h]
        g = lambda u: m.create_rectangular_prism(o, t.array(resized(t, z, s)), ret_unique_vertices_and_faces=u)
        vol = z[0] * z[1] * z[2]
    elif kind == 'cube':
        z = [h, h, h]
        g = lambda u: m.create_cube(o, h * s if t.symbolic else float(h * s), ret_unique_vertices_and_faces=u)
        vol = h * h * h
    if kind == 'triangular':
        low = [[0, 0, 0], [2, 0, 0], [0, 0, 2]]
        tr = [t.array(resized(t, [t.val(x) for x in p], s)) for p in low]
        g = lambda u: m.create_triangular_prism(*(tr + [h * s if t.symbolic else float(h * s)]), ret_unique_vertices_and_faces=u)
        corners = [[t.val(x), y, t.val(z)] for x, _, z in low for y in (t.val(0), h)]
        vol = 2 * h
    else:
        corners = [[a[0] + i * z[0], a[1] + j * z[1], a[2] + k * z[2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)]

    def make(u):
        r = g(u)
        return (t.array(resized(t, t.rows(r[0]), 1 / s)), r[1]) if u else t.array(resized(t, t.rows(r), 1 / s))
    solid(t, make, corners, vol, kind)
