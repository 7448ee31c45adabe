"""C11: cross sections of meshes."""
from fractions import Fraction

from symx.harness import case, plane
from props.c14 import side, crossing

PL = 'blmath.geometry.primitives.plane'
AXES = [[0, 0, 2], [-1, 0, 0], [0, 4, 0]]
MESHES = {
    'triangle': (3, [(0, 1, 2)]),
    'two triangles': (4, [(0, 1, 2), (2, 1, 3)]),
    'two separate triangles': (6, [(0, 1, 2), (3, 5, 4)]),
    'tetrahedron': (4, [(0, 1, 2), (3, 1, 0), (3, 2, 1), (0, 2, 3)]),
    'open tetrahedron': (4, [(3, 1, 0), (3, 2, 1), (0, 2, 3)]),
    'square pyramid without base': (5, [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]),
    'octahedron': (6, [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (5, 2, 1), (5, 3, 2), (5, 4, 3), (5, 1, 4)]),
    'two tetrahedra': (8, [(0, 1, 2), (3, 1, 0), (3, 2, 1), (0, 2, 3), (4, 5, 6), (7, 5, 4), (7, 6, 5), (4, 6, 7)]),
}


class Mesh(object):
    def __init__(self, v, f):
        self.v, self.f = v, f


NORMAL = [2, 1, -2]


def build(t, name, ints, any_plane=False):
    n, faces = MESHES[name]
    big = n > 3 and not t.thorough
    k = t.choice('winding', [1, 3] if ints and big else [0, 1, 2, 3] if ints else [0])
    faces = [((a, b, c), (b, c, a), (c, a, b), (b, a, c))[k] for a, b, c in faces]
    if ints:
        Plane = t.mod(PL).Plane
        t.on_grid()
        ax = t.choice('axis', AXES[1:2] if big else AXES)
        p = t.ints('p', 3, -4, 4)
        pl, p0, nrm = Plane(p, t.array(ax)), t.rows(p), [(x > 0) - (x < 0) for x in ax]
        v = t.ints('v', (n, 3), -4, 4)
    elif any_plane:
        pl, p0, nrm = plane(t)
        v = t.arr('v', (n, 3))
    else:
        Plane = t.mod(PL).Plane
        p = t.vec('p')
        nrm = [Fraction(x, 3) for x in NORMAL]
        pl, p0 = Plane(p, t.array(NORMAL)), t.rows(t.ex(p))
        v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    d = [t.dot(nrm, t.sub(r, p0)) for r in rows]
    f = t.track(t.iarray(faces), 'faces')
    if n == 5 and not t.thorough:
        for i, j in sorted({tuple(sorted(e)) for a, b, c in faces for e in ((a, b), (b, c), (c, a))}):
            t.assume(t.not_(t.eq(d[i], d[j])))
    return pl, Mesh(v, f), faces, rows, d


def section(faces, s):
    """Reference: components of the section as lists of mesh edges -> [(edges, closed)], crossing faces."""
    cut = [f for f in faces if len({s[i] for i in f}) == 2]
    links = {}
    for f in cut:
        e = [tuple(sorted(p)) for p in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])) if s[p[0]] != s[p[1]]]
        for a, b in (e, e[::-1]):
            links.setdefault(a, []).append(b)
    out, seen = [], set()
    for start in sorted(links, key=lambda e: (len(links[e]), e)):       # ends of open chains first
        if start in seen:
            continue
        chain = [start]
        seen.add(start)
        while True:
            nxt = [e for e in links[chain[-1]] if e not in seen]
            if not nxt:
                break
            chain.append(nxt[0])
            seen.add(nxt[0])
        out.append((chain, len(links[start]) == 2))
    return out, cut


def arrangements(chain, closed):
    if not closed:
        return [chain, chain[::-1]]
    n = len(chain)
    return [[c[(i + j) % n] for j in range(n)] for c in (chain, chain[::-1]) for i in range(n)]


def signs(t, d, want=None):
    s = [side(t, x) for x in d]
    t.assume(t.const(0 not in s))
    return s


def reference(t, faces, rows, d, s):
    comps, cut = section(faces, s)
    pts = {}
    for chain, closed in comps:
        for i, j in chain:
            pts[i, j] = crossing(t, rows[i], rows[j], d[i], d[j])
        if not closed:
            # the ends of an open section are different points (no degenerate triangles)
            t.assume(t.not_(t.eqs(pts[chain[0]], pts[chain[-1]])))
    return comps, cut, pts


def matches(t, poly, chain, closed, pts):
    """poly runs along chain, from either end (or anywhere, around a closed one)."""
    if poly.closed is not closed or poly.v.shape != (len(chain), 3):
        return t.const(False)
    v = t.rows(poly.v)
    return t.or_(*[t.eqs(v, [pts[e] for e in c], 100) for c in arrangements(chain, closed)])


def check_all(t, polys, comps, pts, label):
    t.check(isinstance(polys, list) and len(polys) == len(comps), label + ': one polyline per connected part')
    for chain, closed in comps:
        t.check(t.or_(*[matches(t, p, chain, closed, pts) for p in polys]),
                label + ': runs along the faces through every crossed edge once, closed where the mesh is')


def xsec(name, ints=False, tier='quick', deadline=None, any_plane=False):
    kind = ', integer grid' if ints else ', any plane' if any_plane else ''
    @case('C11', 'cross section: %s%s' % (name, kind), tier=tier, deadline=deadline,
          bounds='%s with any vertices off the plane, %s' %
          (name + (', no edge parallel to the plane,' if MESHES[name][0] == 5 and tier == 'quick' else ''), 'integer coordinates, axis-parallel plane, faces wound either way' if ints else
           'any plane' if any_plane else 'any plane with normal 2, 1, -2'))
    def f(t):
        pl, m, faces, rows, d = build(t, name, ints, any_plane)
        s = signs(t, d)
        comps, cut, pts = reference(t, faces, rows, d, s)
        got = pl.mesh_intersecting_faces(m)
        t.check([tuple(x) for x in got.tolist()] == cut, 'the faces with vertices on both sides')
        polys = pl.mesh_xsections(m)
        check_all(t, polys, comps, pts, 'section')
        one = pl.mesh_xsection(m)
        if not comps:
            t.check(one.v is None, 'empty polyline without an intersection')
        else:
            t.check(one.closed is True and one.v.shape == (sum(len(p.v) for p in polys), 3), 'all parts in one closed polyline')
            t.check_eq(one.v, [r for p in polys for r in t.rows(p.v)], 'all parts in one polyline', 100)
        t.check_unmutated()
    return f


for _n in ('triangle', 'two triangles', 'tetrahedron', 'open tetrahedron'):
    xsec(_n)
xsec('two separate triangles', deadline=(100, 600))
xsec('square pyramid without base', deadline=(100, 600))
xsec('octahedron', tier='thorough')
xsec('two tetrahedra', tier='thorough')
xsec('triangle', any_plane=True)
xsec('tetrahedron', any_plane=True, tier='thorough')
xsec('triangle', ints=True)
xsec('tetrahedron', ints=True)


def nearest(npts, tier='quick', deadline=None):
    @case('C11', 'neighborhood of %d points' % npts, tier=tier, deadline=deadline,
          bounds='a triangle, two triangles and a fan cut in two parts, ' +
          ('the second part moved by any vector in the plane, any neighborhood point' if npts == 1 else
           'any %d neighborhood points in the plane on one line' % npts))
    def f(t):
        Plane = t.mod(PL).Plane
        nm = t.choice('mesh', ['two separate triangles', 'square pyramid without base', 'triangle'])
        n, faces = MESHES[nm]
        o = [t.real('ox'), t.real('oy'), 0] if npts == 1 else [2, 1, 0]
        if nm == 'two separate triangles':
            base = [[0, 0, 0], [3, 1, 2], [0, 4, 3], [1, 0, 3], [0, 2, -1], [5, 0, 0]]
            move = (3, 4, 5)
        elif nm == 'triangle':
            base = [[0, 0, 0], [3, 1, 2], [0, 4, 3]]
            move = ()
        else:
            base = [[0, 0, 4], [3, 0, 0], [0, 3, 2], [-3, 0, 0], [0, -3, 2]]
            move = (3,)
        rows = [[t.val(Fraction(x)) + y for x, y in zip(r, o)] if i in move else [t.val(Fraction(x)) for x in r]
                for i, r in enumerate(base)]
        v = t.track(t.array(rows), 'vertices')
        rows = t.rows(t.ex(v))
        pl, m = Plane(t.array([7, 8, 1]), t.array([0, 0, 3])), Mesh(v, t.track(t.iarray(faces), 'faces'))
        d = [r[2] - 1 for r in rows]
        s = signs(t, d)
        comps, cut, pts = reference(t, faces, rows, d, s)
        nb = t.arr('nb', (npts, 3)) if npts == 1 else \
            t.track(t.array([[t.real('x%d' % i), 1, 1] for i in range(npts)]), 'neighborhood')
        q = t.rows(t.ex(nb))
        r = pl.mesh_xsections(m, neighborhood=nb)
        t.check(isinstance(r, list) and len(r) == 1, 'a single polyline')
        hits = [matches(t, r[0], c, cl, pts) for c, cl in comps]
        t.check(t.or_(*hits), 'one of the parts')

        def mean(chain):
            tot = 0
            for e in chain:
                ds = [t.norm2(t.sub(pts[e], x)) for x in q]
                m_ = ds[0]
                for y in ds[1:]:
                    m_ = y if t.branch(t.lt(y, m_)) else m_
                tot = tot + t.sqrt(m_)
            return tot / len(chain)
        ms = [mean(c) for c, _ in comps]
        for i, h in enumerate(hits):
            for j in range(len(comps)):
                if i != j:
                    t.check(t.or_(t.not_(h), hits[j], t.le(ms[i], ms[j])), 'the part closest to the neighborhood on average')
        one = pl.mesh_xsection(m, neighborhood=nb)
        t.check_eq(one.v, r[0].v, 'the single polyline is that part', 100)
        t.check_unmutated()
    return f


nearest(1)
nearest(2)


@case('C11', 'larger meshes', bounds='a tube of 40 (closed) or 39 (open) quadrilaterals around the plane and two more parts, 300 vertices most of '
      'them unused, any position of one vertex of the tube')
def larger(t):
    Plane = t.mod(PL).Plane
    n = 40
    closed = t.flag('closed')
    lo, hi = [(7 * i) % 297 for i in range(n)], [(7 * i + 3) % 297 for i in range(n)]
    rows = [[t.val(i % 13 - 6), t.val(i % 7 - 3), t.val(-1 - i % 4)] for i in range(300)]
    faces = []
    for i in range(n):
        x, y = (i, 3 * i) if i < n // 2 else (n - i, 50 + i)
        rows[lo[i]] = [t.val(x), t.val(y), t.val(-1)]
        rows[hi[i]] = [t.val(x), t.val(y), t.val(2)]
        j = (i + 1) % n
        if closed or j:
            faces += [(lo[i], lo[j], hi[i]), (hi[i], lo[j], hi[j])]
    rows[297], rows[298], rows[299] = [[t.val(x) for x in r] for r in ([100, 0, -1], [100, 5, 3], [104, 0, -2])]
    faces.insert(17, (297, 298, 299))
    faces.insert(31, (299, 297, 2))
    at = t.choice('moved', [lo[5], hi[29]])
    rows[at] = [t.real('m%s' % k, lo=-300, hi=300) for k in 'xyz']
    v = t.track(t.array(rows), 'vertices')
    rows = t.rows(t.ex(v))
    pl, m = Plane(t.array([1, 2, 0]), t.array([0, 0, 3])), Mesh(v, t.track(t.iarray(faces), 'faces'))
    d = [r[2] for r in rows]
    s = signs(t, d)
    comps, cut, pts = reference(t, faces, rows, d, s)
    got = pl.mesh_intersecting_faces(m)
    t.check(got.tolist() == [list(f) for f in cut], 'exactly the faces with vertices on both sides, in order')
    polys = pl.mesh_xsections(m)
    check_all(t, polys, comps, pts, 'section')
    one = pl.mesh_xsection(m)
    t.check(one.closed is True, 'all parts in one closed polyline')
    t.check_eq(one.v, [r for p in polys for r in t.rows(p.v)], 'all parts in one polyline', 100)
    t.check_unmutated()


def numbering(name, ks, size, tier='quick'):
    @case('C11', name, tier=tier, bounds='single triangles and pairs with a common vertex in a mesh of %d vertices, their numbers multiples of %s apart, '
          'any position of one vertex' % (size, ', '.join(map(str, ks))))
    def f(t):
        Plane = t.mod(PL).Plane
        rows = [[0, 0, -1]] * size
        faces = []
        for i, k in enumerate(ks):
            u = 10 + 20 * i
            v = k + 40 + 20 * i
            # two triangles which share no vertex, then two which share the second one
            faces += [(u, v, u + 2), (u + 1, v - k, u + 3), (u + 4, v + 4, u + 5), (v + 5, u + 4 + k, v + 4)]
        for i, f in reversed(list(enumerate(faces))):
            for j, w in enumerate(f):
                rows[w] = [10 * i + (3 * j) % 5, 7 * j - i, (2, -1, -3)[j] if i % 2 else (-2, 3, -1)[j]]
        assert len({w for f in faces for w in f}) == 11 * len(ks)
        at = t.choice('moved', [faces[0][1], faces[-1][0]])
        rows = [[t.val(x) for x in r] for r in rows]
        rows[at] = [t.real('m%s' % k, lo=-300, hi=300) for k in 'xyz']
        a = t.track(t.array(rows), 'vertices')
        rows = t.rows(t.ex(a))
        pl, m = Plane(t.array([1, 2, 0]), t.array([0, 0, 3])), Mesh(a, t.track(t.iarray(faces), 'faces'))
        d = [r[2] for r in rows]
        s = signs(t, d)
        comps, cut, pts = reference(t, faces, rows, d, s)
        got = pl.mesh_intersecting_faces(m)
        t.check(got.tolist() == [list(f) for f in cut], 'exactly the faces with vertices on both sides, in order')
        check_all(t, pl.mesh_xsections(m), comps, pts, 'section')
        t.check_unmutated()


numbering('numbers of vertices far apart', (256, 1000, 1024, 2048), 2300)
numbering('numbers of vertices very far apart', (10000, 65536), 66000, tier='thorough')
