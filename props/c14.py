"""C14: polyline against plane."""
from symx.harness import case, plane, fixed_rows
from props.c12 import edges, structure

PO = 'blmath.geometry.primitives.polyline'


AXES = [[0, 0, 2], [-1, 0, 0], [0, 4, 0]]


def setup(t, n, closed, ints=False):
    P = t.mod(PO).Polyline
    if ints:
        # exact in floating point: axis-parallel plane, integer coordinates
        Plane = t.mod('blmath.geometry.primitives.plane').Plane
        t.on_grid()
        ax = t.choice('axis', AXES)
        p = t.ints('p', 3, -4, 4)
        pl, p0, nrm = Plane(p, t.array(ax)), t.rows(p), [(x > 0) - (x < 0) for x in ax]
        v = t.ints('v', (n, 3), -4, 4)
    else:
        pl, p0, nrm = plane(t)
        v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    d = [t.dot(nrm, t.sub(r, p0)) for r in rows]
    return P(v, closed=closed), pl, rows, d


def side(t, x):
    """-1, 0, 1 (forks the path)."""
    if t.branch(t.gt(x, 0)):
        return 1
    return -1 if t.branch(t.lt(x, 0)) else 0


def crossing(t, a, b, da, db):
    return [x + (y - x) * da / (da - db) for x, y in zip(a, b)]


def meet(n, closed, s):
    return [k for k, (i, j) in enumerate(edges(n, closed)) if not (s[i] == s[j] and s[i] != 0)]


def isect(name, n, closed, tier='quick', ints=False):
    @case('C14', 'intersections: ' + name, tier=tier,
          bounds='%s, any plane; vertices on the plane and edges inside it allowed' % name)
    def f(t):
        p, pl, rows, d = setup(t, n, closed, ints)
        s = [side(t, x) for x in d]
        es = edges(n, closed)
        ks = meet(n, closed, s)
        inside = [s[es[k][0]] == 0 and s[es[k][1]] == 0 for k in ks]
        pts, idx = p.intersect_plane(pl, ret_edge_indices=True)
        t.check(pts.shape == (len(ks), 3), 'one point per edge that meets the plane')
        t.check(idx.tolist() == ks, 'the edges that meet the plane, in order')
        only = p.intersect_plane(pl)
        again = pl.polyline_xsection(p)
        t.check(only.shape == again.shape == (len(ks), 3), 'same points without indices')
        for k, x, y, z, ins in zip(ks, t.rows(pts), t.rows(only), t.rows(again), inside):
            a, b = rows[es[k][0]], rows[es[k][1]]
            if not ins:
                ref = crossing(t, a, b, d[es[k][0]], d[es[k][1]])
                t.check_eq(x, ref, 'the point where the edge meets the plane', 100)
            else:
                e = t.sub(b, a)
                t.check_eq(t.cross(t.sub(x, a), e), [0, 0, 0], 'a point of an edge inside the plane', 100)
                for lo, hi in ((a, x), (x, b)):
                    t.check(t.ge(t.dot(t.sub(hi, lo), e), 0), 'a point of an edge inside the plane')
                t.check(t.and_(*[t.isfinite(q) for q in x]), 'a point of an edge inside the plane')
                ref = x
            t.check_eq(y, ref, 'same points without indices', 100)
            t.check_eq(z, ref, 'the plane method agrees', 100)
        structure(t, p, rows, closed, 'polyline unchanged')
        t.check_unmutated()
    return f


isect('open, 2 vertices', 2, False)
isect('open, 3 vertices', 3, False)
isect('closed, 3 vertices', 3, True)
isect('open, 4 vertices', 4, False)
isect('open, 3 vertices, integer grid', 3, False, ints=True)
isect('closed, 3 vertices, integer grid', 3, True, ints=True)
isect('closed, 4 vertices', 4, True, tier='thorough')
isect('open, 5 vertices', 5, False, tier='thorough')


def cut(name, n, closed, tier='quick', deadline=None, ints=False):
    @case('C14', 'cut: ' + name, tier=tier, deadline=deadline,
          bounds='%s, any plane; %s' % (name, 'no vertex on the plane' if closed else 'no edge inside the plane'))
    def f(t):
        p, pl, rows, d = setup(t, n, closed, ints)
        s = [side(t, x) for x in d]
        es = edges(n, closed)
        for i, j in es:
            if s[i] == 0 and s[j] == 0:
                return
        ks = meet(n, closed, s)
        if len(ks) != (2 if closed else 1):
            t.check(t.raises(lambda: p.cut_by_plane(pl), ValueError),
                    'a plane that does not meet the polyline the expected number of times raises ValueError')
            return
        if closed and 0 in s:
            return
        r = p.cut_by_plane(pl)
        x = [crossing(t, rows[es[k][0]], rows[es[k][1]], d[es[k][0]], d[es[k][1]]) for k in ks]
        if not closed:
            i, j = es[ks[0]]
            ref = [x[0]] + rows[j:] if s[j] > s[i] else rows[:i + 1] + [x[0]]
        else:
            # the crossing that goes from back to front starts the part that is kept
            a, b = (0, 1) if s[es[ks[0]][1]] > 0 else (1, 0)
            k = es[ks[a]][1]
            ref = [x[a]]
            while s[k] > 0:
                ref.append(rows[k])
                k = (k + 1) % n
            ref.append(x[b])
        t.check(r is not p, 'a new polyline')
        t.check(r.closed is False, 'the result is open')
        t.check_eq(r.v, ref, 'the part in front of the plane, in order, ending at the plane', 100)
        structure(t, p, rows, closed, 'the polyline is unchanged')
        t.check_unmutated()
    return f


cut('open, 2 vertices', 2, False)
cut('open, 3 vertices', 3, False)
cut('open, 4 vertices', 4, False)
cut('closed, 3 vertices', 3, True)
cut('closed, 4 vertices', 4, True, deadline=(100, 600))
cut('open, 3 vertices, integer grid', 3, False, ints=True)
cut('closed, 4 vertices, integer grid', 4, True, ints=True)
cut('closed, 5 vertices', 5, True, tier='thorough')
cut('open, 5 vertices', 5, False, tier='thorough')


@case('C14', 'long polylines', bounds='64 and 200 vertices, all but one of them fixed, open and closed, two planes')
def long_lines(t):
    P, Plane = t.mod(PO).Polyline, t.mod('blmath.geometry.primitives.plane').Plane
    n, at = t.choice('vertices', [(64, 40), (200, 3), (200, 197)])
    closed = t.flag('closed')
    rows = fixed_rows(n)
    # z rises from below the plane and, when closed, falls again in the last part
    z = [(i if not closed or i < n - 20 else (n - 20) * (n - i) // 21) - n // 2 for i in range(n)]
    rows = [[r[0], r[1], t.val(k) + t.val(1) / 3] for r, k in zip(rows, z)]
    rows[at] = [t.real('v%d' % j, lo=-300, hi=300) for j in range(3)]
    v = t.track(t.array(rows), 'v')
    rows = t.rows(t.ex(v))
    k = t.choice('direction', [2, -3])
    pl = Plane(t.array([5, 7, 0]), t.array([0, 0, k]))
    p = P(v, closed=closed)
    d = [r[2] * (1 if k > 0 else -1) for r in rows]
    s = [side(t, x) for x in d]
    if 0 in s:
        return
    es = edges(n, closed)
    ks = meet(n, closed, s)
    ref = [crossing(t, rows[es[q][0]], rows[es[q][1]], d[es[q][0]], d[es[q][1]]) for q in ks]
    pts, idx = p.intersect_plane(pl, ret_edge_indices=True)
    t.check(idx.tolist() == ks, 'the edges that meet the plane, in order')
    t.check_eq(pts, ref, 'the point where the edge meets the plane', 1000)
    if len(ks) != (2 if closed else 1):
        t.check(t.raises(lambda: p.cut_by_plane(pl), ValueError), 'more crossings are refused')
        return
    r = p.cut_by_plane(pl)
    if not closed:
        i, j = es[ks[0]]
        want = [ref[0]] + rows[j:] if s[j] > s[i] else rows[:i + 1] + [ref[0]]
    else:
        a, b = (0, 1) if s[es[ks[0]][1]] > 0 else (1, 0)
        q = es[ks[a]][1]
        want = [ref[a]]
        while s[q] > 0:
            want.append(rows[q])
            q = (q + 1) % n
        want.append(ref[b])
    t.check(r.closed is False, 'the result is open')
    t.check_eq(r.v, want, 'the part in front of the plane, in order, ending at the plane', 1000)
    t.check_unmutated()


@case('C14', 'no edges', bounds='empty polylines made in five ways, and one vertex off the plane, open and closed, any plane')
def none(t):
    from props.c12 import nothing
    closed = t.flag('closed')
    one = t.flag('one vertex')
    pl, p0, nrm = plane(t)
    v = t.arr('o', (1, 3))
    p = t.mod(PO).Polyline(v, closed=closed) if one else nothing(t, closed)
    if one:
        d = t.dot(nrm, t.sub(t.rows(t.ex(v))[0], p0))
        if side(t, d) == 0:
            return
    pts, idx = p.intersect_plane(pl, ret_edge_indices=True)
    t.check(pts.shape == (0, 3) and idx.shape == (0,), 'no points, no edges')
    t.check(p.intersect_plane(pl).shape == (0, 3), 'no points')
    t.check(t.raises(lambda: p.cut_by_plane(pl), ValueError), 'ValueError where the plane does not meet the polyline')
    t.check(len(p) == (1 if one else 0), 'polyline unchanged')
