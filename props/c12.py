"""C12: Polyline structure."""
import numpy as np

from symx.harness import SIZES, case, fixed_rows, long_stack, resized

PO = 'blmath.geometry.primitives.polyline'


def edges(n, closed):
    if n == 0:
        return []
    e = [[i, i + 1] for i in range(n - 1)]
    return e + [[n - 1, 0]] if closed else e


def structure(t, p, rows, closed, what):
    """p must be the chain over rows."""
    n = len(rows)
    t.check(len(p) == n, what + ': len is the number of vertices')
    t.check(p.closed == closed, what + ': closed flag')
    t.check(p.v.shape == (n, 3) and p.v.dtype == t.np.float64, what + ': float vertices, n x 3')
    t.check_eq(p.v, rows, what + ': vertices') if n else None
    e = edges(n, closed)
    t.check(p.e.shape == (len(e), 2), what + ': number of edges')
    t.check(p.e.tolist() == e, what + ': edges join consecutive vertices, plus the closing edge')


def lengths(t, p, rows, closed):
    e = edges(len(rows), closed)
    L = t.rows(p.segment_lengths)
    t.check(len(L) == len(e), 'one length per edge')
    tot = 0
    for (i, j), l in zip(e, L):
        d2 = t.norm2(t.sub(rows[j], rows[i]))
        t.check(t.and_(t.ge(l, 0), t.eq(l * l, d2, d2)), 'segment length is the distance between its ends')
        tot = tot + l
    t.check(t.eq(p.total_length, tot), 'total length is the sum')
    if e:
        t.check_eq(p.segments, [[rows[i], rows[j]] for i, j in e], 'segments are coordinate pairs')
        t.check_eq(p.segment_vectors, [t.sub(rows[j], rows[i]) for i, j in e], 'segment vectors')


@case('C12', 'edges and lengths', bounds='1 to 5 vertices (7 thorough), open and closed, repeated vertices included')
def basic(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', range(1, t.n(5, 7) + 1))
    closed = t.flag('closed')
    v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    p = P(v, closed=closed)
    structure(t, p, rows, closed, 'new')
    lengths(t, p, rows, closed)
    t.scribble(p.segments, p.segment_vectors, p.segment_lengths)
    structure(t, p, rows, closed, 'read again')
    lengths(t, p, rows, closed)
    t.check_unmutated()


@case('C12', 'input kinds', bounds='lists, integer arrays, 3 x n arrays, empty input, wrong shapes')
def kinds(t):
    P = t.mod(PO).Polyline
    closed = t.flag('closed')
    kind = t.choice('kind', ['list', 'int', 'transposed', 'none', 'empty', 'bad', 'nan', 'single'])
    if kind == 'list':
        v = t.arr('v', (2, 3))
        structure(t, P([list(r) for r in t.rows(v)], closed=closed), t.rows(v), closed, 'list')
    elif kind == 'int':
        v = t.ints('v', (4, 3), -5, 5)
        p = P(v, closed=closed)
        structure(t, p, t.rows(v), closed, 'integers')
        lengths(t, p, t.rows(t.ex(v)), closed)
    elif kind == 'single':
        p = P(np.array([[0, 0, 0], [0.1, 0, 0], [0.1, 0.7, 0]], dtype=np.float32), closed=closed)
        t.check(np.asarray(p.v).dtype in (np.float64, object), 'single precision becomes double')
        p.v = np.array([[0, 0, 0], [0.1, 0, 0]], dtype=np.float32)
        t.check(np.asarray(p.v).dtype in (np.float64, object), 'single precision becomes double')
    elif kind == 'transposed':
        v = t.arr('v', (3, 4))
        structure(t, P(v, closed=closed), [list(c) for c in zip(*t.rows(v))], closed, '3 x n input is transposed')
    elif kind == 'none':
        p = P(None, closed=closed)
        t.check(p.v is None and p.e is None and len(p) == 0, 'None makes an empty polyline')
        t.check(p.segment_lengths.shape == (0,), 'with no segment lengths')
        t.check(t.eq(p.total_length, 0), 'and total length 0')
        t.check(p.copy().v is None, 'its copy is empty')
        p.v = t.arr('v', (2, 3))
        structure(t, p, t.rows(p.v), closed, 'after setting vertices')
        p.v = None
        t.check(p.v is None and p.e is None and len(p) == 0, 'setting None empties it again')
    elif kind == 'empty':
        p = P(t.np.zeros((0, 3)), closed=closed)
        t.check(len(p) == 0 and p.e.shape == (0, 2), 'no vertices, no edges')
        t.check(t.eq(p.total_length, 0), 'total length 0')
    elif kind == 'bad':
        shape = t.choice('shape', [(3,), (2, 2), (4, 2), (2, 4), (2, 3, 3)])
        t.check(t.raises(lambda: P(t.np.zeros(shape), closed=closed), ValueError), 'other shapes raise ValueError')
    else:
        t.check(t.raises(lambda: P(t.np.array([[0., 1., float('nan')]]), closed=closed), ValueError),
                'NaN vertices raise ValueError')


@case('C12', 'copies are independent', bounds='1 to 3 vertices, open and closed')
def copies(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', [1, 2, 3])
    closed = t.flag('closed')
    v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    p = P(v, closed=closed)
    c = p.copy()
    t.check(type(c) is type(p) and c is not p, 'copy is a new polyline')
    structure(t, c, rows, closed, 'copy')
    c.v[0, 0] = c.v[0, 0] + 1
    t.check_eq(p.v, rows, 'changing the copy in place leaves the original alone')
    c.closed = not closed
    c.v = t.array([[9, 9, 9]] * (n + 1))
    structure(t, p, rows, closed, 'original after setting the copy')
    t.check(t.raises(lambda: p.e.__setitem__((0, 0), 5), ValueError) if len(edges(n, closed)) else True,
            'edges are read-only')


OPS = ['flip', 'close', 'open', 'set', 'copy', 'roll', 'poke', 'empty']


def history(name, nops, tier='quick', ops=OPS):
    @case('C12', name, tier=tier, bounds='every sequence of %d operations out of %s, 3 vertices' % (nops, ', '.join(ops)))
    def hist(t):
        P = t.mod(PO).Polyline
        n = 3
        closed = t.flag('closed')
        v = t.arr('v', (n, 3))
        rows = t.rows(t.ex(v))
        p = P(v.copy(), closed=closed)
        lengths(t, p, rows, closed)
        for i in range(nops):
            op = t.choice('op%d' % i, ops)
            if op == 'flip':
                p.flip()
                rows = rows[::-1]
            elif op == 'close':
                p.closed = closed = True
            elif op == 'open':
                p.closed = closed = False
            elif op == 'set':
                w = t.arr('w%d' % i, (2 + i % 2, 3))
                p.v = w
                rows = t.rows(t.ex(w))
            elif op == 'copy':
                q = p.copy()
                q.flip()
                q.closed = not closed
                if t.flag('go on with the copy%d' % i):
                    p, rows, closed = q, rows[::-1], not closed
            elif op == 'poke':
                k = t.choice('vertex%d' % i, range(len(rows)))
                x = t.real('x%d' % i)
                p.v[k, 1] = x
                rows = [list(r) for r in rows]
                rows[k][1] = t.ex(x)
            elif op == 'empty':
                p.v = None
                rows = []
                t.check(p.v is None and p.e is None and len(p) == 0, 'setting None empties it')
                t.check(p.segment_lengths.shape == (0,), 'no lengths')
                w = t.arr('w%d' % i, (2, 3))
                p.v = w
                rows = t.rows(t.ex(w))
            elif op == 'roll':
                if not closed:
                    t.check(t.raises(lambda: p.reindexed(0), ValueError), 'reindexing an open polyline raises ValueError')
                    continue
                p = p.reindexed(1)
                rows = rows[1:] + rows[:1]
            structure(t, p, rows, closed, 'after a sequence of operations')
            lengths(t, p, rows, closed)
    return hist


history('histories of two operations', 2)
history('histories of four operations', 4, tier='thorough', ops=['flip', 'close', 'open', 'set', 'roll'])


@case('C12', 'reindexing', bounds='closed polylines of 1 to 5 vertices (7 thorough), every start index')
def reindex(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', range(1, t.n(5, 7) + 1))
    i = t.choice('index', range(n))
    v = t.arr('v', (n, 3))
    rows = t.rows(t.ex(v))
    p = P(v, closed=True)
    ref = rows[i:] + rows[:i]
    q = p.reindexed(i)
    structure(t, q, ref, True, 'reindexed')
    q2, m = p.reindexed(i, ret_edge_mapping=True)
    structure(t, q2, ref, True, 'reindexed')
    t.check(m.shape == (n,), 'one mapping entry per edge')
    t.check_eq(q2.segments, [t.rows(t.ex(p.segments))[k] for k in m.tolist()], 'the mapping names the old edge of every new edge')
    structure(t, p, rows, True, 'the callee is unchanged')
    t.check(t.raises(lambda: P(v, closed=False).reindexed(i), ValueError), 'open polylines raise ValueError')
    t.check_unmutated()


@case('C12', 'apex of a polyline', bounds='1 to 4 vertices, open and closed, any axis')
def apex(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', range(1, 5))
    v = t.arr('v', (n, 3))
    ax = t.vec('axis')
    p = P(v, closed=t.flag('closed'))
    a = t.rows(t.ex(p.apex(ax)))
    rows = t.rows(t.ex(v))
    e = t.rows(t.ex(ax))
    t.check(t.or_(*[t.eqs(a, r) for r in rows]), 'the apex is a vertex')
    for r in rows:
        t.check(t.ge(t.dot(a, e), t.dot(r, e)), 'no vertex lies further along the axis')
    t.check_unmutated()


@case('C12', 'to_dict', bounds='1 to 2 vertices, any coordinates, decimals 0 to 3')
def to_dict(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', [1, 2])
    closed = t.flag('closed')
    v = t.arr('v', (n, 3))
    k = t.choice('decimals', [0, 1, 3])
    d = P(v, closed=closed).to_dict(decimals=k)
    t.check(sorted(d) == ['edges', 'vertices'], 'vertices and edges')
    t.check(d['edges'].tolist() == edges(n, closed), 'the edges')
    t.check(isinstance(d['vertices'], list) and all(type(r) is list for r in d['vertices']), 'vertices as lists')
    for x, y in zip(t._flat(d['vertices']), t._flat(t.rows(v))):
        t.check(t.near(x, y, 0.500001 * 10 ** -k), 'coordinates rounded to the decimals asked for')


@case('C12', 'lines and description', bounds='0 to 3 vertices, open and closed')
def lines(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', [0, 1, 2, 3])
    closed = t.flag('closed')
    v = t.arr('v', (n, 3)) if n else None
    p = P(v, closed=closed)
    L = p.as_lines(vc='red')
    t.check(type(L).__name__ == 'Lines' and L.vc == 'red' and not L.other, 'lines in the color asked for')
    if n:
        t.check_eq(L.v, v, 'through the vertices')
        t.check(L.e.tolist() == edges(n, closed), 'along the edges')
        t.check(repr(p) == '<%s Polyline with %d verts>' % ('closed' if closed else 'open', n), 'described by kind and size')
    else:
        t.check(L.v is None and L.e is None, 'nothing in it')
        t.check(repr(p) == '<Polyline with no verts>', 'described as empty')
    t.check_unmutated()


@case('C12', 'histories with subdividing', bounds='a polyline of 2 or 3 vertices on a line at any place, subdivided once or twice, with every '
      'one of six operations before, between and after')
def subdividing(t):
    P = t.mod(PO).Polyline
    closed = t.flag('closed')
    o = t.rows(t.ex(t.vec('o', lo=-10, hi=10)))
    m = t.choice('vertices', [2, 3])
    rows = [t.add(o, [2 * k, 0, 0]) for k in range(m)]
    p = P(t.array(rows), closed=closed)
    n = 0
    for i in range(3):
        op = t.choice('op%d' % i, ['split', 'flip', 'close', 'open', 'copy', 'roll', 'set'])
        if op == 'split':
            n += 1
            lim = [1.25, 0.625, 0.3][n - 1]
            new = []
            for a, b in edges(len(rows), closed):
                d = sum((t.abs(y - x) for x, y in zip(rows[a], rows[b])), t.val(0))
                k = 1
                while t.branch(t.gt(d, k * t.val(lim))):
                    k += 1
                new += [[x + (y - x) * j / k for x, y in zip(rows[a], rows[b])] for j in range(k)]
            if not closed:
                new.append(rows[-1])
            p.partition_by_length(lim)
            rows = new
        elif op == 'flip':
            p.flip()
            rows = rows[::-1]
        elif op in ('close', 'open'):
            p.closed = closed = op == 'close'
        elif op == 'copy':
            q = p
            p = p.copy()
            q.closed = not closed
            q.v = None
        elif op == 'roll' and closed:
            p = p.reindexed(1)
            rows = rows[1:] + rows[:1]
        elif op == 'set':
            rows = [t.add(o, [0, k, 0]) for k in (0, 1)]
            p.v = t.array(rows)
    structure(t, p, rows, closed, 'after a sequence of operations')
    lengths(t, p, rows, closed)


@case('C12', 'long polylines', bounds='70 and 300 vertices, all but one of them fixed, open and closed')
def long_lines(t):
    P = t.mod(PO).Polyline
    n, at = t.choice('vertices', [(70, 0), (300, 257)])
    closed = t.flag('closed')
    v, rows = long_stack(t, 'v', n, at)
    p = P(v, closed=closed)
    structure(t, p, rows, closed, 'new')
    L = t.rows(p.segment_lengths)
    e = edges(n, closed)
    t.check(len(L) == len(e), 'one length per edge')
    t.check_eq(L, [t.norm(t.sub(rows[j], rows[i])) for i, j in e], 'segment length is the distance between its ends')
    tot = t.val(0)
    for l in L:
        tot = tot + l
    t.check(t.eq(p.total_length, tot), 'total length is the sum')
    t.check_eq(p.segment_vectors, [t.sub(rows[j], rows[i]) for i, j in e], 'segment vectors')
    if closed:
        i = t.choice('index', [1, n - 1])
        q, m = p.reindexed(i, ret_edge_mapping=True)
        structure(t, q, rows[i:] + rows[:i], True, 'reindexed')
        t.check([int(x) for x in m] == list(range(i, n)) + list(range(i)), 'the mapping names the old edge of every new edge')
    c = p.copy()
    c.flip()
    structure(t, c, rows[::-1], closed, 'flipped copy')
    structure(t, p, rows, closed, 'the original')
    t.check_unmutated()


def nothing(t, closed):
    """An empty polyline, made in one of five ways."""
    P = t.mod(PO).Polyline
    how = t.choice('how', ['None', 'no rows', 'set to None', 'set to no rows', 'copy'])
    if how in ('None', 'copy'):
        p = P(None, closed=closed)
        p = p.copy() if how == 'copy' else p
    elif how == 'no rows':
        p = P(t.np.zeros((0, 3)), closed=closed)
    else:
        p = P(t.arr('v', (2, 3)), closed=closed)
        p.v = None if 'None' in how else t.np.zeros((0, 3))
    return p


@case('C12', 'empty polylines', bounds='no vertices, in five ways, open and closed')
def empty(t):
    closed = t.flag('closed')
    p = nothing(t, closed)
    for i in range(2):
        t.check(len(p) == 0 and p.closed == closed, 'no vertices')
        t.check(p.segments.shape == (0, 2, 3), 'no segments')
        t.check(p.segment_vectors.shape == (0, 3), 'no segment vectors')
        t.check(p.segment_lengths.shape == (0,), 'no segment lengths')
        t.check(t.eq(p.total_length, 0), 'no length')
        d = p.to_dict()
        t.check(d['vertices'] == [] and (d['edges'] is None or len(d['edges']) == 0), 'nothing in the description')
        p.flip()
    w = t.arr('w', (2, 3))
    p.v = w
    structure(t, p, t.rows(t.ex(w)), closed, 'after setting vertices')


@case('C12', 'the array given', bounds='two polylines of 2 or 3 vertices made from, or given, the same array; seven operations on one of them')
def given(t):
    P = t.mod(PO).Polyline
    n = t.choice('n', [2, 3])
    closed = t.flag('closed')
    v = t.arr('v', (n, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(v))
    if t.flag('assigned'):
        p, q = P(None, closed=closed), P(None, closed=closed)
        p.v, q.v = v, v
    else:
        p, q = P(v, closed=closed), P(v, closed=closed)
    op = t.choice('op', ['flip', 'close', 'open', 'copy', 'roll', 'split', 'empty'])
    if op == 'flip':
        p.flip()
    elif op in ('close', 'open'):
        p.closed = op == 'close'
        p.flip()
    elif op == 'copy':
        c = p.copy()
        c.v[0, 0] = c.v[0, 0] + 1
        c.flip()
    elif op == 'roll' and closed:
        c = p.reindexed(1)
        c.v[0, 0] = c.v[0, 0] + 1
        c.flip()
    elif op == 'split':
        p.partition_by_length(1000)
        p.v[0, 0] = p.v[0, 0] + 1
    elif op == 'empty':
        p.v = None
    structure(t, q, rows, closed, 'the other polyline')
    t.check_unmutated()


@case('C12', 'polylines of any size', bounds='3 and 6 vertices, all but at most one of them fixed; all lengths multiplied by 2^-30 or 2^30')
def sizes(t):
    s = t.choice('size', SIZES)
    n = t.choice('n', [3, 6])
    closed = t.flag('closed')
    rows = [[t.val(x) for x in r] for r in [[0, 0, 0], [2, 0, 0], [2, 3, 4], [4, 3, 4], [4, 0, 0], [0, 0, 0]][:n]]
    at = t.choice('at', [None, 0, n - 1])
    if at is not None:
        rows[at] = t.rows(t.ex(t.vec('v', lo=-10, hi=10)))
    p = t.mod(PO).Polyline(t.array(resized(t, rows, s)), closed=closed)
    e = edges(n, closed)
    L = resized(t, t.rows(p.segment_lengths), 1 / s)
    t.check(len(L) == len(e), 'one length per edge')
    want = [t.norm(t.sub(rows[j], rows[i])) for i, j in e]
    t.check_eq(L, want, 'segment length is the distance between its ends')
    tot = t.val(0)
    for l in want:
        tot = tot + l
    t.check(t.eq(t.ex(p.total_length) * (1 / s), tot), 'total length is the sum')
    t.check_eq(resized(t, t.rows(p.copy().v), 1 / s), rows, 'a copy has the same vertices')
