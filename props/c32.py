"""C32: applying a correspondence."""
from fractions import Fraction

from symx.harness import case
from props.c01 import papply

CO = 'blmath.geometry.transform.correspondence'
KINDS = ['src', 'dst', 'vertices']


SOURCES = [[[0, 0, 0], [2, 0, 1], [0, 3, 0], [1, 1, 2]], [[1, 2, 0], [0, 0, 0], [3, -1, 1], [-2, 0, 4]]]


def source(t):
    v = t.track(t.array([[t.val(Fraction(x)) for x in r] for r in t.choice('src', SOURCES)]), 'src')
    return v, t.rows(t.ex(v))


def wrapped(t, lazy, **kw):
    ch = t.lib('chumpy')
    return dict((k, ch.Ch(v) if k in lazy else v) for k, v in kw.items())


def value(x):
    return x.r if hasattr(x, 'r') else x


@case('C32', 'points move as the vertices do', bounds='two sets of 4 vertices, 1 to 2 points anywhere, any affine motion; every choice of chumpy arguments')
def moved(t):
    ch = t.lib('chumpy')
    fn = t.mod(CO).apply_correspondence
    lazy = t.choice('lazy', [[], ['src'], ['dst'], ['vertices'], ['src', 'dst'], ['src', 'vertices'], ['dst', 'vertices'], KINDS])
    n = t.choice('n', [1, 2])
    src, r = source(t)
    dst = t.arr('dst', (n, 3), lo=-3, hi=3)
    A = t.rows(t.ex(t.arr('A', (3, 4), lo=-3, hi=3)))
    q = t.rows(t.ex(dst))
    vertices = t.track(t.array([papply(t, A, x) for x in r]), 'vertices')
    w = wrapped(t, lazy, src=src, dst=dst, vertices=vertices)
    out = fn(w['src'], w['dst'], w['vertices'])
    t.check(isinstance(out, ch.Ch) == bool(lazy), 'an expression if and only if one of the arguments is one')
    t.check_eq(value(out), [papply(t, A, x) for x in q], 'the points moved as the vertices did', 1000)
    named = fn(vertices=w['src'], correspondence_dst=w['dst'], correspondence_src=w['src'])
    t.check_eq(value(named), q, 'with the source vertices themselves the points are as they were', 1000)
    t.check_unmutated()


@case('C32', 'expressions follow their arguments', bounds='two sets of 4 vertices, any point, any shift; each argument changed once')
def updated(t):
    ch = t.lib('chumpy')
    fn = t.mod(CO).apply_correspondence
    src, r = source(t)
    dst = t.arr('dst', (1, 3), lo=-3, hi=3)
    q = t.rows(t.ex(dst))[0]
    w = wrapped(t, KINDS, src=src, dst=dst, vertices=src)
    out = fn(w['src'], w['dst'], w['vertices'])
    t.check_eq(out.r, [q], 'at first the point itself', 1000)
    d = t.vec('d', lo=-3, hi=3)
    e = t.rows(t.ex(d))
    which = t.choice('which', ['vertices', 'dst', 'all'])
    shift = t.array([e] * 4)
    if which in ('vertices', 'all'):
        w['vertices'][:] = src + shift
    if which in ('dst', 'all'):
        w['dst'][:] = dst + t.array([e])
    if which == 'all':
        w['src'][:] = src + shift
    t.check_eq(out.r, [[x + y for x, y in zip(q, e)]], 'the point follows', 1000)


@case('C32', 'arguments changed in place between two calls', bounds='two sets of 4 vertices, any point, any affine motion; source, destination or vertices changed')
def again(t):
    fn = t.mod(CO).apply_correspondence
    first, _ = source(t)
    a = t.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    d = t.array([[1, 1, 1]])
    v = t.array([[1, 0, 0], [2, 0, 0], [1, 1, 0], [1, 0, 1]])
    t.check_eq(fn(a, d, v), [[2, 1, 1]], 'the points moved as the vertices did', 1000)
    dst = t.arr('dst', (1, 3), lo=-3, hi=3)
    A = t.rows(t.ex(t.arr('A', (3, 4), lo=-3, hi=3)))
    q = t.rows(t.ex(dst))
    r = t.rows(t.ex(first))
    a[...] = first
    d[...] = dst
    v[...] = t.array([papply(t, A, x) for x in r])
    t.check_eq(fn(a, d, v), [papply(t, A, x) for x in q], 'the points moved as the vertices did, for the contents of the arguments now', 1000)
