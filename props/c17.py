"""C17: axis-aligned boxes."""
from fractions import Fraction

from symx.harness import case

BX = 'blmath.geometry.primitives.box'


def inputs(t):
    kind = t.choice('given as', ['array', 'list', 'integers', 'tuple', 'integer list'])
    if 'integer' in kind:
        o, s = t.ints('o', 3, -9, 9), t.ints('s', 3, 0, 9)
    else:
        o, s = t.vec('o'), t.vec('s', lo=0)
    a, b = t.rows(t.ex(o)), t.rows(t.ex(s))
    if 'list' in kind:
        o, s = [x for x in t.rows(o)], [x for x in t.rows(s)]
    elif kind == 'tuple':
        o, s = tuple(t.rows(o)), tuple(t.rows(s))
    return o, s, a, b


def measures(t, x, a, b):
    t.check_eq(t.np.asarray(x.origin), a, 'origin')
    t.check_eq(t.np.asarray(x.shape), b, 'shape')
    half = t.val(1) / 2
    for i, c in enumerate('xyz'):
        t.check(t.eq(getattr(x, 'min_' + c), a[i]), 'min_%s is the origin' % c)
        t.check(t.eq(getattr(x, 'max_' + c), a[i] + b[i]), 'max_%s is origin plus shape' % c)
        t.check(t.eq(getattr(x, 'mid_' + c), a[i] + b[i] * half), 'mid_%s is half way' % c)
    for i, n in enumerate(('width', 'height', 'depth')):
        t.check(t.eq(getattr(x, n), b[i]), n)
    t.check_eq(x.ranges, [[a[i], a[i] + b[i]] for i in range(3)], 'ranges are (min, max) per axis')
    t.check_eq(x.center_point, [a[i] + b[i] * half for i in range(3)], 'center point')
    t.check_eq(x.floor_point, [a[0] + b[0] * half, a[1], a[2] + b[2] * half], 'floor point: center of the bottom face')
    t.check(t.eq(x.volume, b[0] * b[1] * b[2]), 'volume')
    t.check(t.eq(x.surface_area, 2 * (b[0] * b[1] + b[1] * b[2] + b[0] * b[2])), 'surface area')


@case('C17', 'coordinates', bounds='any origin, any shape that is not negative; arrays, lists, tuples, integers')
def coords(t):
    o, s, a, b = inputs(t)
    x = t.mod(BX).Box(o, s)
    measures(t, x, a, b)
    t.check_unmutated()


class Scaled(object):
    """The measures of a box in a larger or smaller unit."""

    def __init__(self, box, unit):
        self.box, self.unit = box, unit

    def __getattr__(self, name):
        k = {'volume': 3, 'surface_area': 2}.get(name, 1)
        return getattr(self.box, name) * self.unit ** k


@case('C17', 'boxes of all sizes', bounds='origin and shape any numbers of at most 9 units, the unit 1e-12 or 1e12')
def scaled(t):
    u = t.choice('unit', [Fraction(1, 10 ** 12), Fraction(10 ** 12)])
    a = [t.real('a%d' % i, lo=-9, hi=9) for i in range(3)]
    b = [t.real('b%d' % i, lo=0, hi=9) for i in range(3)]
    x = t.mod(BX).Box(t.array([y * u for y in a]), t.array([y * u for y in b]))
    measures(t, Scaled(x, t.val(1 / u) if t.symbolic else float(1 / u)), a, b)


@case('C17', 'reading a box does not change it', bounds='any box, every property read, twice')
def pure(t):
    o, s, a, b = inputs(t)
    x = t.mod(BX).Box(o, s)
    names = ['ranges', 'center_point', 'floor_point', 'volume', 'surface_area', 'min_x', 'max_y', 'mid_z', 'depth']
    first = [t.rows(getattr(x, n)) for n in names]
    for n, v in zip(names, first):
        w = getattr(x, n)
        if isinstance(v, list):
            t.check_eq(w, v, n + ' reads the same again')
        else:
            t.check(t.eq(w, v), n + ' reads the same again')
    t.check_eq(t.np.asarray(x.origin), a, 'origin')
    t.check_eq(t.np.asarray(x.shape), b, 'shape')
    t.check_unmutated()


@case('C17', 'negative shapes are refused', bounds='any shape; the origin may be anything')
def negative(t):
    o, s = t.vec('o'), (t.ints('s', 3, -3, 3) if t.flag('integers') else t.vec('s'))
    e = t.rows(t.ex(s))
    k, v = t.outcome(lambda: t.mod(BX).Box(o, s))
    if t.branch(t.or_(*[t.lt(x, 0) for x in e])):
        t.check(k == 'raised' and isinstance(v, ValueError), 'a negative extent raises ValueError')
    else:
        t.check(k == 'ok', 'zero and positive extents are accepted')


@case('C17', 'wrong sizes are refused', bounds='origin or shape with 2, 4 or 3 x 1 entries, or None')
def sizes(t):
    bad = t.choice('bad', [(2,), (4,), (3, 1), (0,), None])
    x = None if bad is None else t.np.ones(bad)
    good = t.vec('g', lo=0)
    B = t.mod(BX).Box
    t.check(t.raises(lambda: B(x, good), ValueError), 'origin that is not three numbers')
    t.check(t.raises(lambda: B(good, x), ValueError), 'shape that is not three numbers')


@case('C17', 'boxes that change', bounds='any box; results overwritten by the caller, another box made, the origin or the shape '
      'or both replaced, the same read before and after')
def changing(t):
    B = t.mod(BX).Box
    o, s, a, b = inputs(t)
    x = B(o, s)
    how = t.choice('change', ['results', 'another', 'origin', 'shape', 'both'])
    t.scribble(x.ranges, x.center_point, x.floor_point)
    measures(t, x, a, b)
    if how == 'another':
        c, d = [0, 1, 2], [4, 5, 6]
        y = B(t.array(c), t.array(d))
        measures(t, y, c, d)
    if how in ('origin', 'both'):
        p = t.vec('p')
        x.origin, a = p, t.rows(t.ex(p))
    if how in ('shape', 'both'):
        p = t.vec('q', lo=0)
        x.shape, b = p, t.rows(t.ex(p))
    measures(t, x, a, b)
    t.check_unmutated()


@case('C17', 'boxes of large whole numbers', bounds='shapes of whole numbers from 50000 to 100000, arrays and lists')
def large(t):
    o, s = t.ints('o', 3, -90000, 90000), t.ints('s', 3, 50000, 100000)
    a, b = t.rows(t.ex(o)), t.rows(t.ex(s))
    if t.flag('list'):
        o, s = list(t.rows(o)), list(t.rows(s))
    measures(t, t.mod(BX).Box(o, s), a, b)
