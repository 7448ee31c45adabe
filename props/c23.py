"""C23: numeric predicates and coercion to validated arrays."""
from decimal import Decimal
from fractions import Fraction as F
import warnings

from symx.harness import case

PD = 'blmath.numerics.predicates'
CO = 'blmath.numerics.coercion'


def nest(t, shape, xs, kind):
    """xs arranged as nested lists, nested tuples or an array."""
    def go(shape, it):
        if not shape:
            return next(it)
        out = [go(shape[1:], it) for _ in range(shape[0])]
        return tuple(out) if kind == 'tuple' else out
    r = go(shape, iter(xs))
    return t.track(t.array(r)) if kind == 'array' else r


def kinds(t, x, want_scalar, want_array, label):
    P = t.mod(PD)
    for f, want in ((P.isnumeric, want_scalar or want_array), (P.isnumericscalar, want_scalar), (P.isnumericarray, want_array)):
        t.check(bool(f(x)) is want, label)


@case('C23', 'single numbers', bounds='any real or whole number, numbers from arrays, zero, Decimal')
def scalars(t):
    k = t.choice('kind', ['float', 'int', 'array entry', 'zero', '0.0', 'decimal', 'decimal zero'])
    x = t.pyreal('x')
    if k == 'int':
        x = t.integer('n', -5, 5)
    elif k == 'array entry':
        x = t.arr('a', 2)[1]
    elif k == 'zero':
        x = 0
    elif k == '0.0':
        x = 0.
    elif k.startswith('decimal'):
        x = Decimal('0') if 'zero' in k else Decimal('123.456')
    kinds(t, x, True, False, 'a number is a numeric scalar and no array')


@case('C23', 'collections of numbers', bounds='nested lists, tuples or arrays of up to 6 numbers in up to three dimensions, empty ones included')
def arrays(t):
    shape = t.choice('shape', [(0,), (1,), (3,), (1, 3), (2, 2), (2, 3), (1, 2, 2), (0, 3)])
    kind = t.choice('kind', ['list', 'tuple', 'array'])
    n = 1
    for d in shape:
        n *= d
    if kind == 'array' and t.flag('int') and n:
        x = t.ints('n', shape, -3, 3)
    elif n == 0:
        x = t.iarray([]).reshape(shape) if kind == 'array' else [] if kind == 'list' else ()
    else:
        x = nest(t, shape, [t.pyreal('x%d' % i) for i in range(n)], kind)
    kinds(t, x, False, True, 'numbers in a collection are a numeric array and no scalar')
    P = t.mod(PD)
    t.check(bool(P.is_empty_arraylike(x)) is (n == 0), 'is_empty_arraylike tells whether there is no number')
    t.check_unmutated()


class Odd(object):
    def __eq__(self, o):
        return self is o
    __hash__ = None


def bad_things():
    return {'string': '42', 'bytes': b'1', 'none': None, 'complex': 1 + 1j, 'real complex': 2 + 0j, 'nan': float('nan'),
            'inf': float('inf'), '-inf': float('-inf'), 'object': Odd(), 'dict': {}, 'true': True, 'false': False, 'decimal nan': Decimal('NaN'), 'decimal snan': Decimal('sNaN'),
            'decimal inf': Decimal('-Infinity')}


@case('C23', 'other things', bounds='eighteen kinds of object which are not numbers, alone')
def others(t):
    k = t.choice('kind', sorted(set(bad_things()) | {'empty string', 'type', 'set'}))
    x = dict(bad_things(), **{'empty string': '', 'type': float, 'set': {1}})[k]
    kinds(t, x, False, False, 'not numeric')
    t.check(bool(t.mod(PD).is_empty_arraylike(x)) is (k == 'none'), 'only None is empty among them')


@case('C23', 'one wrong entry', bounds='one entry that is not a finite real number at any place of up to 4 numbers')
def wrong(t):
    P = t.mod(PD)
    k = t.choice('kind', ['string', 'none', 'complex', 'nan', 'inf', '-inf', 'object'])
    shape = t.choice('shape', [(1,), (3,), (2, 2)])
    n = 4 if shape == (2, 2) else shape[0]
    at = t.choice('at', list(range(n)))
    xs = [t.pyreal('x%d' % i) for i in range(n)]
    xs[at] = bad_things()[k]
    x = nest(t, shape, xs, t.choice('in', ['list', 'tuple']))
    kinds(t, x, False, False, 'one entry spoils the collection')
    t.check(not P.is_empty_arraylike(x), 'and it is not empty')
    t.check(t.raises(lambda: t.mod(CO).as_numeric_array(x), ValueError), 'as_numeric_array raises ValueError')


@case('C23', 'booleans', bounds='single booleans, lists and arrays of 1 to 3 booleans in any order')
def booleans(t):
    import numpy as np
    P = t.mod(PD)
    n = t.choice('n', [0, 1, 3])
    b = [t.flag('b%d' % i) for i in range(n or 1)]
    for x in ([b[0], np.bool_(b[0])] if n == 0 else [b, tuple(b), np.array(b)]):
        kinds(t, x, False, False, 'booleans are not numbers')


@case('C23', 'is_empty_arraylike', bounds='None, lists, tuples and arrays with and without entries')
def empties(t):
    P = t.mod(PD)
    x = t.real('x')
    for e in (None, [], (), t.iarray([]), t.iarray([]).reshape(0, 3), t.iarray([]).reshape(2, 0)):
        t.check(P.is_empty_arraylike(e) is True, 'nothing in it')
    for e in ([x], (x,), [[]], [None], t.array([x]), t.array([[x]]), 0, x):
        t.check(P.is_empty_arraylike(e) is False, 'not empty')


def expect(shape, want):
    """what as_numeric_array does with an array of this shape: 'as is', 'transposed' or 'refused'."""
    if want is None:
        return 'as is'
    if len(want) != len(shape):
        return 'refused'
    if all(w in (-1, d) for w, d in zip(want, shape)):
        return 'as is'
    if all(w in (-1, d) for w, d in zip(want, shape[::-1])):
        return 'transposed'
    return 'refused'


WANT = [None, (3,), (-1,), (2,), (3, 1), (-1, 3), (3, -1), (2, 3), (3, 2), (-1, -1), (-1, 2), (1, 3), (1, 2, 3), (3, 2, 1), (2, 3, -1)]


@case('C23', 'as_numeric_array: shapes', bounds='numbers in nine shapes against fifteen requested shapes, as list, tuple or array')
def coerce(t):
    import numpy as np
    C = t.mod(CO)
    shape = t.choice('shape', [(1,), (2,), (3,), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3), (1, 2, 3)])
    want = t.choice('want', WANT)
    kind = t.choice('kind', ['list', 'tuple', 'array'])
    n = 1
    for d in shape:
        n *= d
    a = nest(t, shape, [t.pyreal('x%d' % i) for i in range(n)], kind)
    kw = t.choice('options', [{}, {'allow_none': True}, {'allow_none': True, 'empty_as_none': True}, {'dtype': np.float64}])
    how = expect(shape, want)
    if how == 'refused':
        t.check(t.raises(lambda: C.as_numeric_array(a, shape=want, **kw), ValueError), 'ValueError for another shape')
        t.check_unmutated()
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = C.as_numeric_array(a, shape=want, **kw)
    t.check(not w, 'no warning')
    t.check(isinstance(r, np.ndarray), 'an array')
    full = shape if how == 'as is' else shape[::-1]
    t.check(r.shape == full, 'of the requested shape')
    flat = a if kind == 'array' else t.array(a)
    if r.shape == full:
        for ix in np.ndindex(*shape):
            t.check(t.eq(r[ix if how == 'as is' else ix[::-1]], flat[ix]), 'the same numbers, transposed if only that fits')
    if kind == 'array' and how == 'as is':
        t.check(r is a, 'an array which fits is returned itself')
    t.check_unmutated()


@case('C23', 'as_numeric_array: None, empty input and types', bounds='all option combinations; empty lists, tuples and arrays; whole numbers')
def coerce_none(t):
    import numpy as np
    C = t.mod(CO)
    an, en = t.flag('allow_none'), t.flag('empty_as_none')
    want = t.choice('want', [None, (3,), (-1, 3), (-1,)])
    # options which are off are left out
    kw = {k: v for k, v in dict(shape=want, allow_none=an, empty_as_none=en).items() if v}
    if an:
        t.check(C.as_numeric_array(None, **kw) is None, 'None stays None')
    else:
        t.check(t.raises(lambda: C.as_numeric_array(None, **kw), ValueError), 'None is refused')
    for e in ([], (), np.array([])):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if an and en:
                t.check(C.as_numeric_array(e, **kw) is None, 'empty input is None')
                t.check(len(w) == 1 and issubclass(w[0].category, DeprecationWarning), 'with a warning')
            elif want in (None, (-1,)):
                r = C.as_numeric_array(e, **kw)
                t.check(isinstance(r, np.ndarray) and r.shape == (0,), 'an empty array')
                t.check(not w, 'without a warning')
            else:
                t.check(t.raises(lambda: C.as_numeric_array(e, **kw), ValueError), 'ValueError for another shape')
    n = t.ints('n', 3, -3, 3)
    r = C.as_numeric_array(n, **dict(kw, shape=(3,)))
    t.check(r.dtype.kind == 'i', 'whole numbers stay whole numbers')
    r = C.as_numeric_array(n, dtype=np.float64, **dict(kw, shape=(3,)))
    t.check(r.dtype.kind == 'f', 'unless a type is asked for')
    t.check_eq(r, t.rows(t.ex(n)), 'the same numbers')
    x = t.integer('x', -5, 5)
    if want is not None:
        t.check(t.raises(lambda: C.as_numeric_array(x, **kw), ValueError), 'a single number has no such shape')
    t.check(t.raises(lambda: C.as_numeric_array('abc', **kw), ValueError), 'nor is a string')
    t.check(t.raises(lambda: C.as_numeric_array([True, False, True], **kw), ValueError), 'nor are booleans')
    t.check_unmutated()


@case('C23', 'long collections', bounds='100 and 2000 numbers, any number at one of three places or one wrong entry there')
def long_ones(t):
    P, C = t.mod(PD), t.mod(CO)
    n, at = t.choice('n', [(100, 0), (100, 99), (2000, 1500)])
    xs = [float(i % 17 - 8) for i in range(n)]
    k = t.choice('kind', ['number', 'nan', 'inf', 'none', 'string', 'complex'])
    kind = t.choice('in', ['list', 'tuple', 'rows'])
    xs[at] = t.pyreal('x') if k == 'number' else bad_things()[k]
    x = xs if kind == 'list' else tuple(xs) if kind == 'tuple' else [xs[i:i + 4] for i in range(0, n, 4)]
    kinds(t, x, False, k == 'number', 'numeric exactly if every entry is a number')
    want = (-1, 4) if kind == 'rows' else (n,)
    if k == 'number':
        r = C.as_numeric_array(x, shape=want)
        t.check(r.shape == ((n // 4, 4) if kind == 'rows' else (n,)), 'of the requested shape')
        got = t.rows(r.reshape(n))
        t.check(t.and_(*[t.eq(a, b) for a, b in zip(got, xs)]), 'the same numbers')
    else:
        t.check(t.raises(lambda: C.as_numeric_array(x, shape=want), ValueError), 'as_numeric_array raises ValueError')


@case('C23', 'numbers near the largest', bounds='up to four numbers of a size in [1.6e308, 1.79e308], of any signs')
def largest(t):
    n = t.choice('n', [1, 2, 4])
    kind = t.choice('in', ['list', 'tuple', 'array'])
    xs = []
    for i in range(n):
        x = t.pyreal('x%d' % i)
        t.assume(t.and_(t.ge(x, 16 * 10 ** 307), t.le(x, 179 * 10 ** 306)))
        xs.append(-x if i and t.flag('negative %d' % i) else x)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kinds(t, xs[0], True, False, 'a number is a numeric scalar and no array')
        kinds(t, nest(t, (n,), xs, kind), False, True, 'numbers in a collection are a numeric array and no scalar')


@case('C23', 'one wrong entry among decimals', bounds='up to four Decimals, Fractions, integers of any size or floating point numbers, one of them replaced by '
      'one of twelve things which are not finite real numbers')
def among(t):
    P = t.mod(PD)
    kind = t.choice('numbers', ['decimal', 'fraction', 'mixed'])
    xs = {'decimal': [Decimal('1.5'), Decimal('0'), Decimal('-3'), Decimal('1e500')], 'fraction': [F(1, 2), F(0), F(-3), F(10, 7)],
          'mixed': [Decimal('0.1'), 3, 10 ** 30, 1.5]}[kind]
    n = t.choice('n', [1, 3, 4])
    xs = xs[:n]
    k = t.choice('kind', ['number', 'string', 'none', 'complex', 'real complex', 'nan', 'inf', '-inf', 'object', 'dict', 'true', 'decimal nan', 'decimal inf'])
    if k != 'number':
        xs[t.choice('at', list(range(n)))] = bad_things()[k]
    if n == 4 and t.flag('rows'):
        xs = [xs[:2], xs[2:]]
    x = tuple(xs) if t.flag('tuple') else xs
    kinds(t, x, False, k == 'number', 'numeric exactly if every entry is a number')
    t.check(not P.is_empty_arraylike(x), 'and not empty')
    if k != 'number':
        t.check(t.raises(lambda: t.mod(CO).as_numeric_array(x), ValueError), 'as_numeric_array raises ValueError')
