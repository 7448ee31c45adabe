"""C24: numeric helpers: rounding, rescaling, safe division, bsxfun and reshaping."""
from fractions import Fraction as F
import warnings

from symx.harness import case, fixed_rows

STEPS = [F(1, 20), F(1, 10), F(1, 4), F(2), F(33, 100), F(1), F(1, 3), F(7), F(1, 1000)]


def multiple(t, got, value, k, label):
    """got is a multiple of the number k, at most half a step from value."""
    q = got / k
    t.check(t.near(q, t.val(t.round(q)), F(1, 10 ** 7)), label + ': a whole number of steps')
    t.check(t.le(t.abs(got - value), abs(k) * F(1, 2), scale=1000), label + ': at most half a step away')


@case('C24', 'round_to: listed steps', bounds='every number up to 1000 in size; nine steps, negative ones, int and float')
def roundto(t):
    R = t.mod('blmath.numerics.rounding')
    x = t.pyreal('x', lo=-1000, hi=1000)
    k = t.choice('step', STEPS)
    sign = t.choice('sign', [1, -1])
    if k < F(1, 100):
        t.assume(t.le(t.abs(x), t.val(10)))
    n = sign * (int(k) if k.denominator == 1 and t.flag('int') else float(k))
    r = R.round_to(x, n)
    multiple(t, r, x, sign * k, 'round_to')
    # ties aside, the nearest
    t.check(t.near(R.round_to(r, n), r, F(1, 10 ** 7)), 'round_to: rounding again changes nothing')


@case('C24', 'round_to: any step', bounds='every number up to 100, every step from 0.01 to 1000')
def roundto2(t):
    R = t.mod('blmath.numerics.rounding')
    x = t.pyreal('x', lo=-100, hi=100)
    k = t.pyreal('k', lo=F(1, 100), hi=1000)
    r = R.round_to(x, k)
    q = r / k
    t.check(t.near(q, t.val(t.round(q)), F(1, 10 ** 6)), 'a whole number of steps')
    t.check(t.le(2 * t.abs(r - x), k, scale=100), 'at most half a step away')


@case('C24', 'round_to: values with units', bounds='every number up to 1000, six steps, three units or none')
def rounding_values(t):
    V = t.mod('blmath.value').Value
    R = t.mod('blmath.numerics.rounding')
    x = t.pyreal('x', lo=-1000, hi=1000)
    k = t.choice('step', STEPS[:6])
    u = t.choice('units', ['cm', 'kg', 'deg', None])
    v = V(x, u)
    for r in (R.round_to(v, float(k)), v.round(float(k))):
        t.check(isinstance(r, V) and r.units == u, 'a value in the same units')
        multiple(t, r.value, x, k, 'the number')
    t.check(t.eq(v.value, x) if v.units == u else False, 'the value is not changed')


@case('C24', 'rounded_list', bounds='0 to 3 numbers or None in any order, 0 to 3 decimals')
def rlist(t):
    R = t.mod('blmath.numerics.rounding')
    kinds = t.choice('kinds', ['', 'x', 'n', 'xn', 'nx', 'xx', 'nxx', 'xnx', 'nn'])
    prec = t.choice('precision', [None, 0, 1, 3, -1])
    xs = [None if k == 'n' else t.pyreal('x%d' % i, lo=-1000, hi=1000) for i, k in enumerate(kinds)]
    seq = tuple(xs) if t.flag('tuple') else xs
    r = R.rounded_list(seq) if prec is None else R.rounded_list(seq, prec)
    t.check(isinstance(r, list) and len(r) == len(xs), 'one entry per entry')
    k = F(10) ** -(prec or 0)
    for a, b in zip(xs, r):
        if a is None:
            t.check(b is None, 'None stays')
        else:
            t.check(b is not None, 'numbers stay numbers')
            multiple(t, b, a, k, 'rounded')
    t.check(len(seq) == len(xs), 'the list is not altered')


@case('C24', 'scale_to_range', bounds='2 to 4 numbers or a 2x2 matrix, not all the same, any range')
def scale(t):
    O = t.mod('blmath.numerics.operations')
    shape = t.choice('shape', [2, 3, 4, (2, 2)] if t.thorough else [2, 3, (2, 2)])
    a = t.arr('a', shape)
    lo, hi = t.real('lo'), t.real('hi')
    xs = [x for r in t.rows(t.ex(a)) for x in r] if shape == (2, 2) else t.rows(t.ex(a))
    mn = mx = xs[0]
    for x in xs[1:]:
        mn = x if t.branch(t.lt(x, mn)) else mn
        mx = x if t.branch(t.lt(mx, x)) else mx
    t.assume(t.gt(mx - mn, F(1, 1000)))
    r = O.scale_to_range(a, lo, hi)
    t.check(r.shape == a.shape, 'same shape')
    ys = [x for q in t.rows(r) for x in q] if shape == (2, 2) else t.rows(r)
    for x, y in zip(xs, ys):
        t.check(t.eq((y - lo) * (mx - mn), (x - mn) * (hi - lo), 1000), 'each number moves in proportion')
        t.check(t.or_(t.ne(x, mn), t.eq(y, lo)), 'the least goes to r_min')
        t.check(t.or_(t.ne(x, mx), t.eq(y, hi)), 'the largest goes to r_max')
    t.check_unmutated()


@case('C24', 'scale_to_range: whole numbers', bounds='3 whole numbers from -5 to 5, not all the same, whole range')
def scale_int(t):
    O = t.mod('blmath.numerics.operations')
    a = t.ints('a', 3, -5, 5)
    lo, hi = t.integer('lo', -3, 3), t.integer('hi', -3, 3)
    xs = t.rows(t.ex(a))
    mn = mx = xs[0]
    for x in xs[1:]:
        mn = x if t.branch(t.lt(x, mn)) else mn
        mx = x if t.branch(t.lt(mx, x)) else mx
    t.assume(t.gt(mx, mn))
    for x, y in zip(xs, t.rows(O.scale_to_range(a, lo, hi))):
        t.check(t.eq((y - lo) * (mx - mn), (x - mn) * (hi - lo), 100), 'each number moves in proportion')
    t.check_unmutated()


SHAPES = [((2,), (2,)), ((2, 2), (2, 2)), ((2, 2), (2,)), ((2, 1), (1, 2)), ((2,), ()), ((1,), (2,)), ((0,), (0,))]


@case('C24', 'zero_safe_divide', bounds='up to 4 quotients of any real numbers, seven shapes, default given or not')
def zsd(t):
    Z = t.mod('blmath.numerics.operations').zero_safe_divide
    t.on_grid()
    sa, sb = t.choice('shapes', SHAPES)
    whole = t.flag('int') if t.thorough or len(sa) == 1 else False
    mk = (lambda n, s: t.ints(n, s, -2, 2)) if whole else t.arr
    a = mk('a', sa)
    b = mk('b', sb) if sb != () else (t.integer('b', -2, 2) if whole else t.real('b'))
    d = t.choice('default', [None, 0.5, 7.0])
    r = Z(a, b) if d is None else Z(a, b, default_error_value=d)
    d = F(d or 0)
    import numpy as np
    out = np.broadcast_shapes(sa, sb)
    t.check(r.shape == out, 'shape of the quotient')
    ia, ib = np.zeros(sa, dtype=object), np.zeros(sb, dtype=object)
    for ix in np.ndindex(*sa):
        ia[ix] = t.ex(a)[ix]
    for ix in np.ndindex(*sb):
        ib[ix] = t.ex(b)[ix] if sb != () else t.ex(b)
    ia, ib = np.broadcast_to(ia, out), np.broadcast_to(ib, out)
    for ix in np.ndindex(*out):
        x, y, z = ia[ix], ib[ix], r[ix]
        if not t.symbolic and not whole:
            t.assume(t.or_(t.eq(y, 0), t.gt(t.abs(y), F(1, 10 ** 4))))
        if t.branch(t.eq(y, 0)):
            t.check(t.eq(z, t.val(d)), 'the default where the divisor is zero')
        else:
            t.check(t.eq(z * y, x, 100), 'the quotient elsewhere')
    t.check_unmutated()


@case('C24', 'zero_safe_divide: not a number and infinity', bounds='nan and infinities at any place of 2 numerators or divisors')
def zsd_special(t):
    Z = t.mod('blmath.numerics.operations').zero_safe_divide
    t.on_grid()
    where = t.choice('where', ['a0', 'a1', 'b0', 'b1'])
    what = t.choice('what', ['nan', 'inf', '-inf'])
    a, b = t.arr('a', 2), t.arr('b', 2)
    t.assume(t.and_(*[t.gt(t.abs(x), F(1, 1000)) for x in t.rows(t.ex(b))]))
    i = int(where[1])
    o = t.ex(a)[1 - i], t.ex(b)[1 - i]
    (a if where[0] == 'a' else b)[i] = float(what)
    r = Z(a, b, 3.0)
    t.check(t.eq(r[1 - i] * o[1], o[0], 100), 'the quotient of ordinary numbers')
    if where[0] == 'b' and what != 'nan':
        t.check(t.eq(r[i], 0), 'a number over infinity is zero')
    else:
        t.check(t.eq(r[i], 3), 'the default where the quotient is not finite')


@case('C24', 'bsxfun', bounds='all pairs of shapes with 1 to 3 rows and columns; any numbers; sum, difference, product, comparison')
def bsx(t):
    import numpy as np
    M = t.mod('blmath.numerics.matlab')
    sa = t.choice('a', [(i, j) for i in (1, 2, 3) for j in (1, 2, 3)])
    b_ = t.choice('rows', [1, 2, 3])
    oper = t.choice('operation', ['sub', 'mul'])
    fn = {'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[oper]
    a = t.arr('a', sa)
    for c in (1, 2, 3):
        sb = (b_, c)
        b = t.arr('b%d' % c, sb)
        try:
            out = np.broadcast_shapes(sa, sb)
        except ValueError:
            t.check(t.raises(lambda: M.bsxfun(fn, a, b)), 'shapes which do not go together are refused')
            continue
        same = sa[0] == sb[0] or sa[1] == sb[1]
        vec = min(sa) == 1 and min(sb) == 1
        if not (same or vec):
            continue
        r = M.bsxfun(fn, a, b)
        t.check(r.shape == out, 'as many rows and columns as the larger')
        ea, eb = t.ex(a), t.ex(b)
        for i in range(out[0]):
            for j in range(out[1]):
                x = ea[i if sa[0] > 1 else 0, j if sa[1] > 1 else 0]
                y = eb[i if sb[0] > 1 else 0, j if sb[1] > 1 else 0]
                t.check(t.eq(r[i, j], fn(x, y), 100), 'row by row and column by column')
    t.check_unmutated()


@case('C24', 'row and col', bounds='arrays of 1 to 4 numbers in one or two dimensions')
def rowcol(t):
    M = t.mod('blmath.numerics.matlab')
    s = t.choice('shape', [1, 3, (1, 3), (3, 1), (2, 2)])
    a = t.arr('a', s)
    n = 4 if s == (2, 2) else 1 if s == 1 else 3
    flat = [x for x in t.ex(a).ravel()]
    r, c = M.row(a), M.col(a)
    t.check(r.shape == (1, n) and c.shape == (n, 1), 'one row, one column')
    for i in range(n):
        t.check(t.eq(r[0, i], flat[i]), 'numbers in order')
        t.check(t.eq(c[i, 0], flat[i]), 'numbers in order')
    t.check_unmutated()


@case('C24', 'sparse', bounds='up to 4 entries anywhere in a matrix of up to 3x3; shape given or not; flat, row or column indices')
def sparse(t):
    M = t.mod('blmath.numerics.matlab')
    n = t.choice('entries', [1, 2, 3, 4] if t.thorough else [1, 2, 3])
    ii = t.choice('i', [[0, 0, 0, 0], [0, 1, 0, 2], [2, 1, 0, 2], [1, 1, 2, 1]])[:n]
    jj = t.choice('j', [[0, 0, 0, 0], [1, 0, 1, 1], [2, 1, 0, 0], [1, 2, 1, 0]])[:n]
    form = t.choice('form', ['flat', 'row', 'col'])
    data = t.arr('d', n)
    shp = {'flat': (n,), 'row': (1, n), 'col': (n, 1)}[form]
    i, j = t.iarray(ii).reshape(shp), t.iarray(jj).reshape(shp)
    given = t.flag('shape given')
    r = M.sparse(i, j, data, 4, 5) if given else M.sparse(i, j, data)
    t.check(tuple(r.shape) == ((4, 5) if given else (max(ii) + 1, max(jj) + 1)), 'shape as given, or just large enough')
    A = r.toarray()
    d = t.rows(t.ex(data))
    for p in range(r.shape[0]):
        for q in range(r.shape[1]):
            want = 0
            for k in range(n):
                if ii[k] == p and jj[k] == q:
                    want = want + d[k]
            t.check(t.eq(A[p, q], want, 10), 'entries at the same place are added, zero elsewhere')
    t.check_unmutated()


@case('C24', 'sparse with no entries', bounds='no entries, seven shapes')
def sparse_none(t):
    M = t.mod('blmath.numerics.matlab')
    m, n = t.choice('shape', [(0, 0), (0, 3), (3, 0), (1, 1), (2, 5), (1, 0), (0, 1)])
    r = M.sparse(t.iarray([]), t.iarray([]), t.array([]), m, n)
    t.check(tuple(r.shape) == (m, n) and r.nnz == 0, 'an empty matrix of the given shape')


@case('C24', 'np_reshape_safe', bounds='arrays of up to 6 numbers, their transposes and slices, ten target shapes')
def reshape(t):
    N = t.mod('blmath.numerics.numpy_ext')
    base = t.arr('a', (2, 3))
    form = t.choice('form', ['whole', 'transposed', 'columns', 'rows', 'reversed', 'flat'])
    a = {'whole': lambda: base, 'transposed': lambda: base.T, 'columns': lambda: base[:, :2], 'rows': lambda: base[:1],
         'reversed': lambda: base[:, ::-1], 'flat': lambda: base.ravel()}[form]()
    shape = t.choice('shape', [(6,), (-1,), (3, 2), (2, 3), (6, 1), (1, 6), (2, 2), (1, 3), (4,), (3, -1)])
    warn = t.flag('just_warn')
    want = None
    size = 1
    for x in a.shape:
        size *= x
    known = 1
    for x in shape:
        known *= 1 if x == -1 else x
    fits = size % known == 0 if -1 in shape else size == known
    flat = list(t.ex(a).ravel())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        k, r = 'ok', None
        try:
            r = N.np_reshape_safe(a, shape, just_warn=warn)
        except AttributeError:
            k = 'copy'
        except ValueError:
            k = 'size'
    import numpy as np
    probe = np.arange(6.).reshape(2, 3)
    probe = {'whole': lambda: probe, 'transposed': lambda: probe.T, 'columns': lambda: probe[:, :2], 'rows': lambda: probe[:1],
             'reversed': lambda: probe[:, ::-1], 'flat': lambda: probe.ravel()}[form]()
    if not fits:
        t.check(k == 'size', 'ValueError when the sizes differ')
        return
    copies = not np.shares_memory(probe.reshape(shape), probe)
    if copies and not warn:
        t.check(k == 'copy', 'AttributeError rather than a copy')
        return
    full = tuple(size // known if x == -1 else x for x in shape)
    t.check(k == 'ok' and r.shape == full, 'the requested shape')
    t.check(t.and_(*[t.eq(x, y) for x, y in zip(t.ex(r).ravel(), flat)]), 'the same numbers in order')
    t.check(a.shape == probe.shape, 'the argument keeps its shape')
    t.check(bool(w) == copies, 'a warning exactly when it is a copy')
    if not copies:
        y = t.real('y')
        r[tuple(0 for _ in full)] = y
        t.check(t.eq(a[tuple(0 for _ in a.shape)], y), 'a view of the argument')


@case('C24', 'np_make_readonly', bounds='lists of 0 to 3 arrays and other objects')
def readonly(t):
    N = t.mod('blmath.numerics.numpy_ext')
    kinds = t.choice('kinds', ['', 'a', 'aa', 'oa', 'ao', 'aoa', 'm', 'v', 'av', 'r'])
    new = {'m': lambda n: t.arr(n, (2, 2)), 'a': lambda n: t.arr(n, 2), 'v': lambda n: t.arr(n, 4)[1:3], 'r': lambda n: t.arr(n, (2, 2)).T}
    things = [new[k]('a%d' % i) if k in new else (None, 'x', [1, 2])[i] for i, k in enumerate(kinds)]
    before = [t.rows(t.ex(x)) if k in new else x for x, k in zip(things, kinds)]
    t.check(N.np_make_readonly(things) is None, 'returns nothing')
    for x, k, b in zip(things, kinds, before):
        if k in new:
            def write():
                x[0] = 1.0
            t.check(t.raises(write, ValueError), 'arrays cannot be written')
            t.check(t.eqs(t.rows(t.ex(x)), b), 'and keep their numbers')
        else:
            t.check(x == b, 'other objects are left alone')


@case('C24', 'long lists', bounds='70 and 300 numbers, all but one or two of them fixed')
def long_lists(t):
    O = t.mod('blmath.numerics.operations')
    R = t.mod('blmath.numerics.rounding')
    n, at = t.choice('length', [(70, 0), (70, 69), (300, 257)])
    x, y = t.pyreal('x', lo=-100, hi=100), t.pyreal('y', lo=-100, hi=100)
    xs = [r[0] for r in fixed_rows(n, 1)]
    ys = [r[0] for r in fixed_rows(n, 1, 3)]
    xs[at], ys[at] = x, y
    r = R.rounded_list([v if v is x else float(v) for v in xs], 1)
    t.check(len(r) == n, 'one entry per entry')
    for a, b in zip(xs, r):
        if a is x:
            multiple(t, b, a, F(1, 10), 'rounded')
        else:
            t.check(t.near(b, t.val(a), F(1, 19)), 'rounded: at most half a step away')
    lo, hi = t.real('lo'), t.real('hi')
    fixed = [v for v in xs if v is not x]
    mn = x if t.branch(t.lt(x, t.val(min(fixed)))) else t.val(min(fixed))
    mx = x if t.branch(t.gt(x, t.val(max(fixed)))) else t.val(max(fixed))
    s = O.scale_to_range(t.array(xs), lo, hi)
    t.check(s.shape == (n,), 'same shape')
    for a, b in zip(xs, t.rows(s)):
        t.check(t.eq((b - lo) * (mx - mn), (a - mn) * (hi - lo), 1e5), 'each number moves in proportion')
    ys = [v if i % 17 or i == at else F(0) for i, v in enumerate(ys)]
    zero = t.branch(t.eq(y, 0))
    q = O.zero_safe_divide(t.array(xs), t.array(ys), default_error_value=7.)
    t.check(q.shape == (n,), 'same shape')
    for i in range(n):
        z = zero if i == at else ys[i] == 0
        t.check(t.eq(q[i], 7 if z else xs[i] / ys[i], 1e5), 'the quotient, or the default where it is not finite')


@case('C24', 'dividing numbers of any size', bounds='two quotients, numerators and divisors multiplied by 2^-50 or 2^50 each; zero divisors')
def zsd_sizes(t):
    Z = t.mod('blmath.numerics.operations').zero_safe_divide
    s, u = t.choice('size', [F(1, 2 ** 50), F(2 ** 50)]), t.choice('divisors', [F(1, 2 ** 50), F(2 ** 50)])
    x, y = [t.real('x%d' % i, lo=-9, hi=9) for i in range(2)], [t.real('y%d' % i, lo=0.1, hi=9) for i in range(2)]
    if t.flag('zero'):
        y[1] = t.val(0)
    q = Z(t.array([a * s for a in x]), t.array([b * u for b in y]), 3.)
    for i in range(2):
        if i and t.branch(t.eq(y[1], 0)):
            t.check(t.eq(q[1], 3), 'the default where the divisor is zero')
        else:
            t.check(t.eq(q[i] * (u / s if t.symbolic else float(u / s)) * y[i], x[i], 10), 'the quotient elsewhere')
