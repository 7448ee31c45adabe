"""C21: arithmetic and comparison of values with units."""
from fractions import Fraction as F
from symx.harness import case
from props.c20 import CLASS, size

V = 'blmath.value'
PAIRS = [('cm', 'cm'), ('cm', 'in'), ('ft', 'm'), ('kg', 'lb'), ('stone', 'g'), ('yr', 'days'), ('min', 'hr'), ('deg', 'rad'),
         (None, None), ('hours_per_week', 'hours_per_week')]
TOL = F(1, 10 ** 9)


def ratio(t, a, b):
    """How many a one b is."""
    return t.val(1) if a == b else size(t, b) / size(t, a)


def vals(t, pairs=PAIRS):
    Val = t.mod(V).Value
    a, b = t.choice('units', pairs)
    x, y = t.pyreal('x', lo=-1000, hi=1000), t.pyreal('y', lo=-1000, hi=1000)
    return Val, Val(x, a), Val(y, b), t.ex(x), t.ex(y), a, b


def is_value(t, r, num, units, Val, label, exact=False, scale=None):
    t.check(isinstance(r, Val) and r.units == units, label + ': a Value in the right units')
    if not isinstance(r, Val):
        return
    if exact:
        t.check(t.eq(r.value, num, scale), label)
    else:
        t.check(t.near(r.value, num, TOL, scale), label)


def kept(t, p, q, x, y, a, b):
    t.check(t.eq(p.value, x), 'operands are not changed')
    t.check(t.eq(q.value, y), 'operands are not changed')
    t.check(p.units == a and q.units == b, 'operands keep their units')


@case('C21', 'adding and subtracting values', bounds='ten pairs of units, any two numbers up to 1000')
def addsub(t):
    Val, p, q, x, y, a, b = vals(t)
    k = ratio(t, a, b)
    s = 1000 * (1 + k)
    is_value(t, p + q, x + y * k, a, Val, 'the sum, in the units of the first', a == b, s)
    is_value(t, p - q, x - y * k, a, Val, 'the difference, in the units of the first', a == b, s)
    kept(t, p, q, x, y, a, b)


@case('C21', 'adding and subtracting numbers', bounds='three units, any two numbers')
def numbers(t):
    Val, p, q, x, y, a, b = vals(t, [('cm', 'cm'), ('lb', 'lb'), (None, None)])
    n = q.value
    is_value(t, p + n, x + y, a, Val, 'value + number', True)
    is_value(t, n + p, x + y, a, Val, 'number + value', True)
    is_value(t, p - n, x - y, a, Val, 'value - number', True)
    is_value(t, n - p, y - x, a, Val, 'number - value', True)
    kept(t, p, q, x, y, a, b)


@case('C21', 'scaling', bounds='three units, any number, any factor')
def scaling(t):
    Val, p, q, x, y, a, b = vals(t, [('cm', 'cm'), ('lb', 'lb'), (None, None)])
    n = q.value
    is_value(t, p * n, x * y, a, Val, 'value * number', True, t.val(10 ** 6))
    is_value(t, n * p, x * y, a, Val, 'number * value', True, t.val(10 ** 6))
    is_value(t, +p, x, a, Val, '+value', True)
    is_value(t, -p, -x, a, Val, '-value', True)
    is_value(t, abs(p), t.abs(x), a, Val, 'abs(value)', True)
    t.check(t.raises(lambda: p * q, ValueError), 'value * value raises ValueError')
    t.check(t.raises(lambda: n / p, ValueError), 'number / value raises ValueError')
    t.check(t.raises(lambda: n // p, ValueError), 'number // value raises ValueError')
    t.check(t.raises(lambda: p % n, AttributeError), 'value % number raises AttributeError')
    t.check(t.raises(lambda: p ** 2, AttributeError), 'value ** number raises AttributeError')
    kept(t, p, q, x, y, a, b)


@case('C21', 'dividing', bounds='ten pairs of units, any number, any divisor of at least 0.001')
def dividing(t):
    Val, p, q, x, y, a, b = vals(t)
    t.assume(t.or_(t.ge(y, F(1, 1000)), t.le(y, -F(1, 1000))))
    k = ratio(t, a, b)
    r = p / q
    t.check(isinstance(r, Val) and r.units is None, 'value / value is unitless')
    # r = x / (y k)
    t.check(t.near(r.value * y * k, x, F(1, 10 ** 6), t.val(1000)), 'value / value is the ratio of the quantities')
    n = q.value
    is_value(t, p / n, x / y, a, Val, 'value / number', True, t.val(10 ** 6))
    # the names of the operators in Python 2
    if hasattr(p, '__div__'):
        d = p.__div__(q)
        t.check(isinstance(d, Val) and d.units is None and True, 'the older operator gives a unitless value')
        t.check(t.near(d.value, r.value, TOL, r.value), 'the older operator agrees')
        is_value(t, p.__div__(n), x / y, a, Val, 'the older operator by a number', True, t.val(10 ** 6))
    if hasattr(p, '__rdiv__'):
        t.check(t.raises(lambda: p.__rdiv__(n), ValueError), 'number / value raises ValueError')
    kept(t, p, q, x, y, a, b)


@case('C21', 'floor division', bounds='the same units or none, any integers; and any number by 2.5')
def floordiv(t):
    Val = t.mod(V).Value
    a = t.choice('units', ['cm', 'lb', None])
    x, y = t.integer('x', -40, 40), t.integer('y', -6, 6)
    t.assume(t.not_(t.eq(y, 0)))
    r = Val(x, a) // Val(y, a)
    t.check(isinstance(r, Val) and r.units is None, 'value // value is unitless')
    t.check(t.eq(r.value, t.round(r.value)), 'a whole number')
    m = x - y * r.value
    t.check(t.and_(t.lt(m * m, y * y), t.ge(m * y, 0)), 'the quotient rounded down')
    s = Val(x, a) // y
    t.check(isinstance(s, Val) and s.units == a, 'value // number keeps the units')
    t.check(t.eq(s.value, r.value), 'the quotient rounded down')


@case('C21', 'comparing values', bounds='ten pairs of units, any two numbers up to 1000, quantities equal or at least 1e-6 apart')
def comparing(t):
    Val, p, q, x, y, a, b = vals(t)
    k = ratio(t, a, b)
    d = x - y * k
    tol = F(1, 10 ** 6) if a != b else F(0)
    got = {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q, '==': p == q, '!=': p != q}
    for c in got.values():
        t.check(t.is_bool(c), 'a truth value')
    tr = {n: t.truth(c) for n, c in got.items()}
    up, down = t.gt(d, tol * (1 + k)), t.lt(d, -tol * (1 + k))
    for n, u, w in (('<', False, True), ('<=', False, True), ('>', True, False), ('>=', True, False), ('==', False, False),
                    ('!=', True, True)):
        t.check(t.implies(up, tr[n] if u else t.not_(tr[n])), 'a larger quantity compares as larger')
        t.check(t.implies(down, tr[n] if w else t.not_(tr[n])), 'a smaller quantity compares as smaller')
    if a == b:
        same = t.eq(d, 0)
        for n, e in (('<', False), ('<=', True), ('>', False), ('>=', True), ('==', True), ('!=', False)):
            t.check(t.implies(same, tr[n] if e else t.not_(tr[n])), 'equal quantities compare as equal')
    t.check(t.iff(tr['=='], t.not_(tr['!='])), '== and != are opposite')
    t.check(t.iff(tr['<'], t.not_(tr['>='])), '< and >= are opposite')
    t.check(t.iff(tr['>'], t.not_(tr['<='])), '> and <= are opposite')
    kept(t, p, q, x, y, a, b)


@case('C21', 'comparing with numbers', bounds='three units, any two numbers')
def comparing_num(t):
    Val, p, q, x, y, a, b = vals(t, [('cm', 'cm'), ('lb', 'lb'), (None, None)])
    n = q.value
    for name, got, ref in (('<', p < n, t.lt(x, y)), ('<=', p <= n, t.le(x, y)), ('>', p > n, t.gt(x, y)),
                           ('>=', p >= n, t.ge(x, y)), ('==', p == n, t.eq(x, y)), ('!=', p != n, t.ne(x, y))):
        t.check(t.iff(t.truth(got), ref), 'compares like the number: ' + name)


@case('C21', 'incompatible units', bounds='thirteen pairs of incompatible units (or none against some), some with similar names, any numbers')
def incompatible(t):
    Val, p, q, x, y, a, b = vals(t, [('cm', 'kg'), ('yr', 'deg'), ('cm', None), (None, 'kg'), ('hr', 'hours_per_week'), ('hours_per_week', 'hours'),
                                            ('m', 'min'), ('minutes', 'm'), ('meters', 'minute'), ('g', 'days'), ('day', 'deg'),
                                            ('sec', 'stone'), ('fathoms', 'grams')])
    import operator as o
    for f in (o.add, o.sub, o.truediv, o.floordiv, o.lt, o.le, o.gt, o.ge):
        t.check(t.raises(lambda: f(p, q)), 'incompatible units are refused: ' + f.__name__)
    t.check(t.raises(lambda: p * q, ValueError), 'incompatible units are refused: mul')
    for f, unequal in ((o.eq, False), (o.ne, True)):
        t.check(t.raises(lambda: f(p, q)) or t.truth(f(p, q)) is unequal,
                'values in incompatible units are never equal: ' + f.__name__)
    kept(t, p, q, x, y, a, b)


@case('C21', 'converting values', bounds='ten pairs of units, any number')
def converting(t):
    Val, p, q, x, y, a, b = vals(t)
    k = ratio(t, b, a)
    r = p.convert(b)
    is_value(t, r, x * k, b, Val, 'convert', a == b, 1000 * k)
    if b is not None:
        g = getattr(p, b)
        is_value(t, g, x * k, b, Val, 'conversion by attribute', a == b, 1000 * k)
        t.check(t.near(r.convert(a).value, x, F(1, 10 ** 6)), 'and back')
        for s, w in (('metric', {'length': 'cm', 'weight': 'kg'}), ('united_states', {'length': 'in', 'weight': 'lb'})):
            u = w.get(CLASS[a], {'time': 'yr', 'angle': 'deg', 'time_rate': 'hours_per_week'}.get(CLASS[a]))
            is_value(t, p.convert_to_system_default(s), x * ratio(t, u, a), u, Val, 'default units of the system', False,
                     1000 * ratio(t, u, a))
    else:
        t.check(t.raises(lambda: p.convert('cm'), ValueError), 'a unitless value does not convert')
        t.check(t.raises(lambda: p.cm, ValueError), 'not by attribute either')
    t.check(t.raises(lambda: p.mugglemeters, AttributeError), 'unknown attributes raise AttributeError')
    kept(t, p, q, x, y, a, b)


@case('C21', 'lists', bounds='lists of 0 to 2 numbers, any numbers')
def lists(t):
    Val = t.mod(V).Value
    x = t.pyreal('x', lo=-1000, hi=1000)
    p = Val(x, 'cm')
    l = t.track([t.pyreal('l%d' % i, lo=-1000, hi=1000) for i in range(t.choice('n', [0, 1, 2]))], 'list')
    for name, r, ref in (('value * list', p * l, [x * y for y in l]), ('list * value', l * p, [x * y for y in l]),
                         ('value + list', p + l, [x + y for y in l]), ('list + value', l + p, [x + y for y in l]),
                         ('value - list', p - l, [x - y for y in l]), ('list - value', l - p, [y - x for y in l])):
        t.check(isinstance(r, list) and len(r) == len(l), name + ': one value per number')
        for g, e in zip(r, ref):
            is_value(t, g, e, 'cm', Val, name, True, t.val(10 ** 6))
    t.check_unmutated()


@case('C21', 'casts and truth', bounds='any number, three units')
def casts(t):
    Val, p, q, x, y, a, b = vals(t, [('cm', 'cm'), ('lb', 'lb'), (None, None)])
    t.check(t.eq(p[0], x), 'index 0 is the number')
    t.check(p[1] == a, 'index 1 is the units')
    t.check(t.raises(lambda: p[2], KeyError), 'there is no index 2')
    t.check(t.eq(p.__float__(), x), 'float() is the number')
    b = type(p).__bool__(p)
    t.check(t.is_bool(b), 'bool() gives a truth value')
    t.check(t.iff(t.truth(b), t.ne(x, 0)), 'zero is false, everything else true')
    p.value = y
    t.check(t.eq(p.value, y), 'the number can be replaced')
    p.units = 'kg'
    t.check(p.units == 'kg', 'the units can be replaced')


@case('C21', 'nonsense is refused', bounds='unknown units, None')
def nonsense(t):
    Val = t.mod(V).Value
    x = t.pyreal('x')
    t.check(t.raises(lambda: Val(x, 'mugglemeters'), ValueError), 'unknown units raise ValueError')
    t.check(t.raises(lambda: Val(None, 'cm'), ValueError), 'None raises ValueError')
    t.check(t.raises(lambda: Val('abc', 'cm'), ValueError), 'text raises ValueError')
    p = Val(x, 'cm')
    t.check(t.raises(lambda: setattr(p, 'value', None), ValueError), 'also when replacing the number')
    t.check(t.eq(p.value, x), 'which is then kept')


@case('C21', 'values that change', bounds='ten pairs of units; any numbers, one of them replaced after use, or the units, '
      'the same operations before and after')
def changing(t):
    Val, p, q, x, y, a, b = vals(t)
    how = t.choice('change', ['first', 'second', 'units', 'result'])

    def use(p, q, x, y, a, b):
        k, m = ratio(t, a, b), ratio(t, b, a)
        is_value(t, p + q, x + y * k, a, Val, 'the sum', False, 1000 * (1 + k))
        is_value(t, q - p, y - x * m, b, Val, 'the difference', False, 1000 * (1 + m))
        c = p.convert(b) if a is not None else p
        if a is not None:
            is_value(t, c, x * m, b, Val, 'convert', False, 1000 * m)
        t.check(t.iff(t.truth(p < p + 1), t.const(True)), 'less than one more')
        return c
    c = use(p, q, x, y, a, b)
    z = t.pyreal('z', lo=-1000, hi=1000)
    if how == 'first':
        p.value, x = z, t.ex(z)
    elif how == 'second':
        q.value, y = z, t.ex(z)
    elif how == 'units':
        p.units, a = b, b
    elif c is not p:
        c.value = 77
        d = p + 0
        d.value = 77
    use(p, q, x, y, a, b)
    kept(t, p, q, x, y, a, b)


@case('C21', 'whole part', bounds='any number from -3 to 3, two units')
def whole(t):
    x = t.pyreal('x', lo=-3, hi=3)
    p = t.mod(V).Value(x, t.choice('units', ['cm', None]))
    x = t.ex(x)
    k = t.val(1) * type(p).__int__(p)
    d = x - k
    t.check(t.eq(t.round(k), k), 'int() is a whole number')
    t.check(t.and_(t.lt(d, 1), t.gt(d, -1), t.ge(d * x, 0), t.ge(x * k, 0)), 'the number without its fraction')
