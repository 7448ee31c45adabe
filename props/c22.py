"""C22: values: rounding for display, JSON round trips, console input."""
from fractions import Fraction as F

from symx.harness import case
from props.c20 import CLASS, size

J = 'blmath.util.json'
V = 'blmath.value'
NEAREST = {'cm': F(1, 2), 'in': F(1, 4), 'kg': F(1, 2), 'lb': F(1), 'yr': F(1)}
UNITS = ['cm', 'm', 'in', 'ft', 'kg', 'lbs', 'stone', 'deg', 'rad', 'yr', 'days', 'hours_per_week', None]
METRIC = {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'}
US = dict(METRIC, length='in', weight='lb')


def in_units(t, x, a, b):
    return x if a == b else x * size(t, a) / size(t, b)


def rounded(t, got, value, k, label):
    q = got / k
    t.check(t.near(q, t.val(t.round(q)), F(1, 10 ** 6)), label + ': a whole number of steps')
    t.check(t.le(t.abs(got - value), k / 2 + F(1, 10 ** 6)), label + ': at most half a step away')


@case('C22', 'prettified', bounds='every number up to 1000 in size, twelve units and unitless values, before and after changes')
def pretty(t):
    Value = t.mod(V).Value
    u = t.choice('units', UNITS)
    x = t.pyreal('x', lo=-1000, hi=1000)
    v = Value(x, u)
    for k in range(2):
        r = v.prettified
        t.check(isinstance(r, tuple) and len(r) == 4, 'two numbers with units')
        for n, system in ((0, METRIC), (2, US)):
            to = system[CLASS[u]] if u is not None else None
            t.check(r[n + 1] == to, 'metric and United States units')
            rounded(t, r[n], in_units(t, x, u, to), NEAREST.get(to, F(1, 10)), 'the number in them')
        t.check(t.eq(v.value, x), 'the value is not changed')
        t.check(v.units == u, 'the value is not changed')
        if k == 0 and t.flag('change'):
            x = t.pyreal('y', lo=-1000, hi=1000)
            v.value = x
            if u == 'cm':
                u = 'm'
                v.units = u


@case('C22', 'prettify with a precision', bounds='every number up to 1000, six units, precision -2 to 3')
def prettify(t):
    U = t.mod('blmath.units')
    u = t.choice('units', ['cm', 'ft', 'lb', 'rad', 'days', None])
    p = t.choice('precision', [0, 1, 2, 3, -1, -2])
    x = t.pyreal('x', lo=-1000, hi=1000)
    r = U.prettify(x, u, precision=p)
    for n, system in ((0, METRIC), (2, US)):
        to = system[CLASS[u]] if u is not None else None
        t.check(r[n + 1] == to, 'metric and United States units')
        rounded(t, r[n], in_units(t, x, u, to), F(1, 10) ** p, 'the number in them')


@case('C22', 'default units', bounds='every unit, both systems, an exception; every number')
def defaults(t):
    U = t.mod('blmath.units')
    Value = t.mod(V).Value
    u = t.choice('units', sorted(CLASS))
    x = t.pyreal('x', lo=-1000, hi=1000)
    for name, system in (('metric', METRIC), ('united_states', US)):
        t.check(U.default_units(name) == system, 'the units of the system')
        to = system[CLASS[u]]
        want = in_units(t, x, u, to)
        r = U.convert_to_system_default(x, u, name)
        t.check(r[1] == to, 'names the units')
        t.check(t.near(r[0], want, F(1, 10 ** 9), want), 'the number in them')
        v = Value(x, u)
        w = v.convert_to_system_default(name)
        t.check(isinstance(w, Value) and w.units == to, 'a value in them')
        t.check(t.near(w.value, want, F(1, 10 ** 9), want), 'the number in them')
        t.check(v.units == u, 'the value is not changed')
        mine = U.default_units(name, exceptions={'length': 'ft'})
        t.check(mine == dict(system, length='ft'), 'exceptions replace the defaults')
        to = mine[CLASS[u]]
        r = U.convert_to_default(x, u, mine)
        want = in_units(t, x, u, to)
        t.check(r[1] == to, 'names the units')
        t.check(t.near(r[0], want, F(1, 10 ** 9), want), 'the number in them')
    t.check(U.default_units() == METRIC and U.default_units('united_states') == US, 'exceptions do not stay')
    for n in (None, ''):
        r = U.convert_to_default(x, n, METRIC)
        t.check(r[1] == n, 'unitless numbers stay unitless')
        t.check(t.eq(r[0], x), 'unitless numbers stay the same')


class Doc(object):
    """A file."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def read(self):
        return self.parts[0] if len(self.parts) == 1 else ''.join(self.parts)


def there_and_back(t, obj, via, **kw):
    m = t.mod(J)
    if via == 'file':
        d = Doc()
        m.dump(obj, d, **kw)
        return m.load(d)
    return m.loads(m.dumps(obj, **kw))


def same(t, a, b):
    """The decoded object a is what b stands for."""
    Value = t.mod(V).Value
    if isinstance(b, Value):
        if not (isinstance(a, Value) and a.units == b.units):
            return t.const(False)
        return t.const(True) if a.value is b.value else a.value == b.value      # exactly
    if isinstance(b, dict):
        return t.const(False) if not (isinstance(a, dict) and list(a) == list(b)) else \
            t.and_(t.const(True), *[same(t, a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        return t.const(False) if not (isinstance(a, list) and len(a) == len(b)) else \
            t.and_(t.const(True), *[same(t, x, y) for x, y in zip(a, b)])
    if b is None or isinstance(b, (str, bool)):
        return t.const(a is b or (type(a) is type(b) and a == b))
    if a is None or isinstance(a, (str, bool, dict, list)):
        return t.const(False)
    return t.eq(a, b)


@case('C22', 'JSON round trip', bounds='values with any number and units, alone or nested in lists, tuples and dictionaries with other data')
def roundtrip(t):
    Value = t.mod(V).Value
    u, w = t.choice('u', UNITS), t.choice('w', ['cm', None])
    x, y, z = t.pyreal('x'), t.pyreal('y'), t.pyreal('z')
    a, b = Value(x, u), Value(y, w)
    obj = t.choice('object', ['value', 'list', 'tuple', 'dict', 'nested', 'plain', 'empty', 'shadow'])
    obj = {'value': a, 'list': [a, b, a], 'tuple': (b, z, None), 'dict': {'a': a, 'b': b, 'n': z},
           'nested': [{'k': [a, {'m': b}]}, [[b]], 'text', True, None, z, 3], 'plain': {'x': [z, 'cm', False]},
           'empty': [[], {}, ''], 'shadow': {'value': z, 'units': 'cm', 'a': a}}[obj]
    r = there_and_back(t, obj, t.choice('via', ['string', 'file']), **t.choice('options', [{}, {'indent': 2}]))
    t.check(same(t, r, obj), 'what was written is read back, values as values')
    t.check(t.eq(a.value, x), 'the values are not changed')
    t.check(a.units == u, 'the values are not changed')


@case('C22', 'JSON options', bounds='values with any number; sorted keys, numbers read as text')
def json_options(t):
    m, d = t.mod(J), Doc()
    a = t.mod(V).Value(t.pyreal('x'), 'cm')
    m.dump({'b': 1, 'a': a}, d, sort_keys=True)
    for r in (m.load(d), m.loads(m.dumps({'b': 1, 'a': a}, sort_keys=True))):
        t.check(list(r) == ['a', 'b'], 'options are those of the JSON library')
        t.check(same(t, r, {'a': a, 'b': 1}), 'and values are values')
    d = Doc()
    d.write('[1.5]')
    t.check(m.loads('[1.5]', parse_float=str) == ['1.5'] and m.load(d, parse_float=str) == ['1.5'], 'options when reading')


@case('C22', 'for_json and from_json', bounds='any number, twelve units and none')
def forjson(t):
    Value = t.mod(V).Value
    u, x = t.choice('u', UNITS), t.pyreal('x')
    v = Value(x, u)
    d = v.for_json()
    t.check(list(d) == ['__value__'] and sorted(d['__value__']) == ['units', 'value'], 'the annotated form')
    r = Value.from_json(d)
    t.check(same(t, r, v), 'from_json undoes for_json')
    r = t.mod(J).decode_json(d)
    t.check(same(t, r, v), 'decode_json undoes for_json')

    class Sub(Value):
        pass
    t.check(type(Sub.from_json(d)) is Sub, 'of the class it is asked of')


@case('C22', 'decoding arrays', bounds='numbers in five shapes, with and without a type, alone or nested')
def ndarrays(t):
    import numpy as np
    m = t.mod(J)
    shape = t.choice('shape', [(0,), (1,), (3,), (2, 2), (1, 2, 2)])
    n = 1
    for d in shape:
        n *= d
    real = t.flag('real')
    it = iter([t.pyreal('x%d' % i) for i in range(n)] if real else [t.integer('n%d' % i, -5, 5) for i in range(n)])

    def go(s):
        return next(it) if not s else [go(s[1:]) for _ in range(s[0])]
    data = go(shape)
    dt = t.choice('dtype', [None, 'float64'] if real else [None, 'float64', 'int64'])
    doc = {'__ndarray__': data}
    if dt is not None:
        doc['dtype'] = dt
    nested = t.flag('nested')
    r = there_and_back(t, {'a': [doc, 1]} if nested else doc, 'string')
    if nested:
        t.check(isinstance(r, dict) and r['a'][1] == 1, 'the rest is kept')
        r = r['a'][0]
    t.check(isinstance(r, np.ndarray) and r.shape == shape, 'an array of the same shape')
    t.check(r.dtype == np.dtype(dt or 'float64'), 'of the type given, or float64')
    t.check(t.and_(t.const(True), *[t.eq(p, q) for p, q in zip(r.ravel(), t.array(data).ravel())]), 'with the same numbers')


@case('C22', 'decoding sparse matrices', bounds='up to 3 entries in a 2x3 matrix, three formats, any key missing')
def sparse(t):
    m = t.mod(J)
    n = t.choice('entries', [0, 1, 2, 3])
    row, col = t.choice('places', [([0, 1, 1], [2, 0, 1]), ([1, 1, 0], [0, 0, 2]), ([1, 0, 0], [2, 1, 0])])
    row, col = row[:n], col[:n]
    data = [t.pyreal('d%d' % i) for i in range(n)]
    fmt = t.choice('format', ['coo', 'csr', 'csc'])
    doc = {'__scipy.sparse.sparsematrix__': True, 'dtype': 'float64', 'shape': [2, 3], 'data': data, 'format': fmt, 'row': row, 'col': col}
    shape = t.choice('shape', [[2, 3], [3, 3], [5, 3]])
    doc['shape'] = shape
    drop = t.choice('missing', [None, 'dtype', 'shape', 'data', 'format', 'row', 'col'])
    if drop is not None:
        del doc[drop]
        r = there_and_back(t, doc, 'string')
        t.check(same(t, r, doc), 'incomplete descriptions stay dictionaries')
        return
    r = there_and_back(t, doc, 'string')
    t.check(tuple(r.shape) == tuple(shape) and r.format == fmt, 'a matrix of the given shape and format')
    A = r.toarray()
    for i in range(shape[0]):
        for j in range(shape[1]):
            want = 0
            for p, q, d in zip(row, col, data):
                if (p, q) == (i, j):
                    want = want + d
            t.check(t.eq(A[i, j], want, 10), 'with the given entries')


@case('C22', 'console input', bounds='any number typed after up to two unusable lines; twelve units and none; empty input allowed or not')
def console(t):
    c = t.mod('blmath.console')
    Value = t.mod(V).Value
    u = t.choice('units', UNITS)
    label = t.choice('label', ['Height', 'Weight (approximate)'])
    x = t.pyreal('x')
    before = t.choice('before', [[], ['abc'], ['', ''], ['12cm', '  ']])
    allow = t.choice('allow_empty', [None, False, True])
    kw = {} if allow is None else {'allow_empty': allow}
    shown = t.console(before + [x, 1.5])
    r = c.input_value(label, u, **kw)
    blank = any(not s.strip() for s in before)
    if allow and blank:
        t.check(r is None, 'None for an empty line when that is allowed')
    else:
        t.check(isinstance(r, Value) and r.units == u, 'a value in the units asked for')
        t.check(t.eq(r.value, x), 'the number typed')
        t.check(len(shown) == len(before) + 1, 'asks until there is a number')
    t.check(all(label in s and str(u) in s for s in shown), 'the prompt shows label and units')
    shown = t.console(before + [x, 1.5])
    r = c.input_float('Number: ', **kw)
    if allow and blank:
        t.check(r is None, 'None for an empty line when that is allowed')
    else:
        t.check(t.eq(r, x), 'the number typed')
    t.check(all('Number' in s for s in shown), 'shows the prompt')
    t.console([])
    if allow:
        t.check(c.input_float('Number: ', **kw) is None, 'None at the end of the input when that is allowed')
    else:
        t.check(t.raises(lambda: c.input_float('Number: ', **kw), EOFError), 'EOFError at the end of the input')


@case('C22', 'a value in text', bounds='five numbers, four units')
def text(t):
    Value = t.mod(V).Value
    x = t.choice('x', [0, 2, -1.5, 12.25, 1e6])
    u = t.choice('units', ['cm', 'in', 'deg', None])
    v = Value(x, u)
    for r in (repr(v), str(v)):
        shows(t, r, x, u)
    t.check(v.value == x and v.units == u, 'unchanged')


def shows(t, r, x, u):
    t.check(isinstance(r, str) and str(u) in r, 'shows the units')
    words = [w.strip('<>(),') for w in r.replace('=', ' ').split()]
    nums = [float(w) for w in words if w.lstrip('-').replace('.', '', 1).replace('e+', '', 1).isdigit()]
    t.check(any(abs(n - x) < 1e-6 for n in nums), 'shows the number')
