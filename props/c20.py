"""C20: unit conversion."""
from fractions import Fraction as F
from symx.harness import case

U = 'blmath.units'

NAMES = {
    'length': {'m meter meters': F(1), 'mm millimeter millimeters': F(1, 1000), 'cm centimeter centimeters': F(1, 100),
               'in inch inches': F(254, 10000), 'ft foot feet': F(3048, 10000), 'fathoms': F(18288, 10000),
               'cubits': F(4572, 10000)},
    'weight': {'kg kilograms': F(1), 'g grams': F(1, 1000), 'lbs pounds lb': 1 / F(220462, 100000),
               'stone': 1 / F(157473, 1000000)},
    'angle': {'deg degrees': F(1), 'rad radians': None},
    'time': {'sec second seconds': F(1), 'min minute minutes': F(60), 'hr hour hours': F(3600), 'day days': F(86400),
             'yr year years': F(86400) * F(365242, 1000)},
    'time_rate': {'hours_per_week': F(1)},
}
CLASS = {n: c for c, d in NAMES.items() for k in d for n in k.split()}
ALL = sorted(CLASS)


def size(t, name):
    for d in NAMES.values():
        for k, v in d.items():
            if name in k.split():
                return t.val(180) / t.pi if v is None else t.val(v)
    raise KeyError(name)


def close(t, got, want, label):
    t.check(t.near(got, want, F(1, 10 ** 9), want), label)


def pair_case(cls):
    @case('C20', 'factors: ' + cls, bounds='every ordered pair of %s units, aliases included; any number' % cls)
    def f(t):
        u = t.mod(U)
        names = sorted(n for n in ALL if CLASS[n] == cls)
        a = t.choice('a', names)
        x = t.real('x', lo=-1000, hi=1000)
        for b in names:
            r = size(t, a) / size(t, b)
            k = u.factor(a, b)
            close(t, k, r, 'the factor is the ratio of the sizes of the units')
            close(t, u.factor(a, b, units_class=cls), r, 'also when the class is named')
            v, w = u.convert(x, a, b)
            t.check(w == b, 'convert names the new units')
            t.check(t.near(v, x * k, F(1, 10 ** 9), t.val(1000) * k), 'convert multiplies by the factor')
            y, w = u.convert(v, b, a)
            t.check(t.near(y, x, F(1, 10 ** 6)), 'converting back gives the number again')
            t.check(t.near(u.factor(a, b) * u.factor(b, a), t.val(1), F(1, 10 ** 9)), 'opposite factors are reciprocal')
            if a == b:
                t.check(t.eq(v, x), 'the same units change nothing')
            if x is not None:
                t.check(u.convert(None, a, b) == (None, None), 'nothing converts to nothing')
    return f


for cls in sorted(NAMES):
    pair_case(cls)


@case('C20', 'converting by way of a third unit', bounds='every triple of length, weight or time units without aliases; any number')
def chain(t):
    u = t.mod(U)
    cls = t.choice('class', ['length', 'weight', 'time', 'angle'])
    names = [k.split()[0] for k in NAMES[cls]]
    a, b = t.choice('a', names), t.choice('b', names)
    x = t.real('x', lo=-1000, hi=1000)
    direct = {c: u.convert(x, a, c)[0] for c in names}
    mid = u.convert(x, a, b)[0]
    for c in names:
        k = 1000 * size(t, a) / size(t, c)
        t.check(t.near(u.convert(mid, b, c)[0], direct[c], F(1, 10 ** 9), k), 'the way does not matter')


@case('C20', 'different classes do not convert', bounds='every unit against every unit of another class; every wrong class')
def apples(t):
    u = t.mod(U)
    a = t.choice('a', ALL)
    x = t.real('x')
    for b in ALL:
        if CLASS[b] != CLASS[a]:
            t.check(t.raises(lambda: u.factor(a, b), ValueError), 'factor raises ValueError')
            t.check(t.raises(lambda: u.convert(x, a, b), ValueError), 'convert raises ValueError')
            t.check(t.raises(lambda: u.convert(None, a, b), ValueError), 'even when there is no number')
            t.check(t.raises(lambda: u.convert_list([x], a, b), ValueError), 'convert_list raises ValueError')
        else:
            for c in NAMES:
                if c != CLASS[a]:
                    t.check(t.raises(lambda: u.factor(a, b, units_class=c), ValueError), 'a wrong class raises ValueError')
                    t.check(t.raises(lambda: u.convert(x, a, b, units_class=c), ValueError), 'a wrong class raises ValueError')
    for bad in ('mugglemeters', 'CM', 'length'):
        t.check(t.raises(lambda: u.factor(a, bad)), 'unknown units are refused')
        t.check(t.raises(lambda: u.factor(bad, a)), 'unknown units are refused')


@case('C20', 'lists', bounds='0 to 3 numbers, six pairs of units')
def lists(t):
    u = t.mod(U)
    a, b = t.choice('pair', [('cm', 'mm'), ('ft', 'in'), ('kg', 'lb'), ('rad', 'deg'), ('yr', 'days'), ('m', 'm')])
    xs = [t.pyreal('x%d' % i, lo=-1000, hi=1000) for i in range(t.choice('n', [0, 1, 2, 3]))]
    t.track(xs, 'list')
    r = u.convert_list(xs, a, b)
    t.check(isinstance(r, list) and len(r) == len(xs), 'one number per number')
    for x, y in zip(xs, r):
        k = size(t, a) / size(t, b)
        t.check(t.near(y, x * k, F(1, 10 ** 9), 1000 * k), 'each is converted')
    t.check_unmutated()


@case('C20', 'unitless numbers', bounds='any number, None and the empty string as units')
def unitless(t):
    u = t.mod(U)
    a, b = t.choice('a', [None, '']), t.choice('b', [None, ''])
    x = t.real('x')
    t.check(t.eq(u.factor(a, b), 1), 'factor 1')
    v, w = u.convert(x, a, b)
    t.check(t.eq(v, x), 'unchanged')
    t.check(w == b, 'still unitless')
    t.check(u.units_class(a) is None, 'no class')
    v, w = u.convert_to_system_default(x, a)
    t.check(t.eq(v, x), 'no default to convert to')
    v, w = u.convert_to_system_default(x, a, 'united_states')
    t.check(t.eq(v, x), 'no default to convert to')


@case('C20', 'classes of units', bounds='every unit')
def classes(t):
    u = t.mod(U)
    a = t.choice('a', ALL)
    t.check(a in list(u.all_units), 'listed')
    t.check(u.units_class(a) == CLASS[a], 'its class')
    t.check(CLASS[a] in u.all_units_classes, 'a known class')
    b = t.choice('b', sorted(x for x in ALL if CLASS[x] == CLASS[a])[:2])
    t.check(t.near(u.raw(b) * u.factor(a, b) / u.raw(a), t.val(1), F(1, 10 ** 9)), 'raw factors are in proportion')
    for c, l in (('length', u.lengths), ('weight', u.weights), ('angle', u.angles), ('time', u.times),
                 ('time_rate', u.time_rates)):
        t.check((a in l) == (c == CLASS[a]), 'listed with its own class only')
        t.check((a in u.units_in_class(c)) == (c == CLASS[a]), 'units_in_class')


DEFAULTS = {'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
            'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'}}


@case('C20', 'default units', bounds='every unit, both systems, any number; overridden defaults')
def defaults(t):
    u = t.mod(U)
    s = t.choice('system', sorted(DEFAULTS))
    a = t.choice('a', ALL)
    x = t.real('x', lo=-1000, hi=1000)
    t.check(u.default_units(s) == DEFAULTS[s], 'the defaults')
    d = u.default_units(s, exceptions={'length': 'ft'})
    t.check(d == dict(DEFAULTS[s], length='ft'), 'exceptions replace defaults')
    t.check(u.default_units(s) == DEFAULTS[s], 'and do not stick')
    own = u.default_units(s)
    own['weight'] = 'stone'
    t.check(u.default_units(s) == DEFAULTS[s], 'the result belongs to the caller')
    v, w = u.convert_to_system_default(x, a, s)
    t.check(w == DEFAULTS[s][CLASS[a]], 'the default unit of the class')
    k = size(t, a) / size(t, w)
    t.check(t.near(v, x * k, F(1, 10 ** 9), 1000 * k), 'converted')
    v, w = u.convert_to_default(x, a, d)
    t.check(w == d[CLASS[a]], 'the unit asked for')
    k = size(t, a) / size(t, w)
    t.check(t.near(v, x * k, F(1, 10 ** 9), 1000 * k), 'converted to it')
    if s == 'metric':
        v2, w2 = u.convert_to_system_default(x, a)
        t.check(w2 == DEFAULTS[s][CLASS[a]], 'metric by default')


STEP = {'cm': F(1, 2), 'in': F(1, 4), 'kg': F(1, 2), 'lb': F(1), 'yr': F(1)}


@case('C20', 'prettify', bounds='every unit in turn, any number up to 10000; precision unset or 0 to 3')
def pretty(t):
    u = t.mod(U)
    a = t.choice('a', ['cm', 'm', 'ft', 'kg', 'stone', 'rad', 'deg', 'yr', 'days', 'hours_per_week', None])
    prec = t.choice('precision', [None, 0, 1, 2, 3])
    x = t.real('x', lo=-10000, hi=10000)
    r = u.prettify(x, a) if prec is None else u.prettify(x, a, precision=prec)
    t.check(len(r) == 4, 'value, units, value, units')
    for s, v, w in (('metric', r[0], r[1]), ('united_states', r[2], r[3])):
        want = DEFAULTS[s][CLASS[a]] if a else None
        t.check(w == want, 'the default units of either system')
        k = size(t, a) / size(t, w) if a else t.val(1)
        step = STEP.get(w, F(1, 10)) if prec is None else F(1, 10 ** prec)
        t.check(t.near(v, x * k, step / 2 + F(1, 10 ** 6)), 'rounded to the step for the units, or to the precision')
        n = v / step
        i = t.round(n)
        t.check(t.near(n, i, F(1, 10 ** 6)), 'a multiple of the step')
