"""C06: vector shortcuts (blmath.numerics.vector_shortcuts)."""
from symx.harness import case, changing, apart, long_stack, LONG

VX = 'blmath.numerics.vector_shortcuts'


@case('C06', 'normalize one vector', bounds='any nonzero 3-vector')
def normalize1(t):
    vx = t.mod(VX)
    v = t.vec('v', 3)
    e = t.rows(t.ex(v))
    t.assume(t.gt(t.norm2(e), 0))
    u = vx.normalize(v)
    l = t.norm(e)
    t.check_eq(u, [x / l for x in e], 'normalize(v) is v scaled to length one')
    t.check(t.eq(t.norm2(t.rows(u)), 1), 'normalize(v) has length one')
    t.check(t.eq(vx.magnitude(v), l), 'magnitude is the Euclidean length')
    t.check_unmutated()


for d in (1, 2, 4):
    @case('C06', 'normalize and magnitude in dimension %d' % d, bounds='any nonzero %d-vector' % d)
    def normalize_d(t, d=d):
        vx = t.mod(VX)
        v = t.vec('v', d)
        e = t.rows(t.ex(v))
        t.assume(t.gt(t.norm2(e), 0))
        l = t.norm(e)
        t.check_eq(vx.normalize(v), [x / l for x in e], 'normalize(v) is v scaled to length one')
        t.check(t.eq(vx.magnitude(v), l), 'magnitude is the Euclidean length')
        t.check_unmutated()


for k in (1, 2, 3, 4, 5):
    @case('C06', 'normalize and magnitude of a stack of %d' % k, bounds='%d stacked nonzero 3-vectors' % k,
          tier='quick' if k < 5 else 'thorough')
    def normalize_k(t, k=k):
        vx = t.mod(VX)
        v = t.arr('v', (k, 3))
        e = t.rows(t.ex(v))
        for r in e:
            t.assume(t.gt(t.norm2(r), 0))
        want = [[x / t.norm(r) for x in r] for r in e]
        t.check_eq(vx.normalize(v), want, 'normalize of a stack normalizes each row')
        t.check_eq(vx.magnitude(v), [t.norm(r) for r in e], 'magnitude of a stack is per row')
        t.check_unmutated()


@case('C06', 'normalize integer vector', bounds='any nonzero integer 3-vector')
def normalize_int(t):
    vx = t.mod(VX)
    v = t.ints('v', 3)
    e = t.rows(t.ex(v))
    t.assume(t.gt(t.norm2(e), 0))
    l = t.norm(e)
    t.check_eq(vx.normalize(v), [x / l for x in e], 'normalize(v) is v scaled to length one')
    t.check(t.eq(vx.magnitude(v), l), 'magnitude is the Euclidean length')
    t.check_unmutated()


@case('C06', 'projection and rejection of one vector', bounds='any 3-vector, any nonzero onto')
def proj1(t):
    vx = t.mod(VX)
    v, o = t.vec('v'), t.vec('o')
    e, f = t.rows(t.ex(v)), t.rows(t.ex(o))
    n2 = t.norm2(f)
    t.assume(t.gt(n2, 0))
    d = t.dot(e, f)
    s = vx.sproj(v, onto=o)
    t.check(t.eq(s, d / t.sqrt(n2)), 'scalar projection is v.o/|o|')
    p = vx.proj(v, onto=o)
    t.check_eq(p, [d * x / n2 for x in f], 'proj is the orthogonal projection')
    r = vx.reject(v, from_v=o)
    t.check_eq(r, [x - d * y / n2 for x, y in zip(e, f)], 'reject is the perpendicular remainder')
    t.check(t.eq(t.dot(t.rows(r), f), 0, t.norm2(e) + n2), 'rejection is perpendicular to from_v')
    t.check_eq(p + r, e, 'proj + reject is the vector')
    t.check_unmutated()


@case('C06', 'projection does not depend on the length of onto', bounds='any 3-vector, nonzero onto, factor != 0')
def proj_scale(t):
    vx = t.mod(VX)
    v, o = t.vec('v'), t.vec('o')
    k = t.real('k')
    t.assume(t.ne(t.ex(k), 0))
    t.assume_nonzero(o)
    t.check_eq(vx.proj(v, onto=o * k), vx.proj(v, onto=o), 'proj is unchanged when onto is rescaled')
    t.check_eq(vx.reject(v, from_v=o * k), vx.reject(v, from_v=o), 'reject is unchanged when from_v is rescaled')
    t.check(t.eq(vx.sproj(v, onto=o * k), (1 if t.branch(t.gt(t.ex(k), 0)) else -1) * vx.sproj(v, onto=o)),
            'sproj changes at most sign when onto is rescaled')


for k in (1, 2, 3, 4):
    @case('C06', 'stacked projection of %d vectors' % k, bounds='%d stacked 3-vectors, any nonzero onto' % k,
          tier='quick' if k < 4 else 'thorough')
    def proj_k(t, k=k):
        vx = t.mod(VX)
        v, o = t.arr('v', (k, 3)), t.vec('o')
        e, f = t.rows(t.ex(v)), t.rows(t.ex(o))
        n2 = t.norm2(f)
        t.assume(t.gt(n2, 0))
        t.check_eq(vx.sproj(v, onto=o), [t.dot(r, f) / t.sqrt(n2) for r in e], 'stacked sproj is per row')
        t.check_eq(vx.proj(v, onto=o), [[t.dot(r, f) * x / n2 for x in f] for r in e], 'stacked proj is per row')
        t.check_eq(vx.reject(v, from_v=o), [[y - t.dot(r, f) * x / n2 for x, y in zip(f, r)] for r in e],
                   'stacked reject is per row')
        t.check_unmutated()


for k in (0, 1, 3):
    @case('C06', 'reject_axis (%s)' % ('stack of %d' % k if k else 'one vector'), bounds='axis 0..2, any values')
    def reject_axis(t, k=k):
        vx = t.mod(VX)
        v = t.arr('v', (k, 3)) if k else t.vec('v')
        e = t.rows(t.ex(v))
        e = e if k else [e]
        for axis in (0, 1, 2):
            z = [[0 if i == axis else x for i, x in enumerate(r)] for r in e]
            q = [[x for i, x in enumerate(r) if i != axis] for r in e]
            t.check_eq(vx.reject_axis(v, axis), z if k else z[0], 'reject_axis zeroes exactly that component')
            t.check_eq(vx.reject_axis(v, axis=axis, squash=False), z if k else z[0],
                       'reject_axis zeroes exactly that component')
            t.check_eq(vx.reject_axis(v, axis=axis, squash=True), q if k else q[0],
                       'reject_axis with squash drops exactly that component')
        for axis in (3, -1, 'x'):
            t.check(t.raises(lambda: vx.reject_axis(v, axis=axis, squash=True), ValueError),
                    'squash rejects an axis outside 0..2')
        t.check_unmutated()


@case('C06', 'arrays of other rank are refused', bounds='0-d and 3-d arrays')
def ranks(t):
    vx = t.mod(VX)
    v3 = t.arr('v', (1, 1, 3))
    o = t.vec('o')
    t.assume_nonzero(o)
    for fn in (vx.normalize, vx.magnitude, lambda v: vx.proj(v, onto=o), lambda v: vx.reject_axis(v, 0),
               lambda v: vx.reject_axis(v, 0, squash=True)):
        t.check(t.raises(lambda: fn(v3), ValueError), 'a 3-d array raises ValueError')


@case('C06', 'almost_zero', bounds='any 3-vector, any tolerance > 0')
def almost_zero(t):
    vx = t.mod(VX)
    v = t.vec('v')
    e = t.rows(t.ex(v))
    a = t.real('atol', pos=True)
    want = t.and_(*[t.le(t.abs(x), t.ex(a)) for x in e])
    t.check(t.iff(t.truth(vx.almost_zero(v, atol=a)), want), 'almost_zero iff every |component| <= atol')
    want = t.and_(*[t.le(t.abs(x), t.val(_f(1, 10 ** 8))) for x in e])
    t.check(t.iff(t.truth(vx.almost_zero(v)), want), 'default tolerance is 1e-8')
    t.check_unmutated()


@case('C06', 'almost_collinear', bounds='any two 3-vectors, any tolerance > 0')
def almost_collinear(t):
    vx = t.mod(VX)
    u, v = t.vec('u'), t.vec('v')
    a = t.real('atol', pos=True)
    c = t.cross(t.rows(t.ex(u)), t.rows(t.ex(v)))
    want = t.le(t.norm2(c), t.ex(a) * t.ex(a))
    t.check(t.iff(t.truth(vx.almost_collinear(u, v, atol=a)), want), 'almost_collinear iff |u x v| <= atol')
    t.check_unmutated()


@case('C06', 'basis vectors', bounds='finite')
def basis(t):
    vx = t.mod(VX)
    b = vx.basis
    want = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}
    for k, w in want.items():
        t.check_eq(getattr(b, k), w, 'basis.%s' % k)
        t.check_eq(getattr(b, 'neg_' + k), [-x for x in w], 'basis.neg_%s' % k)
        a = getattr(b, k)
        a[0] = 7.
        t.check_eq(getattr(b, k), w, 'basis vectors are fresh arrays')


def _f(a, b):
    from fractions import Fraction
    return Fraction(a, b)


@case('C06', 'long stacks', bounds='stacks of 70 and 300 vectors, all but one of them fixed, any nonzero onto')
def long_stacks(t):
    vx = t.mod(VX)
    n, at = t.choice('rows', LONG)
    v, e = long_stack(t, 'v', n, at)
    o = t.vec('o', lo=-100, hi=100) if n < 100 else t.array([3, -2, 6])
    f = t.rows(t.ex(o))
    t.assume(t.gt(t.norm2(e[at]), t.val(1) / 100))
    t.assume(t.gt(t.norm2(f), t.val(1) / 100))
    n2 = t.norm2(f)
    t.check_eq(vx.magnitude(v), [t.norm(r) for r in e], 'magnitude of a stack is per row')
    t.check_eq(vx.normalize(v), [[x / t.norm(r) for x in r] for r in e], 'normalize of a stack normalizes each row')
    t.check_eq(vx.sproj(v, onto=o), [t.dot(r, f) / t.sqrt(n2) for r in e], 'stacked sproj is per row')
    t.check_eq(vx.proj(v, onto=o), [[t.dot(r, f) * x / n2 for x in f] for r in e], 'stacked proj is per row')
    t.check_eq(vx.reject(v, from_v=o), [[y - t.dot(r, f) * x / n2 for x, y in zip(f, r)] for r in e], 'stacked reject is per row')
    t.check_eq(vx.reject_axis(v, 1), [[r[0], 0, r[2]] for r in e], 'reject_axis zeroes exactly that component')
    t.check_eq(vx.reject_axis(v, 1, squash=True), [[r[0], r[2]] for r in e], 'and drops it with squash')
    t.check_unmutated()


VX = 'blmath.numerics.vector_shortcuts'
changing('C06', ('normalize', lambda t, a: t.mod(VX).normalize(a), [[1, 2, 2]], apart),
         ('proj', lambda t, a, b: t.mod(VX).proj(a, onto=b), [[1, 2, 2], [0, 1, 1]], apart),
         ('reject', lambda t, a, b: t.mod(VX).reject(a, from_v=b), [[1, 2, 2], [0, 1, 1]], apart),
         ('magnitude', lambda t, a: t.mod(VX).magnitude(a), [[1, 2, 2]], None))
