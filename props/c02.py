"""C02: CoordinateManager tags."""
from symx.harness import case, long_stack
from props.c01 import add_op, run_oracle

CM = 'blmath.geometry.transform.coordinate_manager'


class Holder(object):
    """A minimal mesh: has v and copy()."""

    def __init__(self, v, name='h'):
        self.v = v
        self.name = name

    def copy(self):
        return Holder(self.v, self.name)


class Faces(Holder):
    """A mesh whose copies have their own faces."""

    def __init__(self, v, name='f', f=((0, 1, 1),)):
        Holder.__init__(self, v, name)
        self.f = [list(x) for x in f]

    def copy(self):
        return Faces(self.v, self.name, self.f)


class Plain(object):
    """A mesh-like object without copy()."""

    def __init__(self, v):
        self.v = v
        self.name = 'plain'


class Rec(object):
    """Adapter: CoordinateManager forwards do not return indices."""

    def __init__(self, cm):
        self.cm = cm

    def __getattr__(self, name):
        return getattr(self.cm, name)


def chain(t, kinds, tags):
    """Apply kinds with tags (list: position -> names)."""
    cm = t.mod(CM).CoordinateManager()
    o = []
    for n in tags.get(0, []):
        cm.tag_as(n)
    for i, k in enumerate(kinds):
        add_op(t, cm, k, i, o)
        for n in tags.get(i + 1, []):
            cm.tag_as(n)
    return cm, o


def go(o, pts, i, j):
    return run_oracle(o, pts, i, j, False) if i <= j else run_oracle(o, pts, j, i, True)


def tag_case(name, kinds, tier='quick'):
    n = len(kinds)

    @case('C02', name, tier=tier, bounds='%d transforms, a tag at every position, every pair of tags, 1 to 2 points' % n)
    def f(t):
        tags = {i: ['tag%d' % i] for i in range(n + 1)}
        cm, o = chain(t, kinds, tags)
        i, j, k = t.choice('set', range(n + 1)), t.choice('get', range(n + 1)), t.choice('third', range(n + 1))
        pts = t.arr('p', (t.choice('n', [1, 2]), 3))
        setattr(cm, 'tag%d' % i, pts)
        got = getattr(cm, 'tag%d' % j)
        ref = go(o, t.rows(t.ex(pts)), i, j)
        t.check_eq(got, ref, 'reading another tag applies the transforms between, or undoes them', 100)
        t.check_eq(getattr(cm, 'tag%d' % i), pts, 'reading the tag that was set gives the points back')
        setattr(cm, 'tag%d' % j, got)
        t.check_eq(getattr(cm, 'tag%d' % i), pts, 'setting the transformed points at the other tag and reading back', 100)
        direct = go(o, t.rows(t.ex(pts)), i, k)
        t.check_eq(getattr(cm, 'tag%d' % k), direct, 'going through an intermediate tag makes no difference', 100)
        t.check_unmutated()
    return f


tag_case('every pair of tags: translate, scale, permute', ['translate', 'scale', 'swap'])
tag_case('every pair of tags: rotate, translate', ['rotation', 'translate'])
tag_case('every pair of tags: shear, scale, translate', ['shear', 'scale', 'translate'])
tag_case('every pair of tags: five transforms', ['translate', 'scale', 'swap', 'shear', 'translate'], tier='thorough')


@case('C02', 'tags at some positions only', bounds='4 transforms, tags at any two positions and nowhere else, in either order '
      'of tagging, and more transforms after the last tag')
def sparse(t):
    n = 4
    i = t.choice('first', range(n + 1))
    j = t.choice('second', range(n + 1))
    tags = {i: ['s']}
    tags[j] = tags.get(j, []) + ['r']
    if t.flag('order'):
        tags = {k: v[::-1] for k, v in tags.items()}
    cm, o = chain(t, ['translate', 'scale', 'swap', 'translate'], tags)
    pts = t.arr('p', (1, 3))
    cm.s = pts
    t.check_eq(cm.r, go(o, t.rows(t.ex(pts)), i, j), 'exactly the transforms between the two tags', 100)
    t.check_eq(cm.do_transform(pts, 'r', 's'), go(o, t.rows(t.ex(pts)), j, i), 'do_transform agrees', 100)


@case('C02', 'tags at the same position', bounds='2 transforms, three tags at one position')
def same(t):
    cm, o = chain(t, ['translate', 'scale'], {0: ['a'], 1: ['b', 'c', 'd'], 2: ['e']})
    pts = t.arr('p', (1, 3))
    x = t.choice('from', ['a', 'b', 'c', 'd', 'e'])
    y = t.choice('to', ['a', 'b', 'c', 'd', 'e'])
    pos = {'a': 0, 'b': 1, 'c': 1, 'd': 1, 'e': 2}
    setattr(cm, x, pts)
    t.check_eq(getattr(cm, y), go(o, t.rows(t.ex(pts)), pos[x], pos[y]), 'every alias of a position is equivalent', 100)
    t.check_eq(cm.do_transform(pts, x, y), go(o, t.rows(t.ex(pts)), pos[x], pos[y]), 'do_transform agrees', 100)


@case('C02', 'tags move when reused and later transforms do not shift them', bounds='4 transforms')
def moved(t):
    cm = t.mod(CM).CoordinateManager()
    o = []
    cm.tag_as('start')
    add_op(t, cm, 'translate', 0, o)
    cm.tag_as('x')
    pts = t.arr('p', (1, 3))
    cm.x = pts
    t.check_eq(cm.start, go(o, t.rows(t.ex(pts)), 1, 0), 'before more transforms are appended', 100)
    add_op(t, cm, 'scale', 1, o)
    t.check_eq(cm.start, go(o, t.rows(t.ex(pts)), 1, 0), 'appending a transform does not move existing tags', 100)
    cm.tag_as('y')
    add_op(t, cm, 'swap', 2, o)
    cm.tag_as('z')
    t.check_eq(cm.y, go(o, t.rows(t.ex(pts)), 1, 2), 'a tag set later reads the same points', 100)
    t.check_eq(cm.z, go(o, t.rows(t.ex(pts)), 1, 3), 'and the last one', 100)
    if t.flag('retag'):
        cm.tag_as('start')
        t.check_eq(cm.start, go(o, t.rows(t.ex(pts)), 1, 3), 'a tag given again names the new position', 100)
    q = t.arr('q', (1, 3))
    cm.z = q
    t.check_eq(cm.x, go(o, t.rows(t.ex(q)), 3, 1), 'setting replaces the earlier points', 100)
    t.check_unmutated()


@case('C02', 'meshes', bounds='2 transforms, mesh with 0 to 2 vertices or none, copy() or not')
def mesh(t):
    cm, o = chain(t, ['translate', 'scale'], {0: ['a'], 1: ['b'], 2: ['c']})
    kind = t.choice('kind', [Holder, Plain, Faces])
    n = t.choice('n', [1, 2, None])
    pts = None if n is None else t.arr('p', (n, 3))
    m = kind(pts)
    x, y = t.choice('from', ['a', 'b', 'c']), t.choice('to', ['a', 'b', 'c'])
    pos = {'a': 0, 'b': 1, 'c': 2}
    setattr(cm, x, m)
    got = getattr(cm, y)
    if n is None:
        t.check(got is m and got.v is None, 'a mesh without vertices is returned as it is')
        return
    t.check(got is not m, 'a transformed mesh is a new object')
    t.check(type(got) is kind and got.name == m.name, 'of the same kind, other attributes kept')
    t.check_eq(got.v, go(o, t.rows(t.ex(pts)), pos[x], pos[y]), 'its vertices are transformed', 100)
    t.check(m.v is pts, 'the mesh that was set keeps its vertices')
    if kind is Faces:
        t.check(got.f == [[0, 1, 1]] and got.f is not m.f and got.f[0] is not m.f[0], 'and its copy is the one it makes of itself')
    t.check_unmutated()


@case('C02', 'errors', bounds='unknown tags, nothing set')
def errors(t):
    cm, o = chain(t, ['translate', 'scale'], {0: ['a'], 2: ['c']})
    pts = t.arr('p', (1, 3))
    t.check(t.raises(lambda: cm.a, ValueError), 'reading before anything is set raises ValueError')
    t.check(t.raises(lambda: setattr(cm, 'nope', pts), AttributeError), 'setting an unknown tag raises AttributeError')
    cm.a = pts
    t.check(t.raises(lambda: cm.nope, KeyError), 'reading an unknown tag raises KeyError')
    t.check(t.raises(lambda: cm.do_transform(pts, 'a', 'zz'), KeyError), 'transforming to an unknown tag raises KeyError')
    t.check(t.raises(lambda: cm.do_transform(pts, 'zz', 'a'), KeyError), 'transforming from an unknown tag raises KeyError')
    t.check_eq(cm.c, go(o, t.rows(t.ex(pts)), 0, 2), 'and the manager still works')


@case('C02', 'every kind of transform can be added', bounds='scale, translate, rotate, reorient, unit conversion, 3x3 and '
      '4x4 matrices (with and without the inverse given), after one scale; any point')
def forwards(t):
    cm = t.mod(CM).CoordinateManager()
    c = t.mod('blmath.geometry.transform.composite').CompositeTransform()
    kind = t.choice('kind', ['scale', 'translate', 'rotate', 'reorient', 'convert_units', 'append_transform3',
                             'append_transform3 with inverse', 'append_transform4', 'append_transform4 with inverse'])
    kw = {}
    if kind == 'scale':
        args = (t.real('k', lo=0.1, hi=10),)
    elif kind == 'translate':
        args = (t.vec('v'),)
    elif kind == 'rotate':
        args = (t.array(t.smul(t.real('angle', lo=0.1, hi=3), t.rows(t.unit('axis')))),)
    elif kind == 'reorient':
        R = t.rows(t.rotation('R'))
        args, kw = (), {'up': t.array(R[1]), 'look': t.array(R[2])}
    elif kind == 'convert_units':
        args, kw = (), {'from_units': 'in', 'to_units': 'cm'}
    else:
        a = t.real('a')
        M = [[0, 0, 1, 3], [1, a, 0, 0], [0, 2, 0, 1], [0, 0, 0, 1]]
        # x' = z + 3, y' = x + a y, z' = 2 y + 1
        I = [[0, 1, -a / 2, a / 2], [0, 0, t.val(1) / 2, -t.val(1) / 2], [1, 0, 0, -3], [0, 0, 0, 1]]
        k = 3 if '3' in kind else 4
        args = (t.array([r[:k] for r in M[:k]]),)
        if 'with' in kind:
            args += (t.array([r[:k] for r in I[:k]]),)
    if kind in ('scale', 'translate', 'rotate') and t.flag('argument given by name'):
        args, kw = (), {{'scale': 'factor', 'translate': 'vector', 'rotate': 'rot'}[kind]: args[0]}
    cm.tag_as('start')
    cm.scale(2)
    c.scale(2)
    cm.tag_as('before')
    getattr(cm, kind.split()[0])(*args, **kw)
    getattr(c, kind.split()[0])(*args, **kw)
    cm.tag_as('after')
    p = t.arr('p', (1, 3))
    x, y = t.choice('pair', [('start', 'after'), ('before', 'after'), ('after', 'before'), ('after', 'start')])
    setattr(cm, x, p)
    i, j = {'start': 0, 'before': 1, 'after': 2}[x], {'start': 0, 'before': 1, 'after': 2}[y]
    ref = c(p, from_range=(min(i, j), max(i, j)), reverse=i > j)
    t.check_eq(getattr(cm, y), ref, 'the same as for a composite transform', 1000)


@case('C02', 'two managers', bounds='two managers with the same tags, used in turn, any points')
def two(t):
    a, oa = chain(t, ['translate', 'scale'], {0: ['x'], 1: ['y'], 2: ['z']})
    b, ob = t.mod(CM).CoordinateManager(), []
    t.check(t.raises(lambda: b.x), 'a new manager has no tags and no points')
    b.tag_as('x')
    add_op(t, b, 'swap', 5, ob)
    b.tag_as('z')
    add_op(t, b, 'translate', 6, ob)
    b.tag_as('y')
    p, q = t.arr('p', (1, 3), lo=-10, hi=10), t.arr('q', (1, 3), lo=-10, hi=10)
    e, f = t.rows(t.ex(p)), t.rows(t.ex(q))
    a.x = p
    b.y = q
    t.check_eq(a.z, go(oa, e, 0, 2), 'the first manager', 100)
    t.check_eq(b.x, go(ob, f, 2, 0), 'the second manager', 100)
    b.z = q
    t.check_eq(a.y, go(oa, e, 0, 1), 'the first is not affected by the second', 100)
    t.check_eq(b.y, go(ob, f, 1, 2), 'the second after setting again', 100)
    # the same points set at different tags in turn
    for s in ('x', 'y', 'z', 'x'):
        setattr(a, s, p)
        for g in ('z', 'x', 'y'):
            t.check_eq(getattr(a, g), go(oa, e, 'xyz'.index(s), 'xyz'.index(g)), 'setting replaces the earlier points and their tag', 100)
    t.check_unmutated()


@case('C02', 'many points and tags', bounds='70 points, all but one of them fixed; ten transforms with a tag at every position')
def many(t):
    tags = {i: ['t%d' % i] for i in range(11)}
    kinds = ['translate', 'swap'] * 5
    cm, o = t.mod(CM).CoordinateManager(), []
    cm.tag_as('t0')
    for i in range(10):
        if i in (2, 7):
            add_op(t, cm, kinds[i], i, o)
        else:
            w = [i % 3 - 1, i % 4, 1 - i]
            cm.translate(t.array(w))
            o.append((lambda p, w=w: t.add(p, w), lambda p, w=w: t.sub(p, w)))
        cm.tag_as('t%d' % (i + 1))
    v, rows = long_stack(t, 'v', 70, 69)
    i, j = t.choice('pair', [(0, 10), (10, 0), (3, 8), (8, 3), (9, 10), (10, 9)])
    setattr(cm, 't%d' % i, v)
    t.check_eq(getattr(cm, 't%d' % j), go(o, rows, i, j), 'exactly the transforms between the two tags', 1000)
    t.check_unmutated()


@case('C02', 'reading again', bounds='3 transforms; a result overwritten by the caller, the tag read again, points set again, a tag '
      'moved, any points')
def again(t):
    cm, o = chain(t, ['translate', 'scale', 'swap'], {0: ['a'], 1: ['b'], 3: ['c']})
    pos = {'a': 0, 'b': 1, 'c': 3}
    x, y = t.choice('pair', [('a', 'b'), ('a', 'c'), ('b', 'c'), ('c', 'b'), ('c', 'a'), ('b', 'a')])
    p, q = t.arr('p', (2, 3), lo=-10, hi=10), t.arr('q', (1, 3), lo=-10, hi=10)
    e, f = t.rows(t.ex(p)), t.rows(t.ex(q))
    setattr(cm, x, p)
    first = getattr(cm, y)
    t.check_eq(first, go(o, e, pos[x], pos[y]), 'the points move to the other frame', 100)
    t.scribble(first)
    t.check_eq(getattr(cm, y), go(o, e, pos[x], pos[y]), 'they do so again when the first result was overwritten', 100)
    t.check_eq(cm.do_transform(p, x, y), go(o, e, pos[x], pos[y]), 'also when given to do_transform', 100)
    t.check_eq(cm.do_transform(q, y, x), go(o, f, pos[y], pos[x]), 'and back', 100)
    setattr(cm, y, q)
    t.check_eq(getattr(cm, x), go(o, f, pos[y], pos[x]), 'points set later replace the points', 100)
    t.check_unmutated()
