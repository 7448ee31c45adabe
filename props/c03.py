"""C03: rotation_from_up_and_look and reorient."""
from fractions import Fraction

from symx.harness import case, changing, apart

ROT = 'blmath.geometry.transform.rotation'
CT = 'blmath.geometry.transform.composite'


def check_rotation(t, R, what):
    r = t.rows(R)
    for i in range(3):
        for j in range(i, 3):
            t.check(t.eq(t.dot(r[i], r[j]), 1 if i == j else 0), '%s: rows are orthonormal' % what)
    t.check(t.eq(t.det3(r), 1), '%s: determinant is +1' % what)


def apart(t, e, f):
    """up and look clearly not colinear."""
    c = t.cross(e, f)
    t.assume(t.gt(t.norm2(c), Fraction(1, 10 ** 12) * t.norm2(e) * t.norm2(f)))


def spec(t, R, e, f):
    check_rotation(t, R, 'rotation_from_up_and_look')
    ru = t.matvec(t.rows(R), e)
    rl = t.matvec(t.rows(R), f)
    n = t.norm(e)
    t.check_eq(ru, [0, n, 0], 'up is taken to +y', t.norm2(e))
    t.check(t.eq(rl[0], 0, t.norm2(f)), 'look is taken to the y-z plane')
    t.check(t.gt(rl[2], 0), 'on the side of +z')


@case('C03', 'any up and look', bounds='any two non-colinear vectors (angle above 1e-6)')
def general(t):
    rot = t.mod(ROT)
    up, look = t.vec('up'), t.vec('look')
    e, f = t.rows(t.ex(up)), t.rows(t.ex(look))
    t.assume(t.gt(t.norm2(e), 0))
    t.assume(t.gt(t.norm2(f), 0))
    apart(t, e, f)
    spec(t, rot.rotation_from_up_and_look(up, look), e, f)
    t.check_unmutated()


@case('C03', 'lists and integers', bounds='any two non-colinear integer vectors given as lists')
def lists(t):
    rot = t.mod(ROT)
    up = [t.integer('u%d' % i, -9, 9) for i in range(3)]
    look = [t.integer('l%d' % i, -9, 9) for i in range(3)]
    t.assume(t.gt(t.norm2(up), 0))
    t.assume(t.gt(t.norm2(look), 0))
    apart(t, up, look)
    spec(t, rot.rotation_from_up_and_look(up, look), up, look)


@case('C03', 'integer arrays', bounds='any two non-colinear integer arrays')
def iarrays(t):
    rot = t.mod(ROT)
    up, look = t.ints('u', 3, -9, 9), t.ints('l', 3, -9, 9)
    e, f = t.rows(t.ex(up)), t.rows(t.ex(look))
    t.assume(t.gt(t.norm2(e), 0))
    t.assume(t.gt(t.norm2(f), 0))
    apart(t, e, f)
    spec(t, rot.rotation_from_up_and_look(up, look), e, f)
    t.check_unmutated()


@case('C03', 'lengths do not matter', bounds='any rotation frame, any lengths in [0.1, 10], any multiple of up added to look')
def invariance(t):
    rot = t.mod(ROT)
    R = t.rotation('R')
    r = t.rows(R)
    a, b = t.real('a', lo=Fraction(1, 10), hi=10), t.real('b', lo=Fraction(1, 10), hi=10)
    c = t.real('c', lo=-10, hi=10)
    got = rot.rotation_from_up_and_look(t.array(t.smul(a, r[1])), t.array(t.add(t.smul(b, r[2]), t.smul(c, r[1]))))
    t.check_eq(got, r, 'only the half-plane spanned by up and look matters', 1e4)


@case('C03', 'degenerate input is refused', bounds='zero up, zero look, any colinear pair')
def degenerate(t):
    rot = t.mod(ROT)
    up = t.vec('up')
    kind = t.choice('kind', ['zero up', 'zero look', 'colinear'])
    if kind == 'zero up':
        t.check(t.raises(lambda: rot.rotation_from_up_and_look(up * 0, up), ValueError), 'zero up raises ValueError')
    elif kind == 'zero look':
        t.check(t.raises(lambda: rot.rotation_from_up_and_look(up, up * 0), ValueError), 'zero look raises ValueError')
    else:
        k = t.real('k')
        if not t.symbolic:
            e = t.rows(up)
            t.assume(t.gt(t.norm2(e), 1e-6))
            t.assume(t.gt(t.abs(k), 1e-3))
            t.assume(t.lt(t.abs(k), 1e3))
        t.check(t.raises(lambda: rot.rotation_from_up_and_look(up, up * k), ValueError),
                'colinear up and look raise ValueError')


@case('C03', 'reorient a composite transform', bounds='any two unit vectors that are not colinear, any point')
def reorient(t):
    c = t.mod(CT).CompositeTransform()
    rot = t.mod(ROT)
    up, look = t.unit('up'), t.unit('look')
    e, f = t.rows(up), t.rows(look)
    apart(t, e, f)
    R = t.rows(rot.rotation_from_up_and_look(up, look))
    p = t.arr('p', (1, 3))
    t.check(c.reorient(up, look) == 0, 'reorient returns its index')
    t.check_eq(c(p), [t.matvec(R, t.rows(p)[0])], 'reorient applies that rotation', 100)
    back = c(p, reverse=True)
    t.check_eq(back, [t.matvec([list(x) for x in zip(*R)], t.rows(p)[0])], 'its reverse applies the transpose', 100)


@case('C03', 'reorient by short and long vectors', bounds='up and look of lengths from 1e-10 to 1e10 in four pairs of directions, any point, through '
      'a composite transform or a coordinate manager')
def reorient_sizes(t):
    e, f, r = t.choice('directions', [
        ([0, 1, 0], [0, 0, 1], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
        ([0, 1, 0], [3, 0, 4], [[4, 0, -3], [0, 5, 0], [3, 0, 4]]),
        ([3, 4, 0], [0, 0, 1], [[4, -3, 0], [3, 4, 0], [0, 0, 5]]),
        ([-3, 0, 4], [-3, 5, 4], [[4, 0, 3], [-3, 0, 4], [0, 5, 0]])])
    n = t.choice('sizes', [(1, 1, 1), (1, 10 ** 10, 1), (10 ** 10, 1, 1), (10 ** 10, 10 ** 10, 1), (1, 1, 10 ** 10)])
    r = [[t.val(Fraction(x, int(sum(y * y for y in row) ** 0.5))) for x in row] for row in r]
    r[0] = t.cross(r[1], r[2])
    up, look = [t.array([t.val(Fraction(x * n[2], k)) for x in v]) for v, k in ((e, n[0]), (f, n[1]))]
    p = t.arr('p', (1, 3))
    want = [t.matvec(r, t.rows(p)[0])]
    if t.flag('managed'):
        cm = t.mod('blmath.geometry.transform.coordinate_manager').CoordinateManager()
        cm.tag_as('world')
        cm.reorient(up=up, look=look)
        cm.tag_as('body')
        cm.world = p
        t.check_eq(cm.body, want, 'any length will do', 100)
    else:
        c = t.mod(CT).CompositeTransform()
        c.reorient(up, look)
        t.check_eq(c(p), want, 'any length will do', 100)


@case('C03', 'reorient through a coordinate manager', bounds='orthogonal unit up and look, any point')
def reorient_cm(t):
    cm = t.mod('blmath.geometry.transform.coordinate_manager').CoordinateManager()
    R = t.rotation('R')
    r = t.rows(R)
    # the rotation for unit, orthogonal up and look is checked in the other cases
    up, look = t.array(r[1]), t.array(r[2])
    cm.tag_as('world')
    cm.reorient(up=up, look=look)
    cm.tag_as('body')
    p = t.arr('p', (1, 3))
    cm.world = p
    t.check_eq(cm.body, [t.matvec(r, t.rows(p)[0])], 'body axes become y and z', 100)
    cm.body = p
    t.check_eq(cm.world, [t.matvec([list(x) for x in zip(*r)], t.rows(p)[0])], 'and back', 100)


changing('C03', ('rotation_from_up_and_look', lambda t, u, l: t.mod('blmath.geometry.transform.rotation').rotation_from_up_and_look(u, l),
                 [[0, 1, 0], [1, 0, 1]], apart))
