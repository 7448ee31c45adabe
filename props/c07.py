"""C07: angles between vectors."""
from symx.harness import SIZES, case, resized

VX = 'blmath.numerics.vector_shortcuts'


def two(t, planar=False):
    u, v = t.vec('u'), t.vec('v')
    e, f = t.rows(t.ex(u)), t.rows(t.ex(v))
    t.assume(t.gt(t.norm2(e), 0))
    t.assume(t.gt(t.norm2(f), 0))
    return u, v, e, f


def cosdeg(t, a):
    return t.cos(a * t.pi / 180)


@case('C07', 'unsigned angle', bounds='any two nonzero 3-vectors')
def angle(t):
    vx = t.mod(VX)
    u, v, e, f = two(t)
    a = vx.angle(u, v, look=vx.basis.z)
    t.check(t.eq(cosdeg(t, a) * t.norm(e) * t.norm(f), t.dot(e, f), t.norm2(e) + t.norm2(f)),
            'cosine of the angle is u.v/(|u||v|)')
    t.check(t.and_(t.ge(a, 0), t.le(a, 180)), 'angle is between 0 and 180 degrees')
    t.check_unmutated()


@case('C07', 'unsigned angle special values', bounds='any nonzero 3-vector, any nonzero factor')
def special(t):
    vx = t.mod(VX)
    u = t.unit('u')
    k = t.real('k', pos=True)
    t.check(t.eq(vx.angle(u, u * k, look=vx.basis.z), 0, 100), 'same direction: 0 degrees')
    t.check(t.eq(vx.angle(u, u * -k, look=vx.basis.z), 180, 1000), 'opposite direction: 180 degrees')
    w = t.array(t.cross(t.rows(u), t.rows(t.vec('w'))))
    t.assume_nonzero(w)
    t.check(t.eq(vx.angle(u, w, look=vx.basis.z), 90), 'perpendicular: 90 degrees')


@case('C07', 'unsigned angle is symmetric and ignores lengths', bounds='any two nonzero 3-vectors, factors > 0')
def symm(t):
    vx = t.mod(VX)
    u, v = t.unit('u'), t.unit('v')
    k = t.real('k', pos=True)
    z = vx.basis.y
    a = vx.angle(u, v, look=z)
    t.check(t.eq(vx.angle(v, u, look=z), a), 'angle(u, v) = angle(v, u)')
    t.check(t.eq(vx.angle(u * k, v, look=z), a), 'angle does not depend on lengths')
    t.check(t.eq(vx.angle(u * -k, v, look=z), 180 - a), 'reversing one vector gives the supplement')


@case('C07', 'signed angle', bounds='any two nonzero 3-vectors, any look vector')
def signed(t):
    vx = t.mod(VX)
    u, v, e, f = two(t)
    look = t.vec('look')
    s = t.dot(t.cross(e, f), t.rows(t.ex(look)))
    a = vx.signed_angle(u, v, look)
    t.check(t.eq(cosdeg(t, a) * t.norm(e) * t.norm(f), t.dot(e, f), t.norm2(e) + t.norm2(f)),
            'cosine of the signed angle is u.v/(|u||v|)')
    t.check(t.and_(t.ge(a, -180), t.le(a, 180)), 'signed angle is between -180 and 180')
    if t.branch(t.lt(s, 0)):
        t.check(t.le(a, 0), 'negative when u x v points against look')
    else:
        t.check(t.ge(a, 0), 'positive when u x v points along look, or the look component is zero')
    t.check_unmutated()


@case('C07', 'signed angle in the xy plane', bounds='any angle in (-180, 180), any lengths > 0, look = z')
def planar(t):
    vx = t.mod(VX)
    u = t.unit('u', 2)
    w = t.unit('w', 2)
    k, m = t.real('k', pos=True), t.real('m', pos=True)
    (a, b), (c, s) = t.rows(u), t.rows(w)
    U = t.array([a * k, b * k, 0])
    V = t.array([(a * c - b * s) * m, (b * c + a * s) * m, 0])
    got = vx.signed_angle(U, V, vx.basis.z)
    t.check(t.eq(cosdeg(t, got), c), 'turning u by theta gives cos theta')
    t.check(t.eq(t.sin(got * t.pi / 180), s), 'turning u by theta gives sin theta')


@case('C07', 'signed angle is antisymmetric', bounds='any two unit 3-vectors, any look with nonzero component')
def anti(t):
    vx = t.mod(VX)
    u, v = t.unit('u'), t.unit('v')
    look = t.vec('look')
    s = t.dot(t.cross(t.rows(t.ex(u)), t.rows(t.ex(v))), t.rows(t.ex(look)))
    t.assume(t.ne(s, 0))
    a = vx.signed_angle(u, v, look)
    t.check(t.eq(vx.signed_angle(v, u, look), -a), 'swapping the vectors negates the signed angle')
    t.check(t.eq(vx.signed_angle(u, v, -look), -a), 'looking from behind negates the signed angle')
    b = vx.angle(u, v, look)
    t.check(t.eq(t.abs(a), b), 'its absolute value is the unsigned angle')


@case('C07', 'vectors of any length', bounds='any angle in (-180, 180), lengths from 0.1 to 10 times 2^-30 or 2^30 each, a look vector of '
      'length 2^-30 or 2^30')
def lengths(t):
    vx = t.mod(VX)
    w = t.unit('w', 2)
    k, m = [t.real(n, lo=0.1, hi=10) for n in 'km']
    c, s = t.rows(w)
    a, b, l = [t.choice('size of ' + n, SIZES) for n in ('u', 'v', 'look')]
    U = t.array(resized(t, [k, t.val(0), t.val(0)], a))
    V = t.array(resized(t, [c * m, s * m, t.val(0)], b))
    got = vx.signed_angle(U, V, t.array(resized(t, [t.val(0), t.val(0), t.val(1)], l)))
    t.check(t.eq(cosdeg(t, got), c), 'turning u by theta gives cos theta')
    t.check(t.eq(t.sin(got * t.pi / 180), s), 'turning u by theta gives sin theta')
    t.check(t.eq(cosdeg(t, vx.angle(U, V, vx.basis.z)), c), 'the angle between them')
