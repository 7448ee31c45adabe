"""C27: Jacobians are derivatives."""
from fractions import Fraction as F

from symx.harness import resized, case
from props.c04 import formula, shaped, svd_of_scaled_rotation

ROD = 'blmath.geometry.transform.rodrigues'
NRM = 'blmath.optimization.objectives.normals'
TINY = F(1, 10 ** 15)
TOL = 1000
# [e_m]_x, flattened
GEN = [[0, 0, 0, 0, 0, -1, 0, 1, 0], [0, 0, 1, 0, 0, 0, -1, 0, 0], [0, -1, 0, 1, 0, 0, 0, 0, 0]]

MESHES = [
    (3, [[0, 1, 2]]),
    (4, [[0, 1, 2], [2, 1, 3]]),
    (4, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]),
    (5, [[4, 0, 1], [2, 4, 1], [3, 4, 2]]),
]
CORNERS = [[0, 0, 0], [2, 0, 1], [0, 3, 0], [1, 1, 2], [-1, 2, 1]]


def dense(t, J):
    return t.rows(t.array(J) if isinstance(J, list) else J.toarray() if hasattr(J, 'toarray') else J)


def trans(J):
    return [list(r) for r in zip(*J)]


@case('C27', 'rodrigues: vector to matrix', bounds='any rotation vector longer than 1e-15, all three shapes')
def vec(t):
    fn = t.mod(ROD).rodrigues
    r = t.vec('r')
    n2 = t.norm2(t.rows(t.ex(r)))
    t.assume(t.gt(n2, TINY * TINY))
    if not t.symbolic:
        t.assume(t.gt(n2, 1e-6))
        t.assume(t.lt(n2, 1e2))
    kind = t.choice('shape', ['3', '3x1', '1x3'])
    R, J = fn(shaped(t, r, kind), calculate_jacobian=True)
    t.check_eq(R, fn(shaped(t, r, kind)), 'the same matrix as without the Jacobian')
    t.check(tuple(J.shape) == (3, 9), 'three rows of nine')
    D = t.jacobian(lambda x: fn(shaped(t, x, kind)), r)
    t.check(t.eqs(trans(t.rows(J)), D, TOL), 'the derivatives of the matrix by the vector')
    t.check_unmutated()


@case('C27', 'rodrigues: zero vector', bounds='the zero vector and the identity matrix')
def zero(t):
    fn = t.mod(ROD).rodrigues
    R, J = fn(shaped(t, t.np.zeros(3), t.choice('shape', ['3', '3x1', '1x3'])), True)
    t.check_eq(R, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'the identity')
    t.check_eq(J, GEN, 'the derivative by the vector at zero')
    svd_of_scaled_rotation(t)
    r, Jb = fn(t.np.eye(3), True)
    t.check_eq(r, [[0], [0], [0]], 'the zero vector')
    t.check(tuple(Jb.shape) == (9, 3), 'nine rows of three')
    t.check_eq(t.matmul(GEN, t.rows(Jb)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'the Jacobian back undoes the Jacobian forward')


@case('C27', 'rodrigues: matrix to vector', bounds='any rotation by an angle in [1e-4, pi) with sine at least 2e-5', deadline=(120, 500))
def mat(t):
    fn = t.mod(ROD).rodrigues
    k = t.unit('k')
    th = t.real('th', lo=F(1, 10 ** 4), gen=lambda rng, i: F(rng.randrange(1, 30), 10))
    t.assume(t.lt(th, t.pi))
    t.angle_facts(th)
    c, s = t.cos(th), t.sin(th)
    t.assume(t.gt(s, F(2, 10 ** 5)))
    if not t.symbolic:
        t.assume(t.gt(s, 1e-2))
    svd_of_scaled_rotation(t)
    e = t.rows(k)
    R = t.track(t.array(formula(t, e, c, s)))
    _, J = fn(t.array(t.smul(th, e)), calculate_jacobian=True)
    r, Jb = fn(R, calculate_jacobian=True)
    t.check_eq(r, fn(R), 'the same vector as without the Jacobian')
    t.check(tuple(Jb.shape) == (9, 3), 'nine rows of three')
    t.check(t.eqs(t.matmul(t.rows(J), t.rows(Jb)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], TOL), 'the Jacobian back undoes the Jacobian forward')
    t.check_unmutated()


@case('C27', 'Rodrigues expression', bounds='any rotation vector longer than 1e-15')
def rod_ch(t):
    r = t.vec('r')
    n2 = t.norm2(t.rows(t.ex(r)))
    t.assume(t.gt(n2, TINY * TINY))
    if not t.symbolic:
        t.assume(t.gt(n2, 1e-6))
        t.assume(t.lt(n2, 1e2))
    o = t.mod(ROD).Rodrigues(rt=r)
    fn = t.mod(ROD).rodrigues
    R, J = fn(r, True)
    t.check(t.eqs(t.rows(o.r), t.rows(R), TOL), 'the value is the rotation matrix')
    t.check(t.eqs(dense(t, o.dr_wrt(o.rt)), trans(t.rows(J)), TOL), 'the derivative is that of rodrigues')


def wide(t, rows, lo=F(1, 10)):
    for v in rows:
        t.assume(t.gt(t.norm2(v), 0))
        t.assume(t.gt(t.norm2(v), lo))


@case('C27', 'NormalizedNx3', bounds='1 to 3 vectors of a squared length above 0.1, as rows or flat, changed once (also in their number)')
def normalized(t):
    N = t.mod(NRM).NormalizedNx3
    n = t.choice('n', [1, 2, 3])
    flat = t.flag('flat')

    def shape(x):
        return x.reshape(-1) if flat else x

    v = t.arr('v', (n, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(v))
    wide(t, rows)
    o = N(shape(v))
    if t.flag('changed'):
        w = t.arr('w', (t.choice('now', [n, 4 - n] if n != 2 else [n]), 3), lo=-10, hi=10)
        wide(t, t.rows(t.ex(w)))
        o.r
        o.dr_wrt(o.v)
        o.v = shape(w)
        v, rows = w, t.rows(t.ex(w))
    r = o.r
    t.check(tuple(r.shape) == tuple(shape(v).shape), 'the shape of the vectors')
    t.check(t.eqs(t.rows(r.reshape(-1, 3)), [[x / t.norm(q) for x in q] for q in rows]), 'unit vectors')
    D = t.jacobian(lambda x: N(shape(x)).r, v)
    t.check(t.eqs(dense(t, o.dr_wrt(o.v)), D, TOL), 'the derivatives of the unit vectors')
    t.check_unmutated()


@case('C27', 'NormalizedNx3: zero', bounds='a zero vector next to another')
def normalized_zero(t):
    v = t.vec('v')
    wide(t, [t.rows(t.ex(v))])
    at = t.choice('at', [0, 1])
    z = [0, 0, 0]
    q = t.rows(v)
    o = t.mod(NRM).NormalizedNx3(t.array([z, q] if at == 0 else [q, z]))
    u = [x / t.norm(q) for x in t.rows(t.ex(v))]
    t.check(t.eqs(t.rows(o.r), [z, u] if at == 0 else [u, z]), 'zero stays zero')


@case('C27', 'vectors and triangles of any size', bounds='two vectors with a squared length above 0.1, a triangle, all times 2^-40, 2^-20 or 2^30')
def sizes(t):
    s = t.choice('size', [2.0 ** -40, 2.0 ** -20, 2.0 ** 30])
    rows = t.rows(t.ex(t.arr('v', (2, 3), lo=-10, hi=10)))
    wide(t, rows)
    v = t.track(t.array(resized(t, rows, s)), 'v')
    o = t.mod(NRM).NormalizedNx3(v)
    units = [[x / t.norm(q) for x in q] for q in rows]
    t.check(t.eqs(t.rows(o.r), units), 'unit vectors')
    D = t.rows(dense(t, o.dr_wrt(o.v)))
    for k, (q, u) in enumerate(zip(rows, units)):
        for i in range(3):
            for j in range(3):
                want = ((1 if i == j else 0) - u[i] * u[j]) / t.norm(q)
                t.check_eq(D[3 * k + i][3 * k + j] * s, want, 'the derivatives of the unit vectors')
    p = t.array(resized(t, [[t.val(0)] * 3] + rows, s))
    n = t.cross(*rows)
    t.assume(t.gt(t.norm2(n), F(1, 10)))
    t.check(t.eqs(t.rows(t.mod(NRM).TriNormals(p, t.iarray([[0, 1, 2]])).r), [x / t.norm(n) for x in n]), 'the unit normal of the triangle')
    t.check_unmutated()


@case('C27', 'CrossProduct', bounds='1 to 3 pairs of vectors, rows or flat, either or both changed once (both also in their number)')
def crossing(t):
    X = t.mod(NRM).CrossProduct
    n = t.choice('n', [1, 2, 3])
    flat = t.flag('flat')

    def shape(x):
        return x.reshape(-1) if flat else x

    a, b = t.arr('a', (n, 3)), t.arr('b', (n, 3))
    o = X(shape(a), shape(b))
    ch = t.choice('changed', [None, 'a', 'b', 'both'] + (['number'] if n != 2 else []))
    if ch in ('both', 'number'):
        o.r
        o.dr_wrt(o.a)
        o.dr_wrt(o.b)
        n = 4 - n if ch == 'number' else n
        a, b = t.arr('a2', (n, 3)), t.arr('b2', (n, 3))
        o.a = shape(a)
        o.b = shape(b)
    elif ch:
        o.r
        o.dr_wrt(o.a)
        new = t.arr('new', (n, 3))
        setattr(o, ch, shape(new))
        a, b = (new, b) if ch == 'a' else (a, new)
    A, B = t.rows(t.ex(a)), t.rows(t.ex(b))
    t.check(t.eqs(t.rows(o.r.reshape(-1, 3)), [t.cross(x, y) for x, y in zip(A, B)]), 'the cross products')
    Da = t.jacobian(lambda x: X(shape(x), shape(b)).r, a)
    Db = t.jacobian(lambda x: X(shape(a), shape(x)).r, b)
    t.check(t.eqs(dense(t, o.dr_wrt(o.a)), Da, TOL), 'the derivatives by the first')
    t.check(t.eqs(dense(t, o.dr_wrt(o.b)), Db, TOL), 'the derivatives by the second')
    t.check(o.compute_dr_wrt(t.mod(NRM).NormalizedNx3(a)) is None, 'no derivative by others')
    t.check_unmutated()


@case('C27', 'TriEdges', bounds='four small meshes, all pairs of corners, any vertices')
def edges(t):
    T = t.mod(NRM).TriEdges
    nv, f = t.choice('mesh', MESHES)
    i, j = t.choice('corners', [(1, 0), (2, 0), (0, 2), (2, 1)])
    v = t.arr('v', (nv, 3))
    fa = t.track(t.iarray(f), 'f')
    rows = t.rows(t.ex(v))
    o = T(fa, i, j, v)
    want = [x for face in f for x in t.sub(rows[face[i]], rows[face[j]])]
    t.check(t.eqs(t.rows(o.r), want), 'differences of the corners')
    D = t.jacobian(lambda x: T(fa, i, j, x).r, v)
    t.check(t.eqs(dense(t, o.dr_wrt(o.v)), D, TOL), 'their derivatives')
    t.check(o.compute_dr_wrt(o) is None, 'no derivative by others')
    t.check_unmutated()


def mesh(t, meshes, moving):
    nv, f = t.choice('mesh', meshes)
    v = t.arr('v', (nv, 3), lo=-10, hi=10)
    for i in range(nv):
        if i not in moving:
            for k in range(3):
                v[i, k] = CORNERS[i][k]
    return v, t.rows(t.ex(v)), f


def face_normals(t, rows, f):
    return [t.cross(t.sub(rows[b], rows[a]), t.sub(rows[c], rows[a])) for a, b, c in f]


@case('C27', 'triangle normals', bounds='up to two triangles, any vertices which span a squared area above 0.1')
def tri(t):
    m = t.mod(NRM)
    nv, f = t.choice('mesh', MESHES[:2])
    v = t.arr('v', (nv, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(v))
    fa = t.track(t.iarray(f), 'f')
    n = face_normals(t, rows, f)
    wide(t, n)
    o = m.TriNormalsScaled(v, fa)
    t.check(t.eqs(t.rows(o.r.reshape(-1, 3)), n), 'cross products of the edges')
    leaf = o.a.v
    o = m.TriNormalsScaled(leaf, fa)
    D = t.jacobian(lambda x: m.TriNormalsScaled(x, fa).r, v)
    t.check(t.eqs(dense(t, o.dr_wrt(leaf)), D, TOL), 'the derivatives of the cross products')
    u = m.TriNormals(leaf, fa)
    t.check(t.eqs(t.rows(u.r.reshape(-1, 3)), [[x / t.norm(q) for x in q] for q in n]), 'unit normals')
    if nv == 3:
        D = t.jacobian(lambda x: m.TriNormals(x, fa).r, v)
        t.check(t.eqs(dense(t, u.dr_wrt(leaf)), D, TOL), 'the derivatives of the unit normals')
    t.check_unmutated()


def vertex_sums(t, rows, f, nv):
    n = face_normals(t, rows, f)
    return [[sum((n[k][i] for k, face in enumerate(f) if j in face), 0) for i in range(3)] for j in range(nv)]


@case('C27', 'vertex normals', bounds='meshes of 1, 2 and 4 triangles, any vertices with squared lengths of the sums above 0.1', deadline=(120, 500))
def vert(t):
    m = t.mod(NRM)
    nv, f = t.choice('mesh', MESHES[:3])
    v = t.arr('v', (nv, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(v))
    sums = vertex_sums(t, rows, f, nv)
    wide(t, sums)
    how = t.choice('history', ['new', 'vertices', 'faces', 'both'])
    fa = t.track(t.iarray(f), 'f')
    if how == 'new':
        o = m.VertNormals(v=v, f=fa)
    else:
        if how == 'vertices':
            o = m.VertNormals(v=t.array([[x + 1 for x in r] for r in CORNERS[:nv]]), f=fa)
            o.r
        elif how == 'faces':
            o = m.VertNormals(v=t.array(CORNERS[:nv]), f=t.iarray([r[::-1] for r in f][:1] + f[2:] + f[:1]))
            o.r
            o.f = fa
        else:
            o = m.VertNormals(v=t.array(CORNERS), f=t.iarray([[0, 1, 2], [0, 3, 4]]))
            o.r
            o.f = fa
        o.v = v
    t.check(t.eqs(t.rows(o.r), [[x / t.norm(q) for x in q] for q in sums]), 'unit vectors along the sums of the normals of the triangles at the vertex')
    t.check_unmutated()


@case('C27', 'vertex normals: not normalized', bounds='meshes of 1, 2 and 4 triangles; from the start, after the first value, or only in between', deadline=(160, 600))
def vert_raw(t):
    m = t.mod(NRM)
    nv, f = t.choice('mesh', MESHES[:3])
    v = t.arr('v', (nv, 3), lo=-10, hi=10)
    rows = t.rows(t.ex(v))
    sums = vertex_sums(t, rows, f, nv)
    wide(t, sums)
    how = t.choice('how', ['made so', 'changed', 'changed twice'])
    if how == 'made so':
        o = m.VertNormals(v=v, f=t.iarray(f), normalized=False)
    else:
        o = m.VertNormals(v=v, f=t.iarray(f))
        o.r
        o.normalized = False
        if how == 'changed twice':
            o.r
            o.normalized = True
    want = []
    for j, q in enumerate(sums):
        k = sum(1 for face in f if j in face)
        q = [x / k for x in q]
        want.append([x / (t.norm(q) if how == 'changed twice' else t.sqrt(t.norm(q))) for x in q])
    t.check(t.eqs(t.rows(o.r), want), 'the mean normals divided by the square roots of their lengths')


@case('C27', 'vertex normals: derivatives', bounds='1, 2 or 4 triangles, all vertices anywhere, normalized or not', deadline=(200, 800))
def vert_d(t):
    m = t.mod(NRM)
    nv, f = t.choice('mesh', MESHES[:3])
    v = t.arr('v', (nv, 3), lo=-10, hi=10)
    wide(t, vertex_sums(t, t.rows(t.ex(v)), f, nv), F(1, 2))
    fa = t.iarray(f)
    kw = {} if t.flag('normalized') else {'normalized': False}
    o = m.VertNormals(v=v, f=fa, **kw)
    D = t.jacobian(lambda y: m.VertNormals(v=y, f=fa, **kw).r, v)
    t.check(t.eqs(dense(t, o.dr_wrt(o.v)), D, TOL), 'the derivatives of the vertex normals')
