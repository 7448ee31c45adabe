"""Stand-ins for the libraries blmath calls.

symbolic(name): the module used under symbolic execution.  Each stand-in is an
exact algebraic formula of the library routine's documented contract, or an
oracle constrained only by that contract.
install_real(): stand-ins for concrete replay, only for packages that cannot be
imported in this environment (lace, chumpy on Python 3.12, interactive plumbum).
"""
import sys
import types

import numpy as _np

from . import core as C
from . import snp
from .core import SR, SB, EngineLimit

_mods = {}
_makers = {}


def maker(name):
    def deco(f):
        _makers[name] = f
        return f
    return deco


def symbolic(name):
    if name in _mods:
        return _mods[name]
    f = _makers.get(name)
    if f is None:
        return None
    m = f()
    _mods[name] = m
    return m


class Stub(types.ModuleType):
    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        full = self.__name__ + '.' + name
        m = symbolic(full)
        if m is not None:
            return m
        raise EngineLimit('no stand-in for %s' % full)


@maker('scipy')
def _scipy():
    return Stub('scipy')


@maker('scipy.linalg')
def _scipy_linalg():
    L = snp.linalg

    def inv(a, **kw):
        return L.inv(a)

    def det(a, **kw):
        return L.det(a)

    def norm(a, ord=None, axis=None, **kw):
        return L.norm(a, ord, axis)

    def svd(a, full_matrices=True, compute_uv=True, **kw):
        return L.svd(a, full_matrices=full_matrices, compute_uv=compute_uv)
    return Stub('scipy.linalg', inv=inv, det=det, norm=norm, svd=svd, solve=lambda a, b, **kw: L.solve(a, b),
                LinAlgError=_np.linalg.LinAlgError)


@maker('scipy.sparse')
def _scipy_sparse():
    from . import sparse as S
    return Stub('scipy.sparse', coo_matrix=S.coo_matrix, csr_matrix=S.csr_matrix, csc_matrix=S.csc_matrix, eye=S.eye,
                identity=S.eye, diags=S.diags, hstack=S.hstack, vstack=S.vstack, issparse=S.issparse,
                isspmatrix=S.issparse, spmatrix=S.SpMat)


@maker('scipy.sparse.linalg')
def _scipy_sparse_linalg():
    from . import sparse as S
    return Stub('scipy.sparse.linalg', LinearOperator=S.LinearOperator, aslinearoperator=S.aslinearoperator,
                factorized=S.factorized, spsolve=S.spsolve, cg=S.cg)


@maker('scipy.spatial')
def _scipy_spatial():
    class cKDTree(object):
        """Distance to (and index of) the nearest of the given points."""

        def __init__(self, data, **kw):
            self.data = [[SR.const(x) for x in r] for r in snp._objarr(data)]

        def query(self, x, k=1, **kw):
            if k != 1 or kw:
                raise EngineLimit('cKDTree.query with options')
            rows = snp._objarr(x)
            one = rows.ndim == 1
            rows = rows.reshape(-1, rows.shape[-1])
            d, ii = [], []
            for r in rows:
                best = bi = None
                for i, p in enumerate(self.data):
                    v = sum(((SR.const(a) - b) * (SR.const(a) - b) for a, b in zip(r, p)), SR.const(0))
                    if best is None or bool(C.sb_rel(v - best, C.NEG)):
                        best, bi = v, i
                d.append(C.sqrt(best, nonneg=True))
                ii.append(bi)
            if one:
                return d[0], ii[0]
            return snp.array(d), _np.array(ii)
    return Stub('scipy.spatial', cKDTree=cKDTree, KDTree=cKDTree, ConvexHull=ConvexHull, QhullError=QhullError)


class QhullError(RuntimeError):
    pass


class ConvexHull(object):
    """2-D convex hull: the extreme points counterclockwise."""

    def __init__(self, points, incremental=False, qhull_options=None):
        pts = points if isinstance(points, _np.ndarray) else snp.array(points)
        if pts.ndim != 2:
            raise ValueError('Need 2-D data')
        if pts.shape[1] != 2 or qhull_options is not None:
            raise EngineLimit('ConvexHull in %d dimensions' % pts.shape[1])
        p = [[SR.const(x) for x in r] for r in snp._objarr(pts)]
        n = len(p)
        if n < 3:
            raise QhullError('not enough points')
        s = {}
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n):
                    d = (p[j][0] - p[i][0]) * (p[k][1] - p[i][1]) - (p[j][1] - p[i][1]) * (p[k][0] - p[i][0])
                    v = 1 if bool(C.sb_rel(d, C.POS)) else -1 if bool(C.sb_rel(d, C.NEG)) else 0
                    for a, b, c, g in ((i, j, k, v), (j, k, i, v), (k, i, j, v), (j, i, k, -v), (i, k, j, -v), (k, j, i, -v)):
                        s[a, b, c] = g
        if not any(s.values()):
            raise QhullError('initial simplex is flat')

        def between(i, j, k):
            d = sum(((p[k][c] - p[i][c]) * (p[k][c] - p[j][c]) for c in (0, 1)), SR.const(0))
            return bool(C.sb_rel(d, C.NEG))
        nxt = {}
        for i in range(n):
            for j in range(n):
                if i != j and all(s[i, j, k] > 0 or s[i, j, k] == 0 and between(i, j, k)
                                  for k in range(n) if k not in (i, j)):
                    nxt[i] = j
        if not nxt:
            raise EngineLimit('convex hull of repeated points')
        out = [min(nxt)]
        while nxt[out[-1]] != out[0]:
            out.append(nxt[out[-1]])
        self.points = pts
        self.vertices = _np.array(out, dtype=_np.int32)
        self.simplices = _np.array([[i, nxt[i]] for i in out], dtype=_np.int32)

    def __getattr__(self, name):
        raise EngineLimit('ConvexHull.%s' % name)


# --------------------------------------------------------------------------
# The C extension cholmod: lchol_c reads the buffers of a scipy.sparse matrix as
# 64 bit integers and doubles and factorises the lower triangle for a fill
# reducing permutation, which the harness chooses.

LCHOL = {'perm': None, 'slack': 0, 'called': 0}


class LayoutError(Exception):
    """lchol_c would read buffers as another type than they hold."""


def _check_layout(A, floating):
    if not hasattr(A, 'indptr') or not hasattr(A, 'nnz'):
        raise AttributeError('lchol_c needs shape, indptr, indices, data and nnz')
    for x in (A.indices, A.indptr):
        if not isinstance(x, _np.ndarray) or x.dtype != _np.int64 or not x.flags.c_contiguous:
            raise LayoutError('indices are not 64 bit integers')
    if not floating(A.data):
        raise LayoutError('data are not doubles')
    n = A.shape[1]
    if len(A.indptr) != n + 1:
        raise LayoutError('not by columns')
    for j in range(n):
        c = A.indices[int(A.indptr[j]):int(A.indptr[j + 1])].tolist()
        if sorted(set(c)) != c:
            raise LayoutError('columns are not sorted')


@maker('blmath.numerics.linalg.cholmod')
def _cholmod():
    def lchol_c(A):
        _check_layout(A, lambda d: isinstance(d, snp.SymArray) and snp._dtype_kind(d.dtype) == 'f' and
                      getattr(d, 'width', 8) == 8 or not isinstance(d, snp.SymArray) and d.dtype == _np.float64)
        n = A.shape[0]
        if A.shape[1] != n:
            raise ValueError("the matrix can't be factorized")
        vals = [SR.const(x) for x in snp._objarr(A.data)]
        low = {}
        for j in range(n):
            for p in range(int(A.indptr[j]), int(A.indptr[j + 1])):
                i = int(A.indices[p])
                if i >= j:
                    low[i, j] = vals[p]
        q = list(LCHOL['perm'] or range(n))
        LCHOL['called'] += 1
        if len(q) != n:
            raise EngineLimit('permutation of another size')
        B = {}
        for k in range(n):
            for l in range(k + 1):
                i, j = max(q[k], q[l]), min(q[k], q[l])
                if (i, j) in low:
                    B[k, l] = low[i, j]
        L = {}
        bad = 0
        for j in range(n):
            d = B.get((j, j), SR.const(0)) - sum((L[j, k] * L[j, k] for k in range(j) if (j, k) in L), SR.const(0))
            if not bool(C.sb_rel(d, C.POS)):
                bad = j + 1
                break
            L[j, j] = C.sqrt(d)
            for i in range(j + 1, n):
                ks = [k for k in range(j) if (i, k) in L and (j, k) in L]
                if (i, j) in B or ks:
                    L[i, j] = (B.get((i, j), SR.const(0)) - sum((L[i, k] * L[j, k] for k in ks), SR.const(0))) / L[j, j]
        ind, ptr, data = [], [0], []
        for j in range(bad - 1 if bad else n):
            for i in range(j, n):
                if (i, j) in L:
                    ind.append(i)
                    # rows beyond the one where it fails hold anything
                    data.append(L[i, j] if not bad or i < bad else SR.const(7))
            ptr.append(len(ind))
        for _ in range(LCHOL['slack']):
            ind.append(0)
            data.append(SR.const(0))
        out = _np.empty(len(data), dtype=object)
        out[:] = data
        return [_np.array(ind, dtype=_np.int64), _np.array(ptr, dtype=_np.int64), snp.mk(out, 'f'), bad, _np.array(q, dtype=_np.int64)]
    return Stub('blmath.numerics.linalg.cholmod', lchol_c=lchol_c)


def guard_cholmod():
    """The real extension, built from the C source of this tree, behind a check of the layout (wrong
    buffers would be read beyond their ends)."""
    m = sys.modules.get('blmath.numerics.linalg.cholmod')
    if m is not None and getattr(m, '_guarded', False):
        return
    import importlib
    import importlib.util
    import shutil
    import subprocess
    import sysconfig
    import tempfile
    from . import loader
    parent = loader.real_module('blmath.numerics.linalg')
    src = parent.__path__[0] + '/cholmod.c'
    tmp = tempfile.mkdtemp(prefix='cholmod')
    try:
        so = tmp + '/cholmod.so'
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O0', '-fno-inline', '-w', '-I', _np.get_include(), '-I', '/usr/include/suitesparse',
                               '-I', sysconfig.get_paths()['include'], src, '-o', so, '-llapack', '-lcolamd', '-lamd', '-lcholmod'],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        spec = importlib.util.spec_from_file_location('blmath.numerics.linalg.cholmod', so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        shutil.rmtree(tmp)
    real = m.lchol_c

    def lchol_c(A):
        _check_layout(A, lambda d: d.dtype == _np.float64 and d.flags.c_contiguous)
        return real(A)
    m.lchol_c = lchol_c
    m._guarded = True
    sys.modules['blmath.numerics.linalg.cholmod'] = m
    parent.cholmod = m


# --------------------------------------------------------------------------
# sklearn's PCA: an oracle given by the harness, whose contract is proved on the data

PCA_FRAMES = []


@maker('sklearn')
def _sklearn():
    return Stub('sklearn')


@maker('sklearn.decomposition')
def _sklearn_dec():
    class PCA(object):
        def __init__(self, n_components=None, **kw):
            if kw:
                raise EngineLimit('PCA options')
            self.n = n_components

        def fit(self, X, y=None):
            X = X if isinstance(X, _np.ndarray) else snp.array(X)
            if X.ndim != 2:
                raise ValueError('Expected 2D array')
            n = X.shape[1] if self.n is None else self.n
            if n > min(X.shape):
                raise ValueError('n_components=%r must be between 0 and min(n_samples, n_features)=%r' % (n, min(X.shape)))
            rows = [[SR.const(x) for x in r] for r in snp._objarr(X)]
            c = [sum((r[i] for r in rows), SR.const(0)) / len(rows) for i in range(3)]
            d = [[r[i] - c[i] for i in range(3)] for r in rows]
            for f in PCA_FRAMES:
                comp = f(d)
                if comp is not None:
                    self.components_ = snp.array(comp, dtype=float)[:n]
                    self.mean_ = snp.array(c)
                    return self
            raise EngineLimit('PCA of points the harness has no axes for')
    return Stub('sklearn.decomposition', PCA=PCA)


# --------------------------------------------------------------------------
# cv2.Rodrigues: the documented formulas

@maker('cv2')
def _cv2():
    return Stub('cv2', Rodrigues=rodrigues)


def rodrigues(src, *a, **kw):
    """cv2.Rodrigues with its Jacobian (9x3 transposed: 3x9) for vector input."""
    if not isinstance(src, _np.ndarray):
        raise EngineLimit('cv2.Rodrigues on a non-array')
    if src.dtype.kind != 'f':
        raise cv_error('Rodrigues: unsupported dtype')
    if src.size == 3:
        return _rodrigues_vec(src)
    raise EngineLimit('cv2.Rodrigues of a matrix')


class cv_error(Exception):
    pass


def _rodrigues_vec(src):
    r = [SR.const(x) for x in snp._objarr(src).ravel()]
    th2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
    if bool(C.sb_rel(th2, C.ZERO)):
        R = snp.eye(3)
        J = snp.zeros((3, 9))
        # d/dx [r]_x
        J[0, 5] = -1
        J[0, 7] = 1
        J[1, 2] = 1
        J[1, 6] = -1
        J[2, 1] = -1
        J[2, 3] = 1
        return snp._force_sym(_np.asarray(R)) if not isinstance(R, snp.SymArray) else R, J
    th = C.sqrt(th2, nonneg=True)
    c, s = C.cossin(th)
    k = [x / th for x in r]
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
    I = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    one = SR.const(1)
    R = [[c * I[i][j] + (one - c) * k[i] * k[j] + s * K[i][j] for j in range(3)] for i in range(3)]
    # Jacobian: d/dr_m
    dk = [[((1 if i == m else 0) - k[i] * k[m]) / th for m in range(3)] for i in range(3)]
    J = _np.empty((3, 9), dtype=object)
    for m in range(3):
        dth = k[m]
        d = [dk[i][m] for i in range(3)]
        dK = [[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]]
        for i in range(3):
            for j in range(3):
                J[m, 3 * i + j] = (-s * dth * I[i][j] + s * dth * k[i] * k[j] +
                                   (one - c) * (d[i] * k[j] + k[i] * d[j]) + c * dth * K[i][j] + s * dK[i][j])
    return snp.array(R), snp.mk(J, 'f')


# --------------------------------------------------------------------------
# packages that are absent here

def quads_to_tris(quads):
    """lace.topology.quads_to_tris: each quad a,b,c,d -> (a,b,c), (a,c,d)."""
    quads = _np.asarray(quads)
    out = _np.zeros((2 * quads.shape[0], 3), dtype=quads.dtype)
    out[0::2] = quads[:, [0, 1, 2]]
    out[1::2] = quads[:, [0, 2, 3]]
    return out


@maker('lace')
def _lace():
    return Stub('lace')


class Lines(object):
    """lace.lines.Lines: keeps what it is given."""
    def __init__(self, v=None, e=None, vc=None, **kw):
        self.v, self.e, self.vc, self.other = v, e, vc, kw


@maker('lace.lines')
def _lines():
    return Stub('lace.lines', Lines=Lines)


@maker('lace.topology')
def _topo():
    return Stub('lace.topology', quads_to_tris=quads_to_tris)


TERMINAL = {'lines': [], 'shown': []}


class Typed(str):
    """A typed line holding a symbolic number."""
    _symval = None


def _readline(message=''):
    TERMINAL['shown'].append(str(message))
    if not TERMINAL['lines']:
        raise EOFError()
    return TERMINAL['lines'].pop(0)


@maker('plumbum')
def _plumbum():
    return Stub('plumbum')


@maker('plumbum.cli')
def _plumbum_cli():
    return Stub('plumbum.cli')


@maker('plumbum.cli.terminal')
def _plumbum_term():
    def prompt(question, type=str, default=NotImplemented, validator=lambda x: True):
        question = question.rstrip(' \t:')
        if default is not NotImplemented:
            question += ' [%s]' % (default,)
        question += ': '
        while True:
            try:
                line = _readline(question)
            except EOFError:
                if default is not NotImplemented:
                    return default
                raise
            line = line if isinstance(line, Typed) else line.strip()
            if not line:
                if default is not NotImplemented:
                    return default
                continue
            try:
                ans = type(line)
                if not validator(ans):
                    continue
            except (TypeError, ValueError):
                continue
            return ans
    return Stub('plumbum.cli.terminal', prompt=prompt, readline=_readline)


# --------------------------------------------------------------------------
# simplejson: a document is a string which carries the encoded tree

class JStr(str):
    tree = None


class JSONDecodeError(ValueError):
    pass


def _encode(x, for_json):
    f = getattr(x, 'for_json', None) if for_json else None
    if callable(f):
        return _encode(f(), for_json)
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, SR):
        return _py(x)
    if isinstance(x, (int, float)) and not isinstance(x, (_np.integer, _np.bool_)):
        return x
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k is True or k is False or k is None:
                k = {True: 'true', False: 'false', None: 'null'}[k]
            elif isinstance(k, (int, float)):
                k = repr(k)
            elif not isinstance(k, str):
                raise TypeError('keys must be str, int, float, bool or None')
            out[k] = _encode(v, for_json)
        return out
    if isinstance(x, (list, tuple)):
        return [_encode(e, for_json) for e in x]
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


def _py(x):
    r = snp._srpy(x)
    if not r.py:
        r = SR(x.num, x.cden, x.den, x.sp, x.pend)
        r.py = True
    return r


def _sorted(x):
    if isinstance(x, dict):
        return {k: _sorted(x[k]) for k in sorted(x)}
    return [_sorted(e) for e in x] if isinstance(x, list) else x


def _decode(x, hook):
    if isinstance(x, dict):
        d = {k: _decode(v, hook) for k, v in x.items()}
        return hook(d) if hook is not None else d
    if isinstance(x, list):
        return [_decode(e, hook) for e in x]
    return x


@maker('simplejson')
def _simplejson():
    import simplejson as real

    def dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True, for_json=False, default=None, indent=None,
              separators=None, sort_keys=False, **kw):
        if kw or default is not None or skipkeys:
            raise EngineLimit('simplejson.dumps options')
        tree = _encode(obj, for_json)
        if sort_keys:
            tree = _sorted(tree)
        s = JStr('<json document>')
        s.tree = [tree]
        return s

    def dump(obj, fp, *a, **kw):
        fp.write(dumps(obj, *a, **kw))

    def loads(s, encoding=None, cls=None, object_hook=None, **kw):
        if not (isinstance(s, JStr) and s.tree is not None):
            return real.loads(s, cls=cls, object_hook=object_hook, **kw)
        if kw or cls is not None:
            raise EngineLimit('simplejson.loads options')
        return _decode(s.tree[0], object_hook)

    def load(fp, *a, **kw):
        return loads(fp.read(), *a, **kw)
    return Stub('simplejson', dumps=dumps, dump=dump, loads=loads, load=load, JSONDecodeError=real.JSONDecodeError)


REAL_STANDINS = ['lace.topology', 'chumpy']
_installed = [False]


def install_real():
    if _installed[0]:
        return
    _installed[0] = True
    for name in ('lace', 'lace.topology'):
        if name not in sys.modules:
            m = types.ModuleType(name)
            sys.modules[name] = m
    sys.modules['lace.topology'].quads_to_tris = quads_to_tris
    sys.modules['lace'].topology = sys.modules['lace.topology']
    if 'lace.lines' not in sys.modules:
        m = types.ModuleType('lace.lines')
        m.Lines = Lines
        sys.modules['lace.lines'] = sys.modules['lace'].lines = m
    if 'chumpy' not in sys.modules:
        from . import chstub
        sys.modules['chumpy'] = chstub.make(_np)
    if 'bodylabs' not in sys.modules:
        import chumpy
        for i in range(1, len(BODYLABS)):
            name = '.'.join(BODYLABS[:i])
            sys.modules[name] = types.ModuleType(name)
        sys.modules['.'.join(BODYLABS)] = landmarks(types.ModuleType('.'.join(BODYLABS)), chumpy, _np)


BODYLABS = ['bodylabs', 'mesh', 'landmarking', 'transformed_lm']


def landmarks(m, ch, np):
    """bodylabs.mesh.landmarking.transformed_lm: points expressed relative to source vertices, and found again relative
    to others with the same topology.  Here by affine coordinates in the first four vertices; what the functions of
    bodylabs guarantee, and all that is used, is that the coefficients come from (src_v, dst_v), that applied to
    src_v they give dst_v again, that they follow a motion, and that all of it is lazy."""
    def rows(v):
        return np.hstack([v, np.ones((v.shape[0], 1))])

    class TransformedCoeffs(ch.Ch):
        dterms = ('src_v', 'dst_v')

        def compute_r(self):
            return np.dot(rows(self.dst_v.r), np.linalg.inv(rows(self.src_v.r)))

    class TransformedLms(ch.Ch):
        dterms = ('transformed_coeffs', 'src_v')

        def compute_r(self):
            return np.dot(self.transformed_coeffs.r, self.src_v.r)
    m.TransformedCoeffs, m.TransformedLms = TransformedCoeffs, TransformedLms
    return m


@maker('bodylabs')
def _bodylabs():
    return Stub('bodylabs')


@maker('bodylabs.mesh')
def _bodylabs_mesh():
    return Stub('bodylabs.mesh')


@maker('bodylabs.mesh.landmarking')
def _bodylabs_mesh_landmarking():
    return Stub('bodylabs.mesh.landmarking')


@maker('bodylabs.mesh.landmarking.transformed_lm')
def _bodylabs_lm():
    return landmarks(Stub('.'.join(BODYLABS)), symbolic('chumpy'), snp)


@maker('chumpy')
def _chumpy():
    from . import chstub, sparse
    return chstub.make(snp, lambda: sparse)
