"""scipy.sparse stand-in: matrices with an explicit set of stored entries, whose
values may be symbolic.  Index structure is concrete."""
import numpy as _np

from . import core as C
from . import snp
from .core import SR, EngineLimit


def _vals(data):
    if not isinstance(data, _np.ndarray):
        data = snp.array(data)
    return list(_np.asarray(snp._objarr(data)).ravel())


def _kind(data):
    return snp.kind_of(data)


def _mkvals(vals, k):
    o = _np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return snp.mk(o, k)


def _ints(x):
    if isinstance(x, snp.SymArray):
        raise EngineLimit('symbolic sparse index')
    return _np.asarray(x)


def issparse(x):
    return isinstance(x, SpMat)


class SpMat(object):
    format = None
    ndim = 2
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __new__(cls, *args, **kw):
        return object.__new__(cls)

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self.has_canonical_format = False
        if isinstance(arg1, SpMat):
            self._set(arg1._entries(), arg1.shape, dtype or arg1.dtype)
        elif isinstance(arg1, tuple) and len(arg1) == 2 and all(isinstance(x, (int, _np.integer)) for x in arg1):
            self._set([], arg1, dtype or float)
        elif isinstance(arg1, tuple) and len(arg1) == 2:
            data, ij = arg1
            row, col = ij
            row, col = _ints(row).ravel(), _ints(col).ravel()
            vals = _vals(data)
            if not len(row) == len(col) == len(vals):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                if not len(row):
                    raise ValueError('cannot infer dimensions from zero sized index arrays')
                shape = (int(row.max()) + 1, int(col.max()) + 1)
            self._check(row, col, shape)
            self._set(list(zip(row.tolist(), col.tolist(), vals)), shape, dtype or snp.array(data).dtype)
        elif isinstance(arg1, tuple) and len(arg1) == 3:
            data, indices, indptr = arg1
            if self.format == 'coo':
                raise TypeError('invalid input format')
            indices, indptr, vals = _ints(indices).ravel(), _ints(indptr).ravel(), _vals(data)
            n = len(indptr) - 1
            if shape is None:
                m = int(indices.max()) + 1
                shape = (n, m) if self.format == 'csr' else (m, n)
            major, minor = (0, 1) if self.format == 'csr' else (1, 0)
            if n != shape[major] or int(indptr[0]) != 0 or int(indptr[-1]) > min(len(indices), len(vals)) or \
                    any(a > b for a, b in zip(indptr, indptr[1:])):
                raise ValueError('index pointer inconsistent')
            if len(indices) and (indices.min() < 0 or indices.max() >= shape[minor]):
                raise ValueError('indices out of bounds')
            self.shape = tuple(int(x) for x in shape)
            # scipy chooses the smallest index type which holds the shape
            self.indices, self.indptr = indices.astype(_np.int32), indptr.astype(_np.int32)
            self.data = _mkvals(vals, _kind(dtype and snp.zeros(0, dtype) if dtype else data))
        else:
            a = snp.array(arg1) if not isinstance(arg1, _np.ndarray) else arg1
            if a.ndim == 1:
                a = a.reshape(1, -1)
            if a.ndim != 2:
                raise TypeError('expected a 2-d array')
            o = snp._objarr(a)
            ents = []
            for i in range(o.shape[0]):
                for j in range(o.shape[1]):
                    e = o[i, j]
                    nz = bool(C.compare(e, SR.const(0), C.NEG | C.POS)) if isinstance(e, SR) else bool(e != 0)
                    if nz:
                        ents.append((i, j, e))
            self._set(ents, a.shape, dtype or a.dtype)

    @staticmethod
    def _check(row, col, shape):
        if len(row):
            if row.min() < 0 or col.min() < 0:
                raise ValueError('negative index found')
            if row.max() >= shape[0] or col.max() >= shape[1]:
                raise ValueError('index exceeds matrix dimensions')

    def _set(self, ents, shape, dtype):
        self.shape = tuple(int(x) for x in shape)
        k = snp._dtype_kind(dtype)
        if self.format != 'coo':
            acc, order = {}, []
            for i, j, v in ents:
                key = (i, j) if self.format == 'csr' else (j, i)
                if key in acc:
                    acc[key] = acc[key] + v
                else:
                    acc[key] = v
            keys = sorted(acc)
            n = self.shape[0 if self.format == 'csr' else 1]
            ptr = _np.zeros(n + 1, dtype=_np.int32)
            for a, _b in keys:
                ptr[a + 1] += 1
            self.indptr = _np.cumsum(ptr).astype(_np.int32)
            self.indices = _np.array([b for _a, b in keys], dtype=_np.int32)
            self.data = _mkvals([acc[x] for x in keys], k)
        else:
            self.row = _np.array([e[0] for e in ents], dtype=_np.int32)
            self.col = _np.array([e[1] for e in ents], dtype=_np.int32)
            self.data = _mkvals([e[2] for e in ents], k)

    def _entries(self):
        vals = _vals(self.data)
        if self.format == 'coo':
            return list(zip(_ints(self.row).tolist(), _ints(self.col).tolist(), vals))
        out = []
        for a in range(len(self.indptr) - 1):
            for p in range(int(self.indptr[a]), int(self.indptr[a + 1])):
                b = int(self.indices[p])
                out.append((a, b, vals[p]) if self.format == 'csr' else (b, a, vals[p]))
        return out

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def nnz(self):
        return len(self._entries())

    @property
    def size(self):
        return self.nnz

    @property
    def has_sorted_indices(self):
        if self.format == 'coo':
            raise AttributeError('has_sorted_indices')
        p, i = _ints(self.indptr).tolist(), _ints(self.indices).tolist()
        return all(i[k] <= i[k + 1] for a in range(len(p) - 1) for k in range(p[a], p[a + 1] - 1))

    def sort_indices(self):
        if self.format == 'coo':
            raise AttributeError('sort_indices')
        k = 0 if self.format == 'csr' else 1
        r = self._like(sorted(self._entries(), key=lambda e: (e[k], e[1 - k])))
        self.indices, self.data = r.indices, r.data

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def getnnz(self, axis=None):
        e = self._entries()
        if axis is None:
            return len(e)
        out = _np.zeros(self.shape[1 - axis], dtype=_np.int64)
        for i, j, _v in e:
            out[j if axis == 0 else i] += 1
        return out

    def _like(self, ents, shape=None, fmt=None, dtype=None):
        cls = CLASSES[fmt or self.format]
        r = cls.__new__(cls)
        r.has_canonical_format = False
        r._set(ents, shape or self.shape, dtype or self.dtype)
        return r

    def tocoo(self, copy=False):
        return self._like(self._entries(), fmt='coo')

    def tocsr(self, copy=False):
        return self._like(self._entries(), fmt='csr')

    def tocsc(self, copy=False):
        return self._like(self._entries(), fmt='csc')

    def asformat(self, fmt, copy=False):
        if fmt is None or fmt == self.format:
            return self
        if fmt not in CLASSES:
            raise EngineLimit('sparse format %s' % fmt)
        return self._like(self._entries(), fmt=fmt)

    def copy(self):
        return self._like(self._entries())

    def astype(self, dt, **kw):
        return self._like(self._entries(), dtype=dt)

    def toarray(self, *a, **kw):
        k = snp._dtype_kind(self.dtype)
        o = _np.empty(self.shape, dtype=object)
        o.flat = [SR.const(0) if k == 'f' else False if k == 'b' else 0] * o.size
        for i, j, v in self._entries():
            o[i, j] = o[i, j] + v
        return snp.mk_int(o) if k == 'i' else snp.mk(o, k)

    def todense(self, *a, **kw):
        return snp.asmatrix(self.toarray())

    @property
    def A(self):
        return self.toarray()

    def transpose(self, axes=None, copy=False):
        fmt = {'csr': 'csc', 'csc': 'csr', 'coo': 'coo'}[self.format]
        return self._like([(j, i, v) for i, j, v in self._entries()], self.shape[::-1], fmt)
    T = property(transpose)

    def sum(self, axis=None, dtype=None, out=None):
        d = self.toarray()
        if axis is None:
            return snp.sum(d)
        return snp.asmatrix(snp.sum(d, axis=axis, keepdims=True))

    def diagonal(self, k=0):
        return snp.array([self.toarray()[i, i] for i in range(min(self.shape))])

    def sum_duplicates(self):
        r = self._like(self._entries(), fmt='csr')
        self.__dict__.update(self._like(r._entries()).__dict__)

    def dot(self, o):
        if isinstance(o, SpMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            rows = {}
            for i, j, v in o._entries():
                rows.setdefault(i, []).append((j, v))
            acc = {}
            for i, j, v in self._entries():
                for k, w in rows.get(j, ()):
                    acc[i, k] = acc[i, k] + v * w if (i, k) in acc else v * w
            fmt = self.format if self.format != 'coo' else 'csr'
            dt = float if 'f' in (snp._dtype_kind(self.dtype), snp._dtype_kind(o.dtype)) else int
            return self._like([(i, k, x) for (i, k), x in sorted(acc.items(), key=lambda z: z[0])],
                              (self.shape[0], o.shape[1]), fmt, dt)
        if snp.isscalar(o) or isinstance(o, SR):
            return self._scale(o)
        a = o if isinstance(o, _np.ndarray) else snp.array(o)
        if a.ndim not in (1, 2) or a.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        if isinstance(a, snp.SymMatrix):
            return snp.asmatrix(snp.dot(self.toarray(), snp.array(a)))
        r = snp.dot(self.toarray(), a)
        return snp.mk_int(r) if isinstance(r, _np.ndarray) and r.dtype.kind == 'i' else r

    def _scale(self, s):
        e = [(i, j, v * s) for i, j, v in self._entries()]
        k = 'f' if 'f' in (snp._dtype_kind(self.dtype), snp.kind_of(s)) else 'i'
        return self._like(e, dtype=float if k == 'f' else int)

    def __mul__(self, o):
        return self.dot(o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if snp.isscalar(o) or isinstance(o, SR):
            return self._scale(o)
        return self.transpose().dot(snp.array(o).T).T

    __rmatmul__ = __rmul__

    def __truediv__(self, s):
        return self._like([(i, j, v / s) for i, j, v in self._entries()], dtype=float)

    def __neg__(self):
        return self._like([(i, j, -v) for i, j, v in self._entries()])

    def _add(self, o, sign):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            e = self._entries() + [(i, j, v if sign > 0 else -v) for i, j, v in o._entries()]
            dt = float if 'f' in (snp._dtype_kind(self.dtype), snp._dtype_kind(o.dtype)) else int
            return self._like(e, fmt=self.format if self.format != 'coo' else 'csr', dtype=dt)
        d = self.toarray()
        return snp.asmatrix(d + o if sign > 0 else d - o)

    def __add__(self, o):
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __abs__(self):
        return self._like([(i, j, abs(v)) for i, j, v in self._entries()])

    def multiply(self, o):
        if isinstance(o, SpMat):
            d = o.toarray()
            return self._like([(i, j, v * d[i, j]) for i, j, v in self._entries()])
        raise EngineLimit('sparse multiply')

    def __getitem__(self, key):
        if self.format == 'coo':
            raise TypeError("'coo_matrix' object is not subscriptable")
        if not isinstance(key, tuple):
            key = (key, slice(None))
        idx = []
        scalar = []
        for k, n in zip(key, self.shape):
            if isinstance(k, snp.SymArray):
                k = snp._index(k)
            scalar.append(isinstance(k, (int, _np.integer)))
            idx.append(_np.atleast_1d(_np.arange(n)[k]))
        if all(scalar):
            return self.toarray()[int(idx[0][0]), int(idx[1][0])]
        if not isinstance(key[0], slice) and not isinstance(key[1], slice) and not any(scalar):
            raise EngineLimit('paired fancy indexing of a sparse matrix')
        pos = [{}, {}]
        for a in (0, 1):
            for new, old in enumerate(idx[a].tolist()):
                pos[a].setdefault(old, []).append(new)
        e = [(i2, j2, v) for i, j, v in self._entries() for i2 in pos[0].get(i, ()) for j2 in pos[1].get(j, ())]
        return self._like(e, (len(idx[0]), len(idx[1])))

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')


class coo_matrix(SpMat):
    format = 'coo'


class csr_matrix(SpMat):
    format = 'csr'


class csc_matrix(SpMat):
    format = 'csc'


CLASSES = {'coo': coo_matrix, 'csr': csr_matrix, 'csc': csc_matrix}


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    e = [(i, i + k, 1) for i in range(m) if 0 <= i + k < n]
    r = coo_matrix((m, n), dtype=dtype)
    r._set(e, (m, n), dtype)
    return r.asformat(format or 'csr')


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (int, _np.integer)):
        offsets, diagonals = [offsets], [diagonals]
    e = []
    n = 0
    for d, o in zip(diagonals, offsets):
        v = _vals(d)
        n = max(n, len(v) + abs(o))
        e += [(i + max(0, -o), i + max(0, o), x) for i, x in enumerate(v)]
    shape = shape or (n, n)
    r = coo_matrix(shape, dtype=float)
    r._set(e, shape, dtype or float)
    return r.asformat(format or 'csr')


def _stack(blocks, axis, format=None):
    e, off = [], 0
    other = None
    for b in blocks:
        b = b if isinstance(b, SpMat) else coo_matrix(b)
        if other not in (None, b.shape[1 - axis]):
            raise ValueError('incompatible dimensions')
        other = b.shape[1 - axis]
        e += [(i + off, j, v) if axis == 0 else (i, j + off, v) for i, j, v in b._entries()]
        off += b.shape[axis]
    shape = (off, other) if axis == 0 else (other, off)
    r = coo_matrix(shape, dtype=float)
    r._set(e, shape, float)
    return r.asformat(format or 'csr')


def hstack(blocks, format=None, dtype=None):
    return _stack(blocks, 1, format)


def vstack(blocks, format=None, dtype=None):
    return _stack(blocks, 0, format)


# -- scipy.sparse.linalg

class LinearOperator(object):
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        if not (isinstance(shape, tuple) and len(shape) == 2):
            raise ValueError('invalid shape')
        self.shape, self._mv, self._mm = shape, matvec, matmat

    def matvec(self, x):
        x = x if isinstance(x, _np.ndarray) else snp.array(x)
        if x.shape not in ((self.shape[1],), (self.shape[1], 1)):
            raise ValueError('dimension mismatch')
        y = self._mv(x)
        return y.reshape(self.shape[0]) if x.ndim == 1 else y.reshape(self.shape[0], 1)

    def matmat(self, X):
        if X.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        if self._mm is not None:
            return self._mm(X)
        return snp.hstack([self.matvec(X[:, i].reshape(-1, 1)) for i in range(X.shape[1])])

    def dot(self, x):
        x = x if isinstance(x, _np.ndarray) else snp.array(x)
        return self.matvec(x) if x.ndim == 1 else self.matmat(x)

    __mul__ = __matmul__ = __call__ = dot


def aslinearoperator(A):
    return A if isinstance(A, LinearOperator) else LinearOperator(A.shape, matvec=A.dot, matmat=A.dot)


def factorized(A):
    if not isinstance(A, SpMat) or A.shape[0] != A.shape[1]:
        raise ValueError('expected a square sparse matrix')
    D = A.toarray()

    def solve(b):
        return snp.linalg.solve(D, b)
    return solve


def spsolve(A, b, **kw):
    return snp.linalg.solve(A.toarray(), b)


def cg(A, b, x0=None, *, rtol=1e-5, atol=0., maxiter=None, M=None, callback=None):
    """Preconditioned conjugate gradients, stopping as scipy does."""
    b = (b if isinstance(b, _np.ndarray) else snp.array(b)).ravel()
    A = aslinearoperator(A)
    n = len(b)
    if A.shape != (n, n):
        raise ValueError('A and b have incompatible dimensions')
    prec = (lambda r: r) if M is None else aslinearoperator(M).dot
    x = snp.zeros(n) if x0 is None else snp.array(x0)
    bb = snp.dot(b, b)
    if bool(bb == 0):
        return b, 0
    tol2 = C.SR.const(rtol) * rtol * bb
    r = b - A.dot(x) if x0 is not None else b.copy()
    rho_prev = p = None
    for it in range(maxiter or 2 * n + 1):
        if bool(snp.dot(r, r) <= tol2):
            return x, 0
        z = prec(r)
        rho = snp.dot(r, z)
        p = z.copy() if p is None else p * (rho / rho_prev) + z
        q = A.dot(p)
        alpha = rho / snp.dot(p, q)
        x = x + alpha * p
        r = r - alpha * q
        rho_prev = rho
    if maxiter is None:
        raise EngineLimit('cg does not converge within the bound')
    return x, maxiter
