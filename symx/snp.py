"""numpy stand-in used while blmath modules run symbolically.

SymArray subclasses ndarray (object dtype), so views, slicing, broadcasting and
in-place assignment are numpy's own; only element arithmetic is replaced.
Kinds: 'f' reals (SR), 'i' integers (int or integer SR), 'b' booleans (bool or SB).
Arrays of kind i/b without symbolic content are demoted to plain ndarrays.
"""
import math
from fractions import Fraction
import builtins

import numpy as _np

from . import core as C
from .core import SR, SB, EngineLimit

ndarray = _np.ndarray
newaxis = None
pi = None       # property below
inf = float('inf')
nan = float('nan')


def _base(a):
    return _np.asarray(a).view(_np.ndarray) if isinstance(a, SymArray) else a


def _is_sym(x):
    return isinstance(x, (SymArray, SR, SB))


def _sr(x):
    if type(x) is SR:
        if x.py:
            return SR(x.num, x.cden, x.den, x.sp, x.pend)
        return x
    r = SR.const(x)
    r.py = False
    return r


def _srpy(x):
    return SR.const(x)


_to_sr = _np.frompyfunc(_sr, 1, 1)


def _objarr(x):
    """0-d or n-d base object array holding x's elements."""
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    r = _np.empty((), dtype=object)
    r[()] = x
    return r


def _has_symbolic(o):
    for e in o.flat:
        if isinstance(e, (SR, SB)):
            return True
    return False


def mk(o, k):
    """Wrap a base object ndarray (or scalar) as a result of kind k."""
    if not isinstance(o, _np.ndarray):
        return _scalar(o, k)
    if o.ndim == 0:
        return _scalar(o[()], k)
    if k == 'f':
        if o.dtype != object:
            o = o.astype(object)
        f = o.ravel()
        out = o
        for idx, e in enumerate(f):
            if type(e) is not SR or e.py:
                out = _np.empty(o.shape, dtype=object)
                out.flat = [_sr(x) for x in f] if o.size else []
                break
        r = out.view(SymArray)
        r._k = 'f'
        return r
    if k == 'b':
        vals = [C.value_of(e) if isinstance(e, SB) else e for e in o.flat]
        if builtins.all(v is not None for v in vals):
            return _np.array([bool(v) for v in vals], dtype=bool).reshape(o.shape)
        out = _np.empty(o.shape, dtype=object)
        out.flat = [C.as_sb(e) for e in o.flat]
        r = out.view(SymArray)
        r._k = 'b'
        return r
    if k == 'i':
        vals = []
        conc = True
        for e in o.flat:
            if isinstance(e, SR):
                e.force()
                if e.is_const():
                    vals.append(int(e.as_fraction()))
                    continue
                conc = False
                vals.append(e)
            else:
                vals.append(int(e))
        if conc:
            return _np.array(vals, dtype=_np.int64).reshape(o.shape)
        out = _np.empty(o.shape, dtype=object)
        out.flat = [_sr(v) for v in vals]
        r = out.view(SymArray)
        r._k = 'i'
        return r
    raise EngineLimit('kind %r' % k)


def mk_int(o):
    """An array of a whole number type into which symbolic numbers can be written, also when it has none yet."""
    out = _np.empty(o.shape, dtype=object)
    out.flat = [_sr(v if isinstance(v, SR) else int(v)) for v in o.flat]
    r = out.view(SymArray)
    r._k = 'i'
    return r


def _scalar(e, k):
    if k == 'f':
        return _sr(e)
    if k == 'b':
        if isinstance(e, SB):
            v = C.value_of(e)
            return e if v is None else _np.bool_(v)
        return _np.bool_(e)
    if k == 'i':
        if isinstance(e, SR):
            e.force()
            if e.is_const():
                return _np.int64(int(e.as_fraction()))
            return e
        return _np.int64(e)
    return e


def kind_of(x):
    if isinstance(x, SymArray):
        return x._k
    if isinstance(x, SR):
        return 'f'
    if isinstance(x, (bool, _np.bool_, SB)):
        return 'b'
    if isinstance(x, (int, _np.integer)):
        return 'i'
    if isinstance(x, (float, _np.floating, Fraction)):
        return 'f'
    if isinstance(x, _np.ndarray):
        if x.dtype.kind in 'iu':
            return 'i'
        if x.dtype.kind == 'b':
            return 'b'
        if x.dtype.kind == 'f':
            return 'f'
        if x.dtype == object:
            ks = set(kind_of(e) for e in x.flat)
            return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b' if ks else 'f'
    if isinstance(x, (list, tuple)):
        ks = set(kind_of(e) for e in x)
        return 'f' if ('f' in ks or not ks) else 'i' if 'i' in ks else 'b'
    if x is None or isinstance(x, (str, bytes)):
        return 'o'
    if hasattr(x, '__float__'):
        return 'f'
    return 'o'


def _dtype_kind(dt):
    if dt is None:
        return None
    if dt in (float_, float):
        return 'f'
    if dt in (int_, int):
        return 'i'
    k = _np.dtype(dt).kind
    if k in 'iu':
        return 'i'
    if k in 'fb':
        return k
    if k == 'O':
        return 'f'
    raise EngineLimit('dtype %s' % dt)


def _cast(o, k0, k):
    """Base object array of kind k0 -> kind k."""
    if k == k0:
        return o
    out = _np.empty(o.shape, dtype=object)
    if k == 'f':
        out.flat = [_sr(e) for e in o.flat]
    elif k == 'i':
        out.flat = [C.trunc(e) if isinstance(e, SR) else int(e) for e in o.flat]
    else:
        out.flat = [C.as_sb(e) for e in o.flat]
    return out


class SymArray(_np.ndarray):
    _k = 'f'

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', 'f')

    @property
    def dtype(self):
        return _np.dtype({'f': 'float64', 'i': 'int64', 'b': 'bool'}[self._k])

    @property
    def itemsize(self):
        return 8

    @property
    def base(self):
        b = _np.ndarray.base.__get__(self)
        return b if isinstance(b, SymArray) or b is None or b.base is not None else None

    @property
    def nbytes(self):
        return 8 * self.size

    # -- indexing
    def __getitem__(self, idx):
        r = _np.ndarray.__getitem__(self, _index(idx))
        if isinstance(r, SymArray):
            r._k = self._k
            return r
        return _scalar(r, self._k)

    def __setitem__(self, idx, val):
        if not self.flags.writeable:
            raise ValueError('assignment destination is read-only')
        if isinstance(val, SymArray):
            v = val.view(_np.ndarray)
            kv = val._k
        elif _is_sym(val):
            v = _objarr(val)
            kv = kind_of(val)
        else:
            a = _np.asarray(val) if not _contains_sym(val) else array(val)
            if isinstance(a, SymArray):
                kv = a._k
                v = a.view(_np.ndarray)
            else:
                kv = kind_of(a)
                v = a.astype(object)
        if kv == 'o':
            raise TypeError('bad value in assignment')
        v = _cast(v, kv, self._k) if kv != self._k else v
        if self._k == 'f':
            v = _np.asarray(_to_sr(v), dtype=object)
        idx = _index(idx)
        b = self.view(_np.ndarray)
        if v.ndim == 0:
            v = v[()]
            tgt = b[idx]
            if isinstance(tgt, _np.ndarray):
                # object assignment of a scalar: fill
                fill = _np.empty(tgt.shape, dtype=object)
                fill.flat = [v] * tgt.size
                b[idx] = fill
            else:
                b[idx] = v
        else:
            b[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __array_ufunc__(self, uf, method, *args, **kw):
        return ufunc(uf, method, *args, **kw)

    def __array_function__(self, func, types, args, kwargs):
        mod = func.__module__ or ''
        tbl = linalg if mod.startswith('numpy.linalg') else globals()
        name = func.__name__
        if mod.startswith('numpy.linalg'):
            f = getattr(linalg, name, None)
        else:
            f = globals().get(name)
        if f is None or f is func:
            raise EngineLimit('numpy.%s' % name)
        return f(*args, **kwargs)

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        e = self.view(_np.ndarray).ravel()[0]
        return bool(e)

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(self.view(_np.ndarray).ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(self.view(_np.ndarray).ravel()[0])

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self._k, self.shape)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise EngineLimit('pickling a symbolic array')

    def __contains__(self, x):
        return bool(any(equal(self, x)))

    # -- methods
    def dot(self, *a, **kw):
        return dot(self, *a, **kw)

    def sum(self, *a, **kw):
        return sum(self, *a, **kw)

    def prod(self, *a, **kw):
        return prod(self, *a, **kw)

    def mean(self, *a, **kw):
        return mean(self, *a, **kw)

    def min(self, *a, **kw):
        return min(self, *a, **kw)

    def max(self, *a, **kw):
        return max(self, *a, **kw)

    def ptp(self, *a, **kw):
        return ptp(self, *a, **kw)

    def argmin(self, *a, **kw):
        return argmin(self, *a, **kw)

    def argmax(self, *a, **kw):
        return argmax(self, *a, **kw)

    def all(self, *a, **kw):
        return all(self, *a, **kw)

    def any(self, *a, **kw):
        return any(self, *a, **kw)

    def nonzero(self):
        return nonzero(self)

    def cumsum(self, *a, **kw):
        return cumsum(self, *a, **kw)

    def cumprod(self, *a, **kw):
        return cumprod(self, *a, **kw)

    def trace(self, *a, **kw):
        return trace(self, *a, **kw)

    def round(self, *a, **kw):
        return around(self, *a, **kw)

    def clip(self, *a, **kw):
        return clip(self, *a, **kw)

    def diagonal(self, *a, **kw):
        return globals()['diagonal'](self, *a, **kw)

    def compress(self, cond, axis=None):
        return compress(cond, self, axis)

    def searchsorted(self, v, *a, **kw):
        return searchsorted(self, v, *a, **kw)

    def astype(self, dt, copy=True, **kw):
        k = _dtype_kind(dt)
        if k == self._k:
            return self.copy()
        return mk(_cast(self.view(_np.ndarray), self._k, k).copy(), k)

    def tolist(self):
        def conv(o):
            if isinstance(o, list):
                return [conv(x) for x in o]
            if isinstance(o, SR):
                return o.item() if not o.py else o
            return o
        return conv(self.view(_np.ndarray).tolist())

    def item(self, *a):
        r = self.view(_np.ndarray).item(*a)
        return r.item() if isinstance(r, SR) and not r.py else r

    def fill(self, v):
        self[...] = v

    def argsort(self, *a, **kw):
        return argsort(self, *a, **kw)

    def sort(self, axis=-1, **kw):
        self[...] = sort(self, axis=axis)

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros(self.shape)

    def std(self, *a, **kw):
        return std(self, *a, **kw)

    def var(self, *a, **kw):
        return var(self, *a, **kw)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def take(self, idx, *a, **kw):
        return take(self, idx, *a, **kw)

    def copy(self, order='C'):
        r = _np.ndarray.copy(self)
        r._k = self._k
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **kw):
        if a and a[0] is _np.ndarray:
            return _np.ndarray.view(self, _np.ndarray)
        if a and isinstance(a[0], type) and issubclass(a[0], _np.ndarray):
            return _np.ndarray.view(self, *a, **kw)
        if not a and not kw:
            r = _np.ndarray.view(self)
            r._k = self._k
            return r
        raise EngineLimit('view(dtype)')

    @property
    def I(self):
        return linalg.inv(self)


class SymMatrix(SymArray):
    """Enough of numpy.matrix: always 2-d, * is the matrix product."""
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', 'f')

    def __getitem__(self, idx):
        r = _np.ndarray.__getitem__(self.view(_np.ndarray), _index(idx))
        if not isinstance(r, _np.ndarray):
            return _scalar(r, self._k)
        if r.ndim == 1:
            # numpy.matrix keeps two dimensions
            if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], (int, _np.integer)):
                r = r.reshape(-1, 1)
            else:
                r = r.reshape(1, -1)
        r = r.view(SymMatrix)
        r._k = self._k
        return r

    def __mul__(self, o):
        if isinstance(o, (SR, int, float, _np.number)):
            return asmatrix(multiply(self.view(SymArray), o))
        return asmatrix(dot(_np.ndarray.view(self, SymArray), asmatrix(o).view(SymArray)))

    def __rmul__(self, o):
        if isinstance(o, (SR, int, float, _np.number)):
            return asmatrix(multiply(self.view(SymArray), o))
        return asmatrix(dot(asmatrix(o).view(SymArray), self.view(SymArray)))

    @property
    def I(self):
        return asmatrix(linalg.inv(self.view(SymArray)))

    @property
    def A(self):
        return self.view(SymArray)

    @property
    def A1(self):
        return self.view(SymArray).ravel()

    @property
    def T(self):
        r = _np.ndarray.transpose(self)
        r._k = self._k
        return r

    def ravel(self, order='C'):
        return asmatrix(_np.ndarray.view(self, SymArray).ravel())
    flatten = ravel

    def sum(self, axis=None, **kw):
        r = sum(self.view(SymArray), axis=axis)
        if axis is None:
            return r
        return asmatrix(r.reshape(1, -1) if axis == 0 else r.reshape(-1, 1))


def asmatrix(x, dtype=None):
    a = array(x, force=True)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    elif a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim > 2:
        raise ValueError('matrix must be 2-dimensional')
    if not isinstance(a, SymArray):
        a = _force_sym(a)
    r = _np.ndarray.view(a, SymMatrix)
    r._k = a._k
    return r


matrix = mat = bmat = asmatrix


def _force_sym(a):
    """Plain int/bool array -> SymArray of reals."""
    o = _np.empty(a.shape, dtype=object)
    o.flat = [_sr(e) for e in a.flat]
    r = o.view(SymArray)
    r._k = 'f'
    return r


def _contains_sym(x):
    if isinstance(x, (SymArray, SR, SB)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(e) for e in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _has_symbolic(x)
    return False


def _contains_float(x):
    if isinstance(x, (float, _np.floating, Fraction)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_float(e) for e in x)
    if isinstance(x, _np.ndarray):
        return x.dtype.kind == 'f'
    return False


def _index(idx):
    if isinstance(idx, tuple):
        return tuple(_index1(i) for i in idx)
    return _index1(idx)


def _index1(i):
    if isinstance(i, SymArray):
        if i._k == 'b':
            return concrete_mask(i)
        if i._k == 'i':
            o = i.view(_np.ndarray)
            out = _np.array([C.concretise_int(e) for e in o.flat], dtype=_np.int64)
            return out.reshape(o.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, SR):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                         'integer or boolean arrays are valid indices')
    if isinstance(i, SB):
        return bool(i)
    if isinstance(i, list) and _contains_sym(i):
        return _index1(array(i))
    return i


def concrete_mask(a):
    o = _objarr(a)
    return _np.array([bool(e) for e in o.flat], dtype=bool).reshape(o.shape)


# --------------------------------------------------------------------------
# ufuncs

def _num2(f, out_kind=None):
    """Elementwise binary op on reals/ints."""
    def g(a, b):
        return f(a, b)
    uf = _np.frompyfunc(g, 2, 1)

    def call(x, y):
        kx, ky = kind_of(x), kind_of(y)
        if 'o' in (kx, ky):
            raise TypeError('unsupported operand for symbolic array')
        ox, oy = _objarr(_lst(x)), _objarr(_lst(y))
        k = out_kind or ('f' if 'f' in (kx, ky) else 'i')
        r = uf(_elems(ox), _elems(oy))
        return mk(r, k)
    return call


def _lst(x):
    if isinstance(x, (list, tuple)):
        return array(x)
    return x


def _elems(o):
    """Base object array with every element SR (numpy flavoured) or SB."""
    out = _np.empty(o.shape, dtype=object)
    res = []
    for e in o.flat:
        if isinstance(e, SR):
            res.append(_sr(e))
        elif isinstance(e, SB):
            res.append(e)
        else:
            res.append(_sr(e))
    if o.ndim == 0:
        out[()] = res[0]
    else:
        out.flat = res
    return out


def _b2n(e):
    return _sr(e) if isinstance(e, SB) else e


def _op(f):
    return lambda a, b: f(_b2n(a), _b2n(b))


def _max2(a, b):
    if a.force().sp == 'nan' or b.force().sp == 'nan':
        return SR({}, sp='nan')
    return a if bool(a >= b) else b


def _min2(a, b):
    if a.force().sp == 'nan' or b.force().sp == 'nan':
        return SR({}, sp='nan')
    return a if bool(a <= b) else b


def _hypot(a, b):
    return C.sqrt(a * a + b * b, nonneg=True)


_BIN = {
    'add': _num2(_op(lambda a, b: a + b)),
    'subtract': _num2(_op(lambda a, b: a - b)),
    'multiply': _num2(_op(lambda a, b: a * b)),
    'true_divide': _num2(_op(lambda a, b: a / b), 'f'),
    'divide': _num2(_op(lambda a, b: a / b), 'f'),
    'floor_divide': _num2(_op(lambda a, b: a // b)),
    'remainder': _num2(_op(lambda a, b: a % b)),
    'mod': _num2(_op(lambda a, b: a % b)),
    'power': _num2(_op(lambda a, b: a ** b)),
    'float_power': _num2(_op(lambda a, b: a ** b), 'f'),
    'maximum': _num2(_op(_max2)),
    'minimum': _num2(_op(_min2)),
    'fmax': _num2(_op(_max2)),
    'fmin': _num2(_op(_min2)),
    'hypot': _num2(_op(_hypot), 'f'),
    'arctan2': _num2(_op(C.atan2), 'f'),
    'less': _num2(_op(lambda a, b: a < b), 'b'),
    'less_equal': _num2(_op(lambda a, b: a <= b), 'b'),
    'greater': _num2(_op(lambda a, b: a > b), 'b'),
    'greater_equal': _num2(_op(lambda a, b: a >= b), 'b'),
    'equal': _num2(_op(lambda a, b: a == b), 'b'),
    'not_equal': _num2(_op(lambda a, b: a != b), 'b'),
    'logical_and': _num2(lambda a, b: C.sb_and([a, b]), 'b'),
    'logical_or': _num2(lambda a, b: C.sb_or([a, b]), 'b'),
    'logical_xor': _num2(lambda a, b: C.sb_xor(C.as_sb(a), C.as_sb(b)), 'b'),
    'bitwise_and': _num2(lambda a, b: C.sb_and([a, b]), 'b'),
    'bitwise_or': _num2(lambda a, b: C.sb_or([a, b]), 'b'),
    'bitwise_xor': _num2(lambda a, b: C.sb_xor(C.as_sb(a), C.as_sb(b)), 'b'),
    'fmod': _num2(_op(lambda a, b: a - b * C.trunc(SR.const(a) / b))),
    'heaviside': _num2(_op(lambda a, b: SR.const(1) if bool(a > 0) else SR.const(0) if bool(a < 0) else SR.const(b)), 'f'),
    'copysign': _num2(_op(lambda a, b: C.absolute(a) if bool(b >= 0) else -C.absolute(a)), 'f'),
}


def _un(f, out_kind='f'):
    uf = _np.frompyfunc(f, 1, 1)

    def call(x):
        k = kind_of(x)
        if k == 'o':
            raise TypeError('ufunc not supported for the input types')
        return mk(uf(_elems(_objarr(_lst(x)))), out_kind if out_kind else k)
    return call


def _special(names):
    return lambda e: C.as_sb(e.force().sp in names)


_UN = {
    'negative': _un(lambda e: -_b2n(e), None),
    'positive': _un(lambda e: e, None),
    'absolute': _un(lambda e: C.absolute(_b2n(e)), None),
    'fabs': _un(lambda e: C.absolute(_b2n(e))),
    'sign': _un(lambda e: C.sign(_b2n(e)), None),
    'sqrt': _un(lambda e: C.sqrt(_b2n(e))),
    'square': _un(lambda e: _b2n(e) * _b2n(e), None),
    'reciprocal': _un(lambda e: 1 / _b2n(e)),
    'cos': _un(lambda e: C.cos(_b2n(e))),
    'sin': _un(lambda e: C.sin(_b2n(e))),
    'tan': _un(lambda e: C.sin(_b2n(e)) / C.cos(_b2n(e))),
    'arccos': _un(lambda e: C.acos(_b2n(e))),
    'arcsin': _un(lambda e: C.asin(_b2n(e))),
    'radians': _un(lambda e: _b2n(e).radians()),
    'deg2rad': _un(lambda e: _b2n(e).radians()),
    'degrees': _un(lambda e: _b2n(e).degrees()),
    'rad2deg': _un(lambda e: _b2n(e).degrees()),
    'floor': _un(lambda e: C.floor(_b2n(e))),
    'ceil': _un(lambda e: C.ceil(_b2n(e))),
    'trunc': _un(lambda e: C.trunc(_b2n(e))),
    'rint': _un(lambda e: C.rint(_b2n(e))),
    'isnan': _un(_special(('nan',)), 'b'),
    'isinf': _un(_special(('inf', '-inf')), 'b'),
    'isfinite': _un(_special((None,)), 'b'),
    'logical_not': _un(lambda e: C.sb_not(C.as_sb(e)), 'b'),
    'invert': _un(lambda e: C.sb_not(C.as_sb(e)), 'b'),
    'bitwise_not': _un(lambda e: C.sb_not(C.as_sb(e)), 'b'),
    'conjugate': _un(lambda e: e, None),
    'conj': _un(lambda e: e, None),
    'arctan': _un(lambda e: C.atan2(_b2n(e), SR.const(1))),
    'signbit': _un(lambda e: _b2n(e) < 0, 'b'),
}


def ufunc(uf, method, *args, **kw):
    name = uf if isinstance(uf, str) else uf.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keepdims = kw.get('keepdims', False)
        fn = {'add': sum, 'multiply': prod, 'logical_and': all, 'logical_or': any,
              'maximum': max, 'minimum': min}.get(name)
        if fn is None:
            raise EngineLimit('ufunc %s.reduce' % name)
        return fn(args[0], axis=axis, keepdims=keepdims)
    if method == 'outer':
        return outer_op(name, *args)
    if method == 'accumulate' and name == 'add':
        return cumsum(args[0], axis=kw.get('axis', 0))
    if method != '__call__':
        raise EngineLimit('ufunc method %s' % method)
    if name == 'matmul':
        r = matmul(*args)
    elif name in _BIN and len(args) == 2:
        r = _BIN[name](*args)
    elif name in _UN and len(args) == 1:
        a = args[0]
        if a is None or isinstance(a, _np.ndarray) and not isinstance(a, SymArray) and \
                (a.dtype.kind in 'OUS') and builtins.any(_odd(e) for e in a.flat):
            raise TypeError("ufunc '%s' not supported for the input types" % name)
        r = _UN[name](*args)
    elif name == 'clip':
        r = clip(*args)
    else:
        raise EngineLimit('ufunc %s' % name)
    if where is not True and not (isinstance(where, (bool, _np.bool_)) and where):
        w = concrete_mask(where) if not isinstance(where, _np.ndarray) or isinstance(where, SymArray) else where
        tgt = out[0] if isinstance(out, tuple) and out else out
        if tgt is None:
            raise EngineLimit('ufunc where= without out=')
        w = _np.broadcast_to(w, tgt.shape)
        tgt[w] = _np.broadcast_to(_objarr(r), tgt.shape)[w] if isinstance(r, _np.ndarray) else r
        return tgt
    if out is not None:
        tgt = out[0] if isinstance(out, tuple) else out
        if tgt is not None:
            kr = kind_of(r)
            kt = kind_of(tgt)
            # products of empty concrete and symbolic arrays are empty arrays of objects
            empty = [a for a in args if type(a) is _np.ndarray and a.dtype == object and not a.size]
            if kr == 'f' and kt in 'ib' and not empty:
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') "
                                "with casting rule 'same_kind'" % name)
            if isinstance(tgt, SymArray):
                tgt[...] = r
                return tgt
            if _contains_sym(r) and not isinstance(tgt, SymArray):
                raise EngineLimit('in-place symbolic write into a concrete array')
            tgt[...] = _np.asarray(r, dtype=tgt.dtype)
            return tgt
    return r


def _sr_array_ufunc(self, uf, method, *args, **kw):
    return ufunc(uf, method, *args, **kw)


SR.__array_ufunc__ = _sr_array_ufunc
SB.__array_ufunc__ = _sr_array_ufunc


def _mk_ufunc(name):
    realuf = getattr(_np, name)

    def f(*args, **kw):
        if name in _BIN and len(args) == 3:
            kw['out'] = args[2]
            args = args[:2]
        if builtins.any(_contains_sym(a) or _contains_float(a) for a in args) or _contains_sym(kw.get('out')):
            return ufunc(name, '__call__', *args, **kw)
        r = realuf(*args, **kw)
        return post(r)
    f.__name__ = name
    f.reduce = lambda a, axis=0, **kw: ufunc(name, 'reduce', a, axis=axis)
    f.outer = lambda a, b: outer_op(name, a, b)
    return f


def post(r):
    """Float results of real numpy become symbolic constants."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, _np.ndarray):
        if r.dtype.kind == 'f':
            return mk(r.astype(object), 'f')
        if r.dtype == object and _has_symbolic(r):
            return mk(r, kind_of(r))
        return r
    if isinstance(r, (float, _np.floating)):
        return _sr(r)
    if isinstance(r, tuple):
        return tuple(post(x) for x in r)
    if isinstance(r, list):
        return [post(x) for x in r]
    return r


for _n in set(list(_BIN) + list(_UN)):
    globals()[_n] = _mk_ufunc(_n)
abs = globals()['absolute']     # noqa: A001
bitwise_not = globals()['invert']
acos = globals()['arccos']
asin = globals()['arcsin']
atan2 = globals()['arctan2']
atan = globals()['arctan']
pow = globals()['power']    # noqa: A001
less = globals()['less']
equal = globals()['equal']
multiply = globals()['multiply']
subtract = globals()['subtract']


def outer_op(name, a, b):
    a, b = asarray(a), asarray(b)
    return ufunc(name, '__call__', a.reshape(a.shape + (1,) * b.ndim), b)


# --------------------------------------------------------------------------
# creation

def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, force=False):
    if isinstance(obj, SymArray):
        k = _dtype_kind(dtype)
        r = (obj if subok else _np.ndarray.view(obj, SymArray))
        r._k = obj._k
        r = r if k is None or k == obj._k else obj.astype(dtype)
        r = r.copy() if copy else r
    elif isinstance(obj, (SR, SB)):
        k = _dtype_kind(dtype) or kind_of(obj)
        o = _np.empty((), dtype=object)
        o[()] = _sr(obj) if k == 'f' else obj
        r = o.view(SymArray)
        r._k = k
        return r
    else:
        if not _contains_sym(obj):
            if not copy and isinstance(obj, _np.ndarray) and dtype is None and obj.dtype.kind in 'iubUSO':
                return obj
            if dtype is not None and dtype in (float_, int_):
                dtype = float if dtype is float_ else int
            try:
                real = _np.array(obj, dtype=dtype)
            except (TypeError, ValueError):
                raise
            if real.dtype.kind == 'f':
                if isinstance(obj, _np.ndarray):
                    r = mk(real.astype(object), 'f')
                else:
                    # keep exact python values (Fractions, ints)
                    r = mk(_np.array(_exact(obj), dtype=object).reshape(real.shape), 'f')
                r = r if isinstance(r, SymArray) else array(r)
            else:
                r = real
        else:
            o = _stack_obj(obj)
            if o.ndim and builtins.any(_odd(e) for e in o.flat):
                return _mixed(o, dtype)
            k0 = kind_of(o)
            if k0 == 'o':
                raise TypeError('non-numeric element')
            k = _dtype_kind(dtype) or k0
            r = mk(_cast(_elems(o), k0, k), k)
            if not isinstance(r, _np.ndarray):
                r = array(r)
    while isinstance(r, _np.ndarray) and r.ndim < ndmin:
        r = r[_np.newaxis]
    return r


def _odd(e):
    return not isinstance(e, (SR, SB)) and (e is None or isinstance(e, (str, bytes, complex)) or kind_of(e) == 'o')


def _mixed(o, dtype):
    """What numpy makes of symbolic numbers mixed with other things: arrays of strings or complex numbers (the
    numbers in them replaced by 1: nothing here computes with them) or object arrays."""
    if dtype is not None:
        raise EngineLimit('array of mixed elements with a dtype')
    odd = [e for e in o.flat if _odd(e)]
    if builtins.all(isinstance(e, (str, bytes, complex)) for e in odd):
        c = _np.empty(o.shape, dtype=object)
        c.flat = [e if _odd(e) else 1.0 for e in o.flat]
        return _np.array(c.tolist())
    return o


def _exact(o):
    if isinstance(o, (list, tuple)):
        return [_exact(e) for e in o]
    if isinstance(o, _np.ndarray):
        return o.tolist()
    if isinstance(o, range):
        return list(o)
    return o


def _stack_obj(obj):
    def conv(x):
        if isinstance(x, SymArray):
            return x.view(_np.ndarray)
        if isinstance(x, (list, tuple)):
            return [conv(e) for e in x]
        return x
    o = conv(obj)
    if isinstance(o, _np.ndarray):
        return o
    shapes = [_shape(e) for e in o]
    if shapes and builtins.any(s != shapes[0] for s in shapes):
        raise ValueError('setting an array element with a sequence. The requested array has an '
                         'inhomogeneous shape')
    full = (len(o),) + (shapes[0] if shapes else ())
    out = _np.empty(full, dtype=object)
    for i, e in enumerate(o):
        if shapes[0] == ():
            out[i] = e[()] if isinstance(e, _np.ndarray) else e
        else:
            out[i] = _stack_obj(e) if isinstance(e, list) else e
    return out


def _shape(e):
    if isinstance(e, list):
        if not e:
            return (0,)
        s = [_shape(x) for x in e]
        if builtins.any(x != s[0] for x in s):
            raise ValueError('inhomogeneous shape')
        return (len(e),) + s[0]
    if isinstance(e, _np.ndarray):
        return e.shape
    return ()


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, SymArray) and not isinstance(a, SymMatrix):
        if _dtype_kind(dtype) in (None, a._k):
            return a
    elif isinstance(a, _np.ndarray) and a.dtype.kind in 'iubUSO' and dtype is None and not _contains_sym(a):
        return a
    return array(a, dtype=dtype, copy=False)


asanyarray = asfarray = asarray


def ascontiguousarray(a, dtype=None):
    return asarray(a, dtype)


def _full(shape, v, k):
    if isinstance(shape, (int, _np.integer)):
        shape = (shape,)
    shape = tuple(C.concretise_int(s) if isinstance(s, SR) else int(s) for s in _iter_shape(shape))
    o = _np.empty(shape, dtype=object)
    o.flat = [v] * o.size
    if o.ndim == 0:
        return array(v)
    return mk(o, k)


def _iter_shape(s):
    if isinstance(s, SR):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, _np.ndarray):
        if s.dtype.kind == 'f':
            raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
        return list(s)
    return list(s)


def zeros(shape, dtype=None, order=None):
    k = _dtype_kind(dtype) or 'f'
    return _full(shape, SR({}) if k == 'f' else 0 if k == 'i' else False, k)


def ones(shape, dtype=None, order=None):
    k = _dtype_kind(dtype) or 'f'
    return _full(shape, SR({0: 1}) if k == 'f' else 1 if k == 'i' else True, k)


empty = zeros


def full(shape, v, dtype=None, order=None):
    k = _dtype_kind(dtype) or kind_of(v)
    if isinstance(v, (list, tuple, _np.ndarray)):
        r = zeros(shape, dtype=dtype or 'f8')
        r[...] = v
        return r
    return _full(shape, v, k)


def _like(f):
    def g(a, dtype=None, **kw):
        a = asarray(a)
        return f(a.shape, dtype=dtype if dtype is not None else {'f': float, 'i': int, 'b': bool}[kind_of(a)])
    return g


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(zeros)


def full_like(a, v, dtype=None, **kw):
    a = asarray(a)
    return full(a.shape, v, dtype=dtype if dtype is not None else {'f': float, 'i': int, 'b': bool}[kind_of(a)])


def eye(n, m=None, k=0, dtype=None, **kw):
    return post(_np.eye(n, m, k, dtype=_np.float64 if dtype is None else dtype))


identity = eye


def arange(*args, **kw):
    dtype = kw.get('dtype')
    if builtins.any(isinstance(a, (SR, float)) for a in args):
        a = [_srpy(x) for x in args]
        start, stop, step = (SR.const(0), a[0], SR.const(1)) if len(a) == 1 else \
            (a[0], a[1], a[2] if len(a) > 2 else SR.const(1))
        n = C.concretise_int(C.ceil((stop - start) / step))
        return array([start + step * i for i in range(builtins.max(n, 0))] or [], dtype=float)
    return post(_np.arange(*args, **kw)) if dtype is None or _dtype_kind(dtype) == 'i' else \
        array(list(_np.arange(*args)), dtype=dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = asarray(start), asarray(stop)
    den = (num - 1) if endpoint else num
    rows = [a + (b - a) * Fraction(i, den) if den else a + 0 * b for i in range(num)]
    if not rows:
        return zeros((0,) + a.shape)
    return array([r[()] if isinstance(r, _np.ndarray) and r.ndim == 0 else r for r in rows], dtype=float)


# --------------------------------------------------------------------------
# structural functions: run the real one on base object arrays

def _prep(x):
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, (SR, SB)):
        return _objarr(x)
    if isinstance(x, (list, tuple)) and _contains_sym(x):
        if builtins.any(isinstance(e, _np.ndarray) for e in x):
            return [_objarr(e) if isinstance(e, _np.ndarray) else _stack_obj(e) if isinstance(e, (list, tuple))
                    else _objarr(e) for e in x]
        return _stack_obj(x)
    return x


def _structural(name):
    real = getattr(_np, name)

    def f(*args, **kw):
        sym = builtins.any(_contains_sym(a) for a in args) or builtins.any(_contains_sym(a) for a in kw.values())
        if not sym:
            return post(real(*[_plain(a) for a in args], **kw))
        ks = set()
        for a in args[:2] if name in ('append', 'insert', 'concatenate', 'where') else args[:1]:
            if isinstance(a, (list, tuple, _np.ndarray, SR)):
                if isinstance(a, (list, tuple)):
                    for e in a:
                        ks.add(kind_of(e))
                else:
                    ks.add(kind_of(a))
        k = 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
        args = [_prep(a) if isinstance(a, (list, tuple, _np.ndarray, SR, SB)) else a for a in args]
        r = real(*args, **kw)

        def wrap(r):
            if isinstance(r, list):
                return [wrap(x) for x in r]
            if isinstance(r, tuple):
                return tuple(wrap(x) for x in r)
            if not isinstance(r, _np.ndarray):
                return _scalar(r, k)
            # keep view semantics where numpy returns a view of object data
            if r.dtype == object and k == 'f' and builtins.all(type(e) is SR and not e.py for e in r.flat):
                v = r.view(SymArray)
                v._k = 'f'
                return v
            return mk(r, k)
        return wrap(r)
    f.__name__ = name
    return f


def _plain(a):
    return a


for _n in ('pad', 'concatenate', 'vstack', 'hstack', 'dstack', 'column_stack', 'stack', 'append', 'insert',
           'repeat', 'tile', 'diag', 'flipud', 'fliplr', 'flip', 'roll', 'transpose', 'swapaxes',
           'ravel', 'reshape', 'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to',
           'moveaxis', 'split', 'array_split', 'vsplit', 'hsplit', 'rot90', 'diagonal', 'tril', 'triu',
           'broadcast_arrays', 'resize', 'block', 'rollaxis', 'row_stack', 'diagflat', 'concat', 'permute_dims', 'matrix_transpose',
           'unstack', 'dsplit', 'asfortranarray'):
    if hasattr(_np, _n):
        globals()[_n] = _structural(_n)
_delete = _structural('delete')
_take = _structural('take')
_compress = _structural('compress')


def delete(arr, obj, axis=None):
    return _delete(arr, _index1(obj), axis=axis)


def take(a, idx, axis=None, **kw):
    return _take(a, _index1(idx), axis=axis)


def compress(cond, a, axis=None):
    a = asarray(a)
    idx = _np.flatnonzero(concrete_mask(asarray(cond)))
    return take(a, idx, axis=axis)


def copy(a, **kw):
    return array(a, copy=True)


def where(cond, *args):
    if not args:
        return nonzero(asarray(cond))
    x, y = args
    c = cond if isinstance(cond, _np.ndarray) and not isinstance(cond, SymArray) else \
        asarray(cond) if isinstance(cond, (list, tuple)) else cond
    if isinstance(c, SymArray):
        c = concrete_mask(c)
    elif isinstance(c, SB):
        c = _np.array(bool(c))
    k = 'f' if 'f' in (kind_of(x), kind_of(y)) else 'i' if 'i' in (kind_of(x), kind_of(y)) else 'b'
    if k == 'i' and not (_contains_sym(x) or _contains_sym(y)):
        return _np.where(c, x, y)
    return mk(_np.where(c, _objarr(_lst(x)), _objarr(_lst(y))), k)


def nonzero(a):
    a = asarray(a)
    if isinstance(a, SymArray):
        o = a.view(_np.ndarray)
        m = _np.array([bool(C.as_sb(e)) for e in o.flat], dtype=bool).reshape(o.shape)
        return _np.nonzero(m)
    return _np.nonzero(a)


def flatnonzero(a):
    return nonzero(ravel(a))[0]     # noqa: F821


def argwhere(a):
    return _np.transpose(nonzero(a))


def count_nonzero(a, axis=None):
    a = asarray(a)
    if isinstance(a, SymArray):
        o = a.view(_np.ndarray)
        m = _np.array([bool(C.as_sb(e)) for e in o.flat], dtype=bool).reshape(o.shape)
        return _np.count_nonzero(m, axis=axis)
    return _np.count_nonzero(a, axis=axis)


def isscalar(x):
    return isinstance(x, SR) or _np.isscalar(x)


def isrealobj(x):
    if _contains_sym(x):
        return True
    return _np.isrealobj(x)


def iscomplexobj(x):
    return not isrealobj(x)


def isreal(x):
    if _contains_sym(x):
        return ones(asarray(x).shape, dtype=bool) if isinstance(x, _np.ndarray) else True
    return _np.isreal(x)


def ndim(a):
    return asarray(a).ndim


def shape(a):
    return asarray(a).shape


def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


# --------------------------------------------------------------------------
# reductions

def _reduce(a, axis, keepdims, fn, k, empty=None):
    """fn: list of elements -> element."""
    o = _objarr(a)
    if axis is None:
        r = fn(list(o.flat))
        if keepdims:
            x = _np.empty((1,) * o.ndim, dtype=object)
            x.flat = [r]
            return mk(x, k)
        return _scalar(r, k)
    if isinstance(axis, tuple):
        if len(axis) == o.ndim:
            return _reduce(a, None, keepdims, fn, k)
        ax = sorted((x % o.ndim for x in axis), reverse=True)
        r = a
        for x in ax:
            r = _reduce(r, x, keepdims, fn, k)
        return r
    if o.ndim == 0:
        return _scalar(fn([o[()]]), k)
    axis = axis % o.ndim if -o.ndim <= axis < o.ndim else _bad_axis(axis, o.ndim)
    m = _np.moveaxis(o, axis, -1)
    shp = m.shape[:-1]
    out = _np.empty(shp, dtype=object)
    flat = m.reshape((-1, m.shape[-1])) if m.size else _np.empty((int(_np.prod(shp)), m.shape[-1]), dtype=object)
    vals = [fn(list(row)) for row in flat]
    if shp == ():
        r = vals[0]
        if keepdims:
            x = _np.empty((1,), dtype=object)
            x[0] = r
            return mk(x, k)
        return _scalar(r, k)
    out.flat = vals
    if keepdims:
        out = _np.expand_dims(out, axis)
    return mk(out, k)


def _bad_axis(axis, nd):
    raise _np.exceptions.AxisError(axis, nd)


def _fold_add(xs):
    t = SR({})
    for x in xs:
        t = t + _b2n(x)
    return t


def sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):   # noqa: A001
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.sum(a, axis=axis, keepdims=keepdims))
    k = a._k
    if k == 'b':
        o = concrete_mask(a)
        return _np.sum(o, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, keepdims, _fold_add, k)


def nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.nansum(a, axis=axis, keepdims=keepdims))
    return _reduce(a, axis, keepdims, lambda xs: _fold_add([x for x in xs if x.force().sp != 'nan']), 'f')


def prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.prod(a, axis=axis, keepdims=keepdims))

    def fn(xs):
        t = SR({0: 1})
        for x in xs:
            t = t * x
        return t
    return _reduce(a, axis, keepdims, fn, a._k)


product = prod


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis] if not isinstance(axis, tuple) else \
        int(_np.prod([a.shape[x] for x in axis]))
    s = sum(a, axis=axis, keepdims=keepdims)
    if not _is_sym(s):
        s = asarray(s) if isinstance(s, _np.ndarray) else _sr(s)
    if n == 0:
        return s / _sr(0) if not isinstance(s, _np.ndarray) else s / 0
    return _div_const(s, n)


def _div_const(s, n):
    if isinstance(s, _np.ndarray) and not isinstance(s, SymArray):
        s = _force_sym(s)
    return s / n


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis=axis)
    a, w = asarray(a), asarray(weights)
    if a.ndim == w.ndim:
        return sum(a * w, axis=axis) / sum(w, axis=axis)
    if axis is None or w.ndim != 1:
        raise EngineLimit('average weights')
    sh = [1] * a.ndim
    sh[axis] = -1
    return sum(a * w.reshape(sh), axis=axis) / sum(w)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = asarray(a)
    m = mean(a, axis=axis, keepdims=True) if axis is not None else mean(a)
    n = a.size if axis is None else a.shape[axis]
    return sum((a - m) * (a - m), axis=axis, keepdims=keepdims) / (n - ddof)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return globals()['sqrt'](var(a, axis, ddof=ddof, keepdims=keepdims))


def _ext(op):
    def fn(xs):
        if not xs:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = xs[0]
        for x in xs[1:]:
            r = op(r, x)
        return r
    return fn


def max(a, axis=None, out=None, keepdims=False, **kw):      # noqa: A001
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.max(a, axis=axis, keepdims=keepdims))
    return _reduce(a, axis, keepdims, _ext(_max2), a._k)


def min(a, axis=None, out=None, keepdims=False, **kw):      # noqa: A001
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.min(a, axis=axis, keepdims=keepdims))
    return _reduce(a, axis, keepdims, _ext(_min2), a._k)


amax, amin = max, min


def ptp(a, axis=None, out=None, keepdims=False, **kw):
    return max(a, axis, keepdims=keepdims) - min(a, axis, keepdims=keepdims)


def _argx(better):
    def fn(xs):
        if not xs:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi = 0
        for i in range(1, len(xs)):
            if xs[bi].force().sp == 'nan':
                return bi
            if xs[i].force().sp == 'nan':
                return i
            if bool(better(xs[i], xs[bi])):
                bi = i
        return bi
    return fn


def argmax(a, axis=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.argmax(a, axis=axis, keepdims=keepdims)
    if a._k == 'b':
        return _np.argmax(concrete_mask(a), axis=axis, keepdims=keepdims)
    return _reduce(a, axis, keepdims, _argx(lambda x, y: x > y), 'i')


def argmin(a, axis=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.argmin(a, axis=axis, keepdims=keepdims)
    if a._k == 'b':
        return _np.argmin(concrete_mask(a), axis=axis, keepdims=keepdims)
    return _reduce(a, axis, keepdims, _argx(lambda x, y: x < y), 'i')


def _nonan(fn):
    def f(a, *args, **kw):
        a = asarray(a)
        if isinstance(a, SymArray) and builtins.any(isinstance(e, SR) and e.force().sp == 'nan' for e in a.flat):
            raise EngineLimit('nan-ignoring reduction of nan')
        return fn(a, *args, **kw)
    return f


nanargmax, nanargmin = _nonan(argmax), _nonan(argmin)
nanmax, nanmin, nanmean = _nonan(max), _nonan(min), _nonan(mean)


def _sorted_idx(xs):
    """Stable insertion sort (numpy's default sort is not stable on ties, which
    only reorders equal keys)."""
    order = []
    for i, x in enumerate(xs):
        j = len(order)
        while j > 0 and bool(x < xs[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def argsort(a, axis=-1, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.argsort(a, axis=axis, kind='stable')
    if a.ndim == 1 or axis is None:
        return _np.array(_sorted_idx(list(_objarr(a).ravel())), dtype=_np.int64)
    m = _np.moveaxis(_objarr(a), axis, -1)
    out = _np.empty(m.shape, dtype=_np.int64)
    for idx in _np.ndindex(m.shape[:-1]):
        out[idx] = _sorted_idx(list(m[idx]))
    return _np.moveaxis(out, -1, axis)


def sort(a, axis=-1, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.sort(a, axis=axis)
    if axis is None:
        a, axis = a.ravel(), -1
    return mk(_np.take_along_axis(_objarr(a), argsort(a, axis), axis), a._k)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    rows = axis is not None
    if rows and axis != 0:
        raise EngineLimit('unique columns')
    o = _objarr(a)
    order = lexsort([mk(c, a._k) for c in o.reshape(len(o), -1).T[::-1]]) if rows else argsort(a.ravel())
    o = o if rows else o.ravel()
    first, inverse, counts = [], _np.zeros(len(o), dtype=_np.int64), []
    for i in order:
        if not first or bool(any(mk(o[i], a._k) != mk(o[first[-1]], a._k)) if rows else o[i] != o[first[-1]]):
            first.append(int(i))
            counts.append(0)
        inverse[i] = len(first) - 1
        counts[-1] += 1
    res = [a[first] if rows else array([o[i] for i in first])]
    res += [_np.array(first, dtype=_np.int64)] * return_index + [inverse] * return_inverse + [_np.array(counts, dtype=_np.int64)] * return_counts
    return tuple(res) if len(res) > 1 else res[0]


def all(a, axis=None, out=None, keepdims=False, **kw):      # noqa: A001
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.all(a, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, keepdims, lambda xs: C.sb_and([C.as_sb(x) for x in xs]), 'b')


def any(a, axis=None, out=None, keepdims=False, **kw):      # noqa: A001
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.any(a, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, keepdims, lambda xs: C.sb_or([C.as_sb(x) for x in xs]), 'b')


alltrue, sometrue = all, any


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.cumsum(a, axis=axis)
    o = _objarr(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = _np.moveaxis(o, axis, 0)
    out = _np.empty(m.shape, dtype=object)
    for i in range(m.shape[0]):
        out[i] = m[i] if i == 0 else _objarr(mk(out[i - 1], 'f') + mk(m[i], 'f')) if m.ndim > 1 else out[i - 1] + m[i]
    return mk(_np.moveaxis(out, 0, axis), a._k)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    ends = [None if e is None else asarray(e) for e in (prepend, append)]
    for i, e in enumerate(ends):
        if e is not None and e.ndim == 0:
            ends[i] = broadcast_to(e, tuple(1 if d == axis % a.ndim else m for d, m in enumerate(a.shape)))  # noqa: F821
    if prepend is not None or append is not None:
        a = concatenate([e for e in (ends[0], a, ends[1]) if e is not None], axis=axis)     # noqa: F821
    for _ in range(n):
        hi = [slice(None)] * a.ndim
        lo = [slice(None)] * a.ndim
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(hi)] - a[tuple(lo)]
    return a


def ediff1d(a, **kw):
    return diff(asarray(a).ravel())


def trace(a, offset=0, axis1=0, axis2=1, **kw):
    return sum(diagonal(asarray(a), offset, axis1, axis2), axis=-1)     # noqa: F821


def cumprod(a, axis=None, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return post(_np.cumprod(a, axis=axis))
    if a.ndim > 1 and axis is not None:
        raise EngineLimit('cumprod of rows')
    out = []
    for x in _objarr(a).ravel():
        out.append(out[-1] * x if out else x)
    return mk(_objs(out), a._k)


def _objs(xs):
    o = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


def isin(a, test, assume_unique=False, invert=False, kind=None):
    a, b = asarray(a), asarray(test)
    if not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return _np.isin(a, b, invert=invert)
    b = list(_objarr(b).ravel())

    def one(x):
        r = C.sb_or([C.as_sb(x == y) for y in b])
        return C.sb_not(r) if invert else r
    r = mk(_objs([one(x) for x in _objarr(a).ravel()]), 'b')
    return r.reshape(a.shape)


def in1d(a, b, **kw):
    return isin(asarray(a).ravel(), b, **kw)


def _keep(keep):
    def f(a, b, assume_unique=False):
        a, b = asarray(a), asarray(b)
        m = concrete_mask(isin(a, b))
        a = a.ravel()[_np.asarray(keep(m)).ravel()]
        return a if assume_unique else unique(a)
    return f


setdiff1d, intersect1d = _keep(lambda m: ~m), _keep(lambda m: m)


def union1d(a, b):
    return unique(concatenate([asarray(a).ravel(), asarray(b).ravel()]))       # noqa: F821


def searchsorted(a, v, side='left', sorter=None):
    a, vs = asarray(a), asarray(v)
    if not isinstance(a, SymArray) and not isinstance(vs, SymArray):
        return _np.searchsorted(a, vs, side=side, sorter=sorter)
    a = a if sorter is None else a[sorter]
    xs = list(_objarr(a))

    def one(x):
        i = 0
        while i < len(xs) and bool(xs[i] < x if side == 'left' else xs[i] <= x):
            i += 1
        return i
    r = _np.array([one(x) for x in _objarr(vs).ravel()], dtype=_np.int64).reshape(vs.shape)
    return r if vs.ndim else r[()]


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def median(a, axis=None, **kw):
    a = sort(asarray(a), axis=axis)
    if axis is None:
        axis = 0
    n = a.shape[axis]
    return mean(take(a, [n // 2] if n % 2 else [n // 2 - 1, n // 2], axis=axis), axis=axis)


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 2 or b.ndim != 2:
        raise EngineLimit('kron')
    r = a[:, None, :, None] * b[None, :, None, :]
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def apply_along_axis(fn, axis, a, *args, **kw):
    m = _np.moveaxis(asarray(a), axis, -1)
    rows = [asarray(fn(m[i], *args, **kw)) for i in _np.ndindex(*m.shape[:-1])]
    r = stack(rows).reshape(m.shape[:-1] + rows[0].shape)       # noqa: F821
    n = rows[0].ndim
    for i in range(n):
        r = _np.moveaxis(r, m.ndim - 1 + i, axis + i if axis >= 0 else axis % m.ndim + i)
    return r


def extract(cond, a):
    return asarray(a).ravel()[concrete_mask(asarray(cond)).ravel()]


def select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = where(c, x, r)
    return r


def fromiter(it, dtype=None, count=-1):
    return array(list(it) if count < 0 else [x for _, x in zip(range(count), it)], dtype=dtype)


def fill_diagonal(a, v, wrap=False):
    v = asarray(v).ravel()
    for i in range(builtins.min(a.shape)):
        a[(i,) * a.ndim] = v[i % len(v)]


def take_along_axis(a, idx, axis=-1):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.take_along_axis(a, _index1(idx), axis)
    return mk(_np.take_along_axis(_objarr(a), _index1(idx), axis), a._k)


def put(a, idx, v, mode='raise'):
    idx = _np.asarray(_index1(idx)).ravel()
    v = asarray(v).ravel()
    for j, i in enumerate(idx):
        a.reshape(-1)[i] = v[j % len(v)]


def place(a, mask, v):
    idx = _np.flatnonzero(concrete_mask(asarray(mask)))
    put(a, idx, v)


def copyto(dst, src, casting='same_kind', where=True):  # noqa: W0621
    if where is True:
        dst[...] = src
    else:
        m = concrete_mask(asarray(where))
        dst[m] = broadcast_to(asarray(src), dst.shape)[m]       # noqa: F821


def meshgrid(*xs, **kw):
    r = _np.meshgrid(*[_np.arange(len(_lst(x))) for x in xs], **kw)
    return [asarray(x)[i] for x, i in zip(xs, r)]


def choose(a, choices, **kw):
    a = _np.asarray(_index1(asarray(a)))
    ch = [broadcast_to(asarray(c), a.shape) for c in choices]       # noqa: F821
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = ch[int(a[i])][i]
    return array(out.tolist())


def putmask(a, mask, v):
    m = _np.flatnonzero(concrete_mask(asarray(mask)))
    v = asarray(v).ravel()
    for i in m:
        a.reshape(-1)[i] = v[i % len(v)]


def put_along_axis(a, idx, v, axis):
    idx = _np.asarray(_index1(idx))
    v = broadcast_to(asarray(v), idx.shape)     # noqa: F821
    for i in _np.ndindex(*idx.shape):
        j = list(i)
        j[axis] = int(idx[i])
        a[tuple(j)] = v[i]


def shares_memory(a, b, **kw):
    return _np.shares_memory(a, b)


def may_share_memory(a, b, **kw):
    return _np.may_share_memory(a, b)


def iterable(x):
    return _np.iterable(x)


def isposinf(x):
    return _un(_special(('inf',)), 'b')(asarray(x))


def isneginf(x):
    return _un(_special(('-inf',)), 'b')(asarray(x))


def iscomplex(x):
    a = asarray(x)
    return _np.iscomplex(a) if not isinstance(a, SymArray) else full(a.shape, False)


def imag(x):
    return zeros(asarray(x).shape) if _contains_sym(x) else _np.imag(x)


def divmod(a, b):       # noqa: W0622
    return globals()['floor_divide'](a, b), globals()['mod'](a, b)


def asarray_chkfinite(a, dtype=None, order=None):
    a = asarray(a, dtype=dtype)
    if not bool(all(globals()['isfinite'](a))):
        raise ValueError('array must not contain infs or NaNs')
    return a


def require(a, dtype=None, requirements=None, **kw):
    return asarray(a, dtype=dtype)


def nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    return prod(where(globals()['isnan'](a), 1, a), axis=axis, keepdims=keepdims)


def cumulative_sum(a, axis=None, **kw):
    return cumsum(a, axis=axis, **kw)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if y.ndim != 1:
        raise EngineLimit('trapezoid')
    d = diff(asarray(x)) if x is not None else dx
    return sum(d * (y[1:] + y[:-1]) / 2.0)


def matvec(a, b):
    return matmul(a, asarray(b)[..., None])[..., 0]


def vecmat(a, b):
    return matmul(asarray(a)[..., None, :], b)[..., 0, :]


def issubdtype(a, b):
    k = getattr(a, '_k', None) or (a if isinstance(a, str) else None)
    return _np.issubdtype(a, b) if k is None else _np.issubdtype({'f': float, 'i': int, 'b': bool}.get(k, a), b)


def vecdot(a, b, axis=-1):
    return sum(asarray(a) * asarray(b), axis=axis)


def lexsort(keys, axis=-1):
    keys = [asarray(k) for k in keys]
    if not builtins.any(isinstance(k, SymArray) for k in keys):
        return _np.lexsort(keys)
    idx = list(range(len(keys[0])))
    for k in keys:
        o = _sorted_idx([_objarr(k)[i] for i in idx])
        idx = [idx[i] for i in o]
    return _np.array(idx, dtype=_np.int64)


class vectorize(object):
    def __init__(self, fn, *a, **kw):
        self.fn, self.ok = fn, not a and not [k for k in kw if k != 'otypes']

    def __call__(self, *args):
        if not self.ok:
            raise EngineLimit('vectorize options')
        args = broadcast_arrays(*[asarray(a) for a in args])       # noqa: F821
        shp = args[0].shape
        r = array([self.fn(*[a[i] for a in args]) for i in _np.ndindex(*shp)]).reshape(shp)
        return r if shp else r[()]


def clip(a, lo=None, hi=None, out=None, **kw):
    r = a
    if lo is not None:
        r = ufunc('maximum', '__call__', r, lo)
    if hi is not None:
        r = ufunc('minimum', '__call__', r, hi)
    return r


def around(a, decimals=0, out=None):
    f = lambda e: e.__round__(decimals) if decimals else C.rint(e)
    if isinstance(a, SR):
        return _sr(f(a))
    a = asarray(a)
    if kind_of(a) == 'i':
        return a
    return _un(f)(a)


round = round_ = around     # noqa: A001


def fix(a):
    return globals()['trunc'](a)


# --------------------------------------------------------------------------
# linear algebra

def _mm(A, B):
    """2-d object matmul."""
    n, k = A.shape
    m = B.shape[1]
    out = _np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            t = SR({})
            for q in range(k):
                a, b = A[i, q], B[q, j]
                t = t + _b2n(a) * _b2n(b)
            out[i, j] = t
    return out


def dot(a, b, out=None):
    a0, b0 = a, b
    a, b = asarray(a), asarray(b)
    ma = isinstance(a0, SymMatrix) or isinstance(b0, SymMatrix)
    if not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return post(_np.dot(a, b))
    k = 'f' if 'f' in (kind_of(a), kind_of(b)) else 'i'
    A, B = _elems(_objarr(a)), _elems(_objarr(b))
    if A.ndim == 0 or B.ndim == 0:
        return ufunc('multiply', '__call__', a, b)
    sa, sb = A.shape, B.shape
    A2 = A.reshape(-1, sa[-1]) if A.size or sa[-1] else A.reshape(int(_np.prod(sa[:-1])), sa[-1])
    if B.ndim == 1:
        B2, tail = B.reshape(-1, 1), ()
        kdim = sb[0]
    else:
        Bm = _np.moveaxis(B, -2, 0)
        kdim = sb[-2]
        tail = Bm.shape[1:]
        B2 = Bm.reshape(kdim, -1) if B.size else Bm.reshape(kdim, int(_np.prod(tail)))
    if sa[-1] != kdim:
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)' % (
            sa, sb, sa[-1], len(sa) - 1, kdim, builtins.max(len(sb) - 2, 0)))
    r = _mm(A2, B2)
    shp = sa[:-1] + tail
    if shp == ():
        return _scalar(r[0, 0], k)
    r = mk(r.reshape(shp), k)
    return asmatrix(r) if ma else r


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2:
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError('matmul: Input operand does not have enough dimensions')
        return dot(a, b)
    A, B = _objarr(a), _objarr(b)
    va, vb = A.ndim == 1, B.ndim == 1
    if va:
        A = A[_np.newaxis]
    if vb:
        B = B[:, _np.newaxis]
    shp = _np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = _np.broadcast_to(A, shp + A.shape[-2:])
    B = _np.broadcast_to(B, shp + B.shape[-2:])
    if A.shape[-1] != B.shape[-2]:
        raise ValueError('matmul: mismatch in its core dimension')
    out = _np.empty(shp + (A.shape[-2], B.shape[-1]), dtype=object)
    for idx in _np.ndindex(*shp):
        out[idx] = _mm(_elems(A[idx]), _elems(B[idx]))
    if va:
        out = out[..., 0, :]
    if vb:
        out = out[..., 0]
    return mk(out, 'f')


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return dot(a, _np.ndarray.transpose(b) if b.ndim == 2 else b)


def outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return ufunc('multiply', '__call__', a[:, None], b[None, :])


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if axes == 1:
        return dot(a, b)
    raise EngineLimit('tensordot')


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise EngineLimit('einsum form')
    spec = spec.replace(' ', '')
    ops = [_elems(_objarr(asarray(o))) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '').replace('.', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if '...' in ins:
            out = '...' + out
    ins = ins.split(',')
    # expand ellipsis
    if '...' in spec:
        pool = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        nd = builtins.max([o.ndim - len(t.replace('...', '')) for o, t in zip(ops, ins) if '...' in t] or [0])
        full_e = ''.join(pool[:nd])
        new = []
        for o, t in zip(ops, ins):
            if '...' in t:
                k = o.ndim - len(t.replace('...', ''))
                t = t.replace('...', full_e[nd - k:])
            new.append(t)
        ins = new
        out = out.replace('...', full_e)
    dims = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match operand dimensions')
        for c, n in zip(t, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n not in (1, dims[c]):
                raise ValueError('operands could not be broadcast together')
    inner_l = [c for c in dims if c not in out]
    res = _np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in _np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        t = SR({})
        for ii in _np.ndindex(*[dims[c] for c in inner_l]):
            env.update(zip(inner_l, ii))
            p = SR({0: 1})
            for tt, o in zip(ins, ops):
                p = p * _b2n(o[tuple(env[c] if o.shape[q] != 1 else 0 for q, c in enumerate(tt))])
            t = t + p
        res[oi] = t
    return mk(res, 'f')


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    if not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return post(_np.cross(a, b, axisa, axisb, axisc))
    if a.ndim < 1 or b.ndim < 1:
        raise ValueError('At least one array has zero dimension')
    k = 'f' if 'f' in (kind_of(a), kind_of(b)) else 'i'
    A = _np.moveaxis(_elems(_objarr(a)), axisa, -1)
    B = _np.moveaxis(_elems(_objarr(b)), axisb, -1)
    if A.shape[-1] not in (2, 3) or B.shape[-1] not in (2, 3):
        raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    if A.shape[-1] == 2 or B.shape[-1] == 2:
        if A.shape[-1] == 2 and B.shape[-1] == 2:
            shp = _np.broadcast_shapes(A.shape[:-1], B.shape[:-1])
            A, B = _np.broadcast_to(A, shp + (2,)), _np.broadcast_to(B, shp + (2,))
            out = _np.empty(shp, dtype=object)
            for i in _np.ndindex(*shp):
                out[i] = A[i][0] * B[i][1] - A[i][1] * B[i][0]
            return mk(out, k)
        raise EngineLimit('mixed 2d/3d cross')
    shp = _np.broadcast_shapes(A.shape[:-1], B.shape[:-1])
    A, B = _np.broadcast_to(A, shp + (3,)), _np.broadcast_to(B, shp + (3,))
    out = _np.empty(shp + (3,), dtype=object)
    for i in _np.ndindex(*shp):
        x, y = A[i], B[i]
        out[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    if len(shp):
        out = _np.moveaxis(out, -1, axisc)
    return mk(out, k)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    X = asarray(m)
    if not rowvar:
        X = X.T
    if y is not None or X.ndim != 2:
        raise EngineLimit('cov form')
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    Xc = X - mean(X, axis=1)[:, None]
    return dot(Xc, Xc.T) / (n - ddof)


def gradient(f, *varargs, **kw):
    f = asarray(f)
    if f.ndim != 1:
        raise EngineLimit('gradient of n-d array')
    n = f.shape[0]
    edge = kw.get('edge_order', 1)
    if edge != 1:
        raise EngineLimit('gradient edge_order')
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) '
                         'elements are required.')
    out = [None] * n
    if not varargs or asarray(varargs[0]).ndim == 0:
        h = varargs[0] if varargs else 1
        for i in range(1, n - 1):
            out[i] = (f[i + 1] - f[i - 1]) / (2 * h)
        out[0] = (f[1] - f[0]) / h
        out[-1] = (f[n - 1] - f[n - 2]) / h
        return array(out, dtype=float)
    x = asarray(varargs[0])
    if len(x) != n:
        raise ValueError('when 1d, distances must match the length of the corresponding dimension')
    d = diff(x)
    # numpy switches to the uniform formula when all spacings are equal; the
    # two formulas agree there
    for i in range(1, n - 1):
        h0, h1 = d[i - 1], d[i]
        a = -(h1) / (h0 * (h0 + h1))
        b = (h1 - h0) / (h0 * h1)
        c = h0 / (h1 * (h0 + h1))
        out[i] = a * f[i - 1] + b * f[i] + c * f[i + 1]
    out[0] = (f[1] - f[0]) / d[0]
    out[-1] = (f[n - 1] - f[n - 2]) / d[n - 2]
    return array(out, dtype=float)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rtol, atol = SR.const(rtol), SR.const(atol)

    def f(x, y):
        x, y = _b2n(x).force(), _b2n(y).force()
        if x.sp or y.sp:
            if x.sp == 'nan' and y.sp == 'nan':
                return C.as_sb(equal_nan)
            return C.as_sb(x.sp == y.sp and x.sp != 'nan')
        d = x - y
        if not rtol.num:
            return C.sb_and([d <= atol, -d <= atol])
        return C.absolute(d) <= atol + rtol * C.absolute(y)
    return _num2(f, 'b')(a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = all(isclose(a, b, rtol, atol, equal_nan))
    return r


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(equal(a, b))


def array_equiv(a, b):
    return all(equal(a, b))


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        e.force()
        if e.sp == 'nan':
            return _sr(nan)
        if e.sp == 'inf':
            return _sr(posinf if posinf is not None else 1.7976931348623157e308)
        if e.sp == '-inf':
            return _sr(neginf if neginf is not None else -1.7976931348623157e308)
        return e
    return _un(f)(a)


def spacing(x):
    x = _sr(x)
    if x.is_const():
        return _sr(float(_np.spacing(float(x))))
    raise EngineLimit('spacing of a symbolic value')


def interp(*a, **kw):
    raise EngineLimit('interp')


def real(x):
    return x


class LinAlgError(ValueError):
    pass


LinAlgError = _np.linalg.LinAlgError


def _square(a):
    if a.ndim != 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')


def _det(M):
    n = M.shape[0]
    if n == 0:
        return SR({0: 1})
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    # expand along the row/column with most zeros
    best, bi, byrow = -1, 0, True
    for i in range(n):
        z = builtins.sum(1 for j in range(n) if _zero(M[i, j]))
        if z > best:
            best, bi, byrow = z, i, True
        z = builtins.sum(1 for j in range(n) if _zero(M[j, i]))
        if z > best:
            best, bi, byrow = z, i, False
    t = SR({})
    for j in range(n):
        e = M[bi, j] if byrow else M[j, bi]
        if _zero(e):
            continue
        i_, j_ = (bi, j) if byrow else (j, bi)
        sub = _np.delete(_np.delete(M, i_, 0), j_, 1)
        d = e * _det(sub)
        t = t + d if (bi + j) % 2 == 0 else t - d
    return t


def _zero(e):
    return e.pend is None and e.sp is None and not e.num


class _Linalg(object):
    LinAlgError = LinAlgError
    svd_oracle = None
    holds = None
    eig_oracle = None

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False, **kw):
        x = asarray(x)
        if ord is not None and not (isinstance(ord, (int, float)) and ord == 2 and (x.ndim == 1 or isinstance(axis, int))) \
                and ord not in ('fro',):
            if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
                return sum(globals()['absolute'](x), axis=axis, keepdims=keepdims)
            if ord == inf and (x.ndim == 1 or isinstance(axis, int)):
                return max(globals()['absolute'](x), axis=axis, keepdims=keepdims)
            raise EngineLimit('norm ord %r' % (ord,))

        def fn(xs):
            xs = [_b2n(e) for e in xs]
            t = _fold_add([e * e for e in xs])
            if len(xs) > 1 and t.pend is None and t.sp is None and not t.den and t.cden == 1 and len(t.num) < 200 \
                    and builtins.all(e.cden == 1 and not e.den for e in xs):
                c = C.P.content(t.num)
                if c == 1:
                    C.note_norm([e.num for e in xs], t.num)
            return C.sqrt(t, nonneg=True)
        return _reduce(_force_sym(x) if not isinstance(x, SymArray) else mk(_elems(_objarr(x)), 'f'),
                       axis, keepdims, fn, 'f')

    @staticmethod
    def det(a, **kw):
        a = asarray(a)
        if a.ndim > 2:
            out = _np.empty(a.shape[:-2], dtype=object)
            for i in _np.ndindex(*a.shape[:-2]):
                out[i] = _det(_elems(_objarr(a[i])))
            return mk(out, 'f')
        _square(a)
        return _sr(_det(_elems(_objarr(a))))

    @staticmethod
    def matrix_rank(a, tol=None, **kw):
        # the size of the largest minor that isn't zero; numpy's tolerance is of the size of rounding errors
        if tol is not None or kw:
            raise EngineLimit('matrix_rank with a tolerance')
        a = asarray(a)
        M = _elems(_objarr(a))
        if M.ndim < 2:
            return int(builtins.any([bool(C.sb_rel(e, C.NEG | C.POS)) for e in M.flat]))
        if M.ndim > 2:
            raise EngineLimit('matrix_rank of a stack')
        import itertools
        m, n = M.shape
        for k in range(builtins.min(m, n), 0, -1):
            for r in itertools.combinations(range(m), k):
                for c in itertools.combinations(range(n), k):
                    if bool(C.sb_rel(_det(M[list(r)][:, list(c)]), C.NEG | C.POS)):
                        return k
        return 0

    @staticmethod
    def inv(a, **kw):
        a0 = a
        a = asarray(a)
        _square(a)
        M = _elems(_objarr(a))
        n = M.shape[0]
        d = _det(M)
        if not bool(C.sb_rel(d, C.NEG | C.POS)):
            raise LinAlgError('Singular matrix')
        out = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sub = _np.delete(_np.delete(M, j, 0), i, 1)
                c = _det(sub)
                if (i + j) % 2:
                    c = -c
                out[i, j] = c / d
        r = mk(out, 'f')
        return asmatrix(r) if isinstance(a0, SymMatrix) else r

    pinv = None

    @staticmethod
    def solve(a, b, **kw):
        a, b = asarray(a), asarray(b)
        _square(a)
        return dot(linalg.inv(a), b)

    @staticmethod
    def svd(a, full_matrices=True, compute_uv=True, **kw):
        if linalg.svd_oracle is None:
            # an orthonormal matrix is its own polar factor; whichever decomposition is
            # taken, only the product of the outer factors is determined by it
            a = asarray(a)
            n = a.shape[0]
            if a.shape == (n, n) and linalg.holds is not None:
                e = dot(a, a.T)
                if linalg.holds(e, n):
                    return (a, ones(n), eye(n)) if compute_uv else ones(n)
            raise EngineLimit('svd')
        u, s, v = linalg.svd_oracle(asarray(a))
        return (u, s, v) if compute_uv else s

    @staticmethod
    def eig(a, **kw):
        if linalg.eig_oracle is None:
            raise EngineLimit('eig')
        return linalg.eig_oracle(asarray(a))

    @staticmethod
    def eigh(a, **kw):
        if linalg.eig_oracle is None:
            raise EngineLimit('eigh')
        w, v = linalg.eig_oracle(asarray(a))
        order = argsort(w)
        return w[order], v[:, order]

    @staticmethod
    def eigvals(a):
        return linalg.eig(a)[0]

    @staticmethod
    def eigvalsh(a, **kw):
        return linalg.eigh(a)[0]

    @staticmethod
    def svdvals(a):
        return linalg.svd(a, compute_uv=False)

    @staticmethod
    def slogdet(a):
        d = linalg.det(a)
        if not bool(C.sb_rel(SR.const(d), C.NEG | C.POS)):
            return SR.const(0), -inf
        raise EngineLimit('slogdet')

    @staticmethod
    def lstsq(a, b, rcond=None):
        # of full column rank: the normal equations; otherwise not decided here
        a, b = asarray(a), asarray(b)
        g = dot(a.T, a)
        if not bool(C.sb_rel(SR.const(linalg.det(g)), C.NEG | C.POS)):
            raise EngineLimit('lstsq of dependent columns')
        x = dot(linalg.inv(g), dot(a.T, b))
        m, n = a.shape
        res = sum(square(dot(a, x) - b), axis=0) if m > n else zeros(0)
        return x, res, n, None

    @staticmethod
    def qr(a, mode='reduced'):
        a = asarray(a)
        m, n = a.shape
        if m < n or mode != 'reduced':
            raise EngineLimit('qr')
        q, r = [], zeros((n, n))
        for j in range(n):
            w = a[:, j]
            for i, u in enumerate(q):
                r[i, j] = dot(u, a[:, j])
                w = w - r[i, j] * u
            r[j, j] = linalg.norm(w)
            if not bool(r[j, j] > 0):
                raise EngineLimit('qr of dependent columns')
            q.append(w / r[j, j])
        return stack(q, axis=1), r      # noqa: F821

    @staticmethod
    def cholesky(a, **kw):
        a = asarray(a)
        _square(a)
        n = a.shape[0]
        L = zeros((n, n))
        for j in range(n):
            d = a[j, j] - sum(square(L[j, :j]))
            if not bool(d > 0):
                raise LinAlgError('Matrix is not positive definite')
            L[j, j] = C.sqrt(SR.const(d), nonneg=True)
            for i in range(j + 1, n):
                L[i, j] = (a[i, j] - dot(L[i, :j], L[j, :j])) / L[j, j]
        return L

    @staticmethod
    def trace(a, **kw):
        return trace(a, axis1=-2, axis2=-1, **kw)

    @staticmethod
    def diagonal(a, **kw):
        return diagonal(a, axis1=-2, axis2=-1, **kw)     # noqa: F821

    @staticmethod
    def matrix_transpose(a):
        return swapaxes(asarray(a), -1, -2)      # noqa: F821

    @staticmethod
    def tensordot(a, b, axes=2):
        return tensordot(a, b, axes=axes)

    @staticmethod
    def matrix_norm(a, ord='fro', **kw):
        if ord != 'fro' or kw:
            raise EngineLimit('matrix_norm')
        return linalg.norm(a)

    @staticmethod
    def multi_dot(arrays, **kw):
        r = arrays[0]
        for x in arrays[1:]:
            r = dot(r, x)
        return r

    @staticmethod
    def matrix_power(a, n):
        r = eye(asarray(a).shape[0])
        b = a
        if n < 0:
            b, n = linalg.inv(a), -n
        for _ in range(n):
            r = dot(r, b)
        return r

    @staticmethod
    def cross(a, b, axis=-1):
        return cross(a, b, axis=axis)

    @staticmethod
    def vector_norm(x, axis=None, keepdims=False, ord=2):
        x = asarray(x)
        if axis is None:
            x, axis = x.ravel(), 0
            if keepdims:
                raise EngineLimit('vector_norm')
        return linalg.norm(x, ord, axis, keepdims)

    @staticmethod
    def vecdot(a, b, axis=-1):
        return vecdot(a, b, axis=axis)

    @staticmethod
    def outer(a, b):
        return outer(a, b)

    @staticmethod
    def matmul(a, b):
        return matmul(a, b)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if not hasattr(_np.linalg, name):
            raise AttributeError("module 'numpy.linalg' has no attribute %r" % name)
        raise EngineLimit('numpy.linalg.%s' % name)


linalg = _Linalg()


# -- misc
class errstate(object):
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, fn):
        return fn


def seterr(**kw):
    return {}


class _FInfo(object):
    eps = Fraction(1, 2 ** 52)
    tiny = Fraction(1, 2 ** 1022)
    smallest_normal = tiny
    max = 1.7976931348623157e308
    min = -1.7976931348623157e308
    resolution = Fraction(1, 10 ** 15)


def finfo(dt=None):
    r = _FInfo()
    r.eps = _sr(_FInfo.eps)
    r.tiny = _sr(_FInfo.tiny)
    r.resolution = _sr(_FInfo.resolution)
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SR) and x.py) or \
            (isinstance(x, SR) and True)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or issubclass(c, SR)


class float_(metaclass=_FloatMeta):
    """builtins.float inside blmath modules."""
    def __new__(cls, x=0.0):
        if isinstance(x, SR):
            return SR(x.num, x.cden, x.den, x.sp, x.pend, True)
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return float_(x.view(_np.ndarray).ravel()[0])
        if isinstance(x, SB):
            return builtins.float(bool(x))
        if isinstance(x, str):
            y = getattr(x, '_symval', None)
            return builtins.float(x) if y is None else float_(y)
        f = getattr(type(x), '__float__', None)
        if f is not None and not isinstance(x, (builtins.float, builtins.int, _np.generic, _np.ndarray)):
            r = f(x)
            if isinstance(r, SR):
                return r
            return builtins.float(r)
        return builtins.float(x)

    fromhex = builtins.float.fromhex

    @staticmethod
    def is_integer(x):
        return x.is_integer()


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class int_(metaclass=_IntMeta):
    """builtins.int inside blmath modules: symbolic reals become symbolic integers
    only where a python int is not required; here we concretise by forking."""
    def __new__(cls, x=0, *a):
        if isinstance(x, SR):
            x.force()
            if x.sp:
                raise (ValueError if x.sp == 'nan' else OverflowError)('cannot convert float %s to integer' % x.sp)
            t = C.trunc(x)
            if t.is_const():
                return builtins.int(t.as_fraction())
            if INT_SYMBOLIC:
                return SR(t.num, t.cden, t.den, py=True)
            return C.concretise_int(t)
        if isinstance(x, SymArray):
            return int_(x.view(_np.ndarray).ravel()[0])
        f = getattr(type(x), '__int__', None)
        if f is not None and not isinstance(x, (builtins.float, builtins.int, _np.generic, _np.ndarray)):
            r = f(x)
            if isinstance(r, SR):
                return int_(r)
            return builtins.int(r)
        return builtins.int(x, *a)


INT_SYMBOLIC = False


def __getattr__(name):
    if name == 'pi':
        return SR(C.PI().num)
    if name.startswith('__'):
        raise AttributeError(name)
    r = getattr(_np, name)      # AttributeError as numpy would raise it
    if isinstance(r, type) or isinstance(r, (int, float, str)) or r is None:
        return r
    if callable(r):
        def f(*args, **kw):
            if _contains_sym(args) or builtins.any(_contains_sym(v) for v in kw.values()):
                raise EngineLimit('numpy.%s' % name)
            return post(r(*args, **kw))
        return f
    return r


# options which the functions above take and do not act upon
_IDLE = {'kind', 'order', 'copy', 'subok', 'check_finite', 'stable', 'casting', 'optimize', 'overwrite_a', 'hermitian',
         'assume_unique', 'like', 'device', 'full_matrices', 'assume_sorted'}
_NAMED_IDLE = ('out', 'dtype')


def _guard(name, fn, sig):
    real = getattr(_np, name, None)
    named = [p.name for p in sig.parameters.values() if p.kind is not p.VAR_KEYWORD]
    order = [p.name for p in sig.parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
    idle = [i for i, n in enumerate(order) if n in ('out',)]

    def f(*args, **kw):
        out = kw.pop('out', None)
        for i in idle:
            if i < len(args) and args[i] is not None:
                out = args[i]
                args = args[:i] + (None,) + args[i + 1:]
        if kw:
            for k in kw:
                if k not in named and k not in _IDLE and kw[k] is not None and kw[k] is not _np._NoValue:
                    if out is None and real is not None and not builtins.any(
                            _contains_sym(x) or _contains_float(x) for x in list(args) + list(kw.values())):
                        return post(real(*args, **kw))
                    raise EngineLimit('%s option %s' % (name, k))
        if name in ('sum', 'prod', 'mean', 'cumsum', 'cumprod', 'nansum') and kw.get('dtype') is not None \
                and _dtype_kind(kw['dtype']) != 'f' and kind_of(asarray(args[0])) == 'f':
            raise EngineLimit('%s of type %s' % (name, kw['dtype']))
        if 'dtype' in named and kw.get('dtype') is not None and _dtype_kind(kw['dtype']) == 'f' and args \
                and name in ('sum', 'prod', 'mean', 'cumsum', 'cumprod', 'nansum', 'nanprod') and kind_of(asarray(args[0])) in 'ib':
            args = (asarray(args[0]).astype(float),) + args[1:]
            if not isinstance(args[0], SymArray):
                args = (array(args[0]),) + args[1:]
        r = fn(*args, **kw)
        if out is None:
            return r
        if isinstance(out, tuple):
            out, = out
        out[...] = r
        return out
    f.__name__ = name
    return f


def _guard_all():
    import inspect
    g = globals()
    skip = ('ufunc', '_sr_array_ufunc', 'vectorize', 'apply_along_axis', 'interp', 'arange', 'seterr', 'full_like', 'einsum')
    for name, fn in list(g.items()):
        if name.startswith('_') or name in skip or not inspect.isfunction(fn) or fn.__module__ != __name__:
            continue
        sig = inspect.signature(fn)
        ps = sig.parameters.values()
        if builtins.any(p.kind is p.VAR_POSITIONAL for p in ps):
            continue
        if builtins.any(p.kind is p.VAR_KEYWORD or p.name == 'out' for p in ps):
            g[name] = _guard(name, fn, sig)
    for name, fn in list(vars(_Linalg).items()):
        if isinstance(fn, staticmethod):
            sig = inspect.signature(fn.__func__)
            ps = sig.parameters.values()
            if builtins.any(p.kind is p.VAR_POSITIONAL for p in ps):
                continue
            if builtins.any(p.kind is p.VAR_KEYWORD for p in ps):
                setattr(_Linalg, name, staticmethod(_guard('linalg.' + name, fn.__func__, sig)))


_guard_all()
del pi
