"""Loads blmath's modules from /repo's current source for symbolic execution.

The source text is compiled unchanged; only what it *imports* is replaced
(numpy -> snp, math -> shim, scipy/cv2/... -> stubs) together with the builtins
float/int/any/all, which must not force a symbolic value to a machine one.
"""
import builtins
import importlib
import os
import sys
import types

import numpy as _np

from . import core as C
from . import snp
from .core import SR, SB, EngineLimit

REPO = os.environ.get('SYMX_REPO', '/repo')

_code_cache = {}
EXECUTED = {}       # (file, qualname) -> firstlineno of every blmath function entered


# --------------------------------------------------------------------------
# which functions of /repo were executed symbolically

_mon = sys.monitoring
_TOOL = 4
_mon_on = [False]


def _on_start(code, off):
    fn = code.co_filename
    if fn.startswith(REPO + '/blmath'):
        EXECUTED[(os.path.relpath(fn, REPO), code.co_qualname)] = code.co_firstlineno
    return _mon.DISABLE


def monitor():
    if not _mon_on[0]:
        _mon.use_tool_id(_TOOL, 'symx')
        _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
        _mon.set_events(_TOOL, _mon.events.PY_START)
        _mon_on[0] = True


# --------------------------------------------------------------------------
# math

class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, name):
        import math
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a):
            if builtins.any(isinstance(x, (SR, SB, snp.SymArray)) for x in a):
                raise EngineLimit('math.%s' % name)
            return f(*a)
        return g

    @property
    def pi(self):
        r = C.PI()
        r.py = True
        return r

    @property
    def tau(self):
        r = C.PI() * 2
        r.py = True
        return r

    @property
    def inf(self):
        return float('inf')

    @property
    def nan(self):
        return float('nan')

    @staticmethod
    def _py(x):
        if isinstance(x, snp.SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.view(_np.ndarray).ravel()[0]
        x = SR.const(x)
        return SR(x.num, x.cden, x.den, x.sp, x.pend, True)

    def sqrt(self, x):
        x = self._py(x).force()
        if x.sp == '-inf' or (not x.sp and bool(C.sb_rel(x, C.NEG))):
            raise ValueError('math domain error')
        return C.sqrt(x)

    def cos(self, x):
        return C.cos(self._py(x))

    def sin(self, x):
        return C.sin(self._py(x))

    def tan(self, x):
        x = self._py(x)
        return C.sin(x) / C.cos(x)

    def acos(self, x):
        return C.acos(self._py(x))

    def asin(self, x):
        x = self._py(x)
        return self._py(C.asin(x))

    def atan2(self, y, x):
        return self._py(C.atan2(self._py(y), self._py(x)))

    def degrees(self, x):
        return self._py(self._py(x).degrees())

    def radians(self, x):
        return self._py(self._py(x).radians())

    def hypot(self, *a):
        t = SR.const(0, py=True)
        for x in a:
            x = self._py(x)
            t = t + x * x
        return C.sqrt(t, nonneg=True)

    def fabs(self, x):
        return C.absolute(self._py(x))

    def floor(self, x):
        return snp.int_(C.floor(self._py(x)))

    def ceil(self, x):
        return snp.int_(C.ceil(self._py(x)))

    def trunc(self, x):
        return snp.int_(C.trunc(self._py(x)))

    def pow(self, x, y):
        return self._py(x) ** y

    def fsum(self, xs):
        t = SR.const(0, py=True)
        for x in xs:
            t = t + self._py(x)
        return t

    def copysign(self, x, y):
        x, y = C.absolute(self._py(x)), self._py(y)
        return x if bool(y >= 0) else -x

    def isnan(self, x):
        return self._py(x).force().sp == 'nan'

    def isinf(self, x):
        return self._py(x).force().sp in ('inf', '-inf')

    def isfinite(self, x):
        return self._py(x).force().sp is None

    def isclose(self, a, b, rel_tol=1e-09, abs_tol=0.0):
        a, b = self._py(a).force(), self._py(b).force()
        if a.sp or b.sp:
            return a.sp == b.sp and a.sp != 'nan'
        d = C.absolute(a - b)
        rel = SR.const(rel_tol)
        ab = SR.const(abs_tol)
        return C.sb_or([d <= rel * C.absolute(a), d <= rel * C.absolute(b), d <= ab])


MATH = MathShim()


# --------------------------------------------------------------------------
# builtins

def _any(it):
    if isinstance(it, snp.SymArray):
        it = list(it)
    if isinstance(it, (list, tuple)):
        if builtins.all(isinstance(x, (SB, bool, _np.bool_)) for x in it):
            return C.sb_or(it) if it else False
    return builtins.any(it)


def _all(it):
    if isinstance(it, snp.SymArray):
        it = list(it)
    if isinstance(it, (list, tuple)):
        if builtins.all(isinstance(x, (SB, bool, _np.bool_)) for x in it):
            return C.sb_and(it) if it else True
    return builtins.all(it)


def _simplify_bool(f):
    def g(it):
        r = f(it)
        if isinstance(r, SB):
            v = C.value_of(r)
            if v is not None:
                return v
        return r
    return g


_any, _all = _simplify_bool(_any), _simplify_bool(_all)


def _sumb(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def _abs(x):
    return abs(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, )) or (isinstance(x, SB))

    def __subclasscheck__(cls, c):
        return issubclass(c, (bool, SB))


class Loader(object):
    """One private copy of blmath (fresh module state)."""

    def __init__(self, stubs=None):
        self.mods = {}
        self.stubs = stubs or {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = snp.float_
        b['int'] = snp.int_
        b['any'] = _any
        b['all'] = _all
        b['print'] = lambda *a, **k: None
        self.builtins = b

    def module(self, name):
        return self._load(name)

    def _stub(self, name):
        if name == 'numpy':
            return snp
        if name == 'numpy.linalg':
            return snp.linalg
        if name == 'math':
            return MATH
        s = self.stubs.get(name)
        if s is None:
            from . import stubs
            s = stubs.symbolic(name)
        return s

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        root = name.split('.')[0]
        if root == 'blmath':
            m = self._load(name)
            if not fromlist:
                return self._load(root)
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    sub = name + '.' + f
                    if self._path(sub) is not None or self._stub(sub) is not None:
                        self._load(sub)
            return m
        s = self._stub(name)
        if s is None:
            if root in ('scipy', 'cv2', 'sklearn', 'chumpy', 'lace', 'bodylabs', 'plumbum'):
                raise EngineLimit('import %s' % name)
            return builtins.__import__(name, {}, {}, fromlist or (), 0)
        if not fromlist and '.' in name:
            # import a.b  binds a
            self._stub_tree(name)
            return self._stub(root)
        return s

    def _stub_tree(self, name):
        parts = name.split('.')
        for i in range(1, len(parts)):
            parent = self._stub('.'.join(parts[:i]))
            child = self._stub('.'.join(parts[:i + 1]))
            if parent is not None and child is not None and not hasattr(parent, parts[i]):
                setattr(parent, parts[i], child)

    def _path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def _load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        s = self.stubs.get(name)
        if s is None:
            from . import stubs
            s = stubs.symbolic(name)
        if s is not None:
            self.mods[name] = s
            if '.' in name:
                setattr(self._load(name.rsplit('.', 1)[0]), name.rsplit('.', 1)[1], s)
            return s
        if '.' in name:
            self._load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path = self._path(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        code = _code_cache.get(path)
        if code is None:
            with open(path) as f:
                code = compile(f.read(), path, 'exec', dont_inherit=True)
            _code_cache[path] = code
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        return m


def real_module(name):
    """The real module, from /repo, with stand-ins only for packages that are not
    installed here (listed in stubs.REAL_STANDINS)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import stubs
    stubs.install_real()
    return importlib.import_module(name)
