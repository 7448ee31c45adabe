"""The part of chumpy blmath uses: expressions (`Ch`) with terms and
differentiable terms, `.r`, `dr_wrt` by the chain rule, `on_changed` called
before a value is computed with the names of the terms which changed, leaves,
functions as expressions, MatVecMult and elementwise arithmetic.  Made once with
the symbolic numpy and scipy.sparse and once with the real ones."""
import builtins
import types


def make(np, sparse=None):
    m = types.ModuleType('chumpy')

    def sp():
        if sparse is not None:
            return sparse()
        import scipy.sparse
        return scipy.sparse

    def names(x):
        return (x,) if isinstance(x, str) else tuple(x)

    clock = [0]

    class Ch(object):
        terms = ()
        dterms = ()
        term_order = ()

        def __new__(cls, *args, **kw):
            if cls is Ch and len(args) == 1 and not kw:
                if isinstance(args[0], types.FunctionType):
                    return object.__new__(Function)
                return object.__new__(Leaf)
            return object.__new__(cls)

        def __init__(self, *args, **kw):
            order = names(self.term_order) or names(self.terms) + names(self.dterms)
            if len(args) > len(order):
                raise TypeError('too many terms')
            for n, a in zip(order, args):
                kw[n] = a
            for k, v in kw.items():
                setattr(self, k, v)

        def __setattr__(self, k, v):
            if k in names(self.dterms) and not isinstance(v, Ch):
                v = Leaf(v)
            object.__setattr__(self, k, v)
            if k in names(self.dterms) + names(self.terms):
                clock[0] += 1
                self.__dict__.setdefault('_set', {})[k] = clock[0]

        def _stamp(self):
            d = self.__dict__.get('_set', {})
            return tuple((k, d[k], getattr(self, k)._stamp() if k in names(self.dterms) else None) for k in sorted(d))

        def _refresh(self):
            for k in names(self.dterms):
                getattr(self, k)._refresh()
            new = dict((s[0], s) for s in self._stamp())
            old = self.__dict__.get('_seen', {})
            which = set(k for k in new if old.get(k) != new[k])
            if which:
                self.__dict__['_seen'] = new
                self.on_changed(which)
                # what on_changed itself sets is no change
                self.__dict__['_seen'] = dict((s[0], s) for s in self._stamp())

        def on_changed(self, which):
            pass

        def compute_r(self):
            raise NotImplementedError

        def compute_dr_wrt(self, wrt):
            raise NotImplementedError

        @property
        def r(self):
            self._refresh()
            return self.compute_r()

        @property
        def shape(self):
            return self.r.shape

        @property
        def size(self):
            return self.r.size

        def dr_wrt(self, wrt):
            if wrt is self:
                return sp().eye(self.size)
            self._refresh()
            direct = [getattr(self, k) for k in names(self.dterms)]
            out = None
            done = []
            for t in direct + [wrt]:
                if any(t is d for d in done):
                    continue
                done.append(t)
                if t is not wrt and not t._depends(wrt):
                    continue
                d = self.compute_dr_wrt(t)
                if d is None:
                    continue
                if t is not wrt:
                    inner = t.dr_wrt(wrt)
                    if inner is None:
                        continue
                    d = sp().csc_matrix(d).dot(sp().csc_matrix(inner))
                out = d if out is None else out + d
            return out

        def _depends(self, wrt):
            if self is wrt:
                return True
            return any(getattr(self, k)._depends(wrt) for k in names(self.dterms))

        def __len__(self):
            return len(self.r)

        def reshape(self, *shape):
            return Map(self, lambda x: x.reshape(*shape), None)

        def __neg__(self):
            return Map(self, lambda x: -x, lambda x: -np.ones(x.size))

        def __pow__(self, k):
            return Map(self, lambda x: x ** k, lambda x: (k * x ** (k - 1)).ravel())

        def __add__(self, o):
            return Bin(self, o, lambda a, b: a + b, lambda a, b: (a * 0 + b * 0 + 1, a * 0 + b * 0 + 1))

        def __sub__(self, o):
            return Bin(self, o, lambda a, b: a - b, lambda a, b: (a * 0 + b * 0 + 1, a * 0 + b * 0 - 1))

        def __mul__(self, o):
            return Bin(self, o, lambda a, b: a * b, lambda a, b: (a * 0 + b, b * 0 + a))

        def __truediv__(self, o):
            return Bin(self, o, lambda a, b: a / b, lambda a, b: (a * 0 + 1 / b, -a / (b * b)))

    class Leaf(Ch):
        def __init__(self, v):
            self.__dict__['x'] = np.array(v, dtype=float)
            self.__dict__['version'] = 0

        def __setitem__(self, k, v):
            self.x[k] = v
            self.__dict__['version'] += 1

        def _stamp(self):
            return (id(self), self.version)

        def _refresh(self):
            pass

        @property
        def r(self):
            return self.x

        def dr_wrt(self, wrt):
            return sp().eye(self.size) if wrt is self else None

    class Function(Ch):
        """ch.Ch(lambda a, b: expression): the terms are the arguments."""

        def __init__(self, fn):
            self.__dict__['fn'] = fn
            self.__dict__['dterms'] = fn.__code__.co_varnames[:fn.__code__.co_argcount]
            self.__dict__['node'] = None

        def on_changed(self, which):
            self.__dict__['node'] = self.fn(*[getattr(self, k) for k in self.dterms])

        def compute_r(self):
            return self.node.r

        def dr_wrt(self, wrt):
            if wrt is self:
                return sp().eye(self.size)
            self._refresh()
            return self.node.dr_wrt(wrt)

    class MatVecMult(Ch):
        terms = 'mtx'
        dterms = 'vec'

        def compute_r(self):
            return self.mtx.dot(self.vec.r.ravel()).ravel()

        def compute_dr_wrt(self, wrt):
            if wrt is self.vec:
                return self.mtx

    class Map(Ch):
        terms = 'f', 'df'
        dterms = 'x'

        def __init__(self, x, f, df):
            Ch.__init__(self, x=x, f=f, df=df)

        def compute_r(self):
            return self.f(self.x.r)

        def compute_dr_wrt(self, wrt):
            if wrt is self.x:
                return sp().eye(self.x.size) if self.df is None else sp().diags([self.df(self.x.r)], [0])

    class Sum(Ch):
        terms = 'axis'
        dterms = 'x'

        def compute_r(self):
            return np.sum(self.x.r, axis=self.axis)

        def compute_dr_wrt(self, wrt):
            if wrt is not self.x:
                return None
            shape = self.x.r.shape
            at = np.arange(builtins.int(np.prod(shape))).reshape(shape)
            if self.axis is None:
                rows = at * 0
            else:
                ax = self.axis % len(shape)
                kept = [s for i, s in enumerate(shape) if i != ax]
                rows = np.arange(builtins.int(np.prod(kept))).reshape(kept)
                rows = np.expand_dims(rows, ax) + at * 0
            rows = rows.ravel()
            n = builtins.int(rows.max()) + 1
            return sp().csc_matrix((np.ones(rows.size), (rows, at.ravel())), shape=(n, at.size))

    class Bin(Ch):
        terms = 'f', 'df'
        dterms = 'a', 'b'

        def __init__(self, a, b, f, df):
            Ch.__init__(self, a=a, b=b, f=f, df=df)

        def compute_r(self):
            return self.f(self.a.r, self.b.r)

        def compute_dr_wrt(self, wrt):
            a, b = self.a.r, self.b.r
            out = None
            for o, x, d in zip((self.a, self.b), (a, b), self.df(a, b)):
                if o is wrt:
                    at = np.arange(x.size).reshape(x.shape) + np.zeros(d.shape, dtype=builtins.int)
                    at = at.ravel()
                    j = sp().csc_matrix((d.ravel(), (np.arange(at.size), at)), shape=(at.size, x.size))
                    out = j if out is None else out + j
            return out

    def array(v, **kw):
        return v if isinstance(v, Ch) else Leaf(v)

    def depends_on(*terms):
        return property

    def sum_(x, axis=None):
        return Sum(axis=axis, x=x)
    m.Ch = Ch
    m.Leaf = Leaf
    m.array = array
    m.MatVecMult = MatVecMult
    m.depends_on = depends_on
    m.sum = sum_
    return m
