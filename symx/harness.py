"""Cases: one harness function, run symbolically (SMT decides every obligation over
all inputs of a path) and concretely (replay on the real, unmodified build)."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core as C
from . import engine as E
from . import poly as P
from . import snp
from . import loader
from .core import SR, SB

CASES = []


class Case(object):
    def __init__(self, prop, name, fn, tier='quick', deadline=None, pt=None, qt=None, max_paths=None,
                 bounds='', expect_paths=1, ext=None):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.deadline, self.pt, self.qt, self.max_paths = deadline, pt, qt, max_paths
        self.bounds = bounds
        self.ext = ext


def case(prop, name, **kw):
    def deco(fn):
        CASES.append(Case(prop, name, fn, **kw))
        return fn
    return deco


class Skip(BaseException):
    """The concrete input does not clearly satisfy the harness's assumptions."""


# --------------------------------------------------------------------------
# rational samples for structured inputs

def _small(rng, k):
    if k % 4 == 0:
        return Fraction(rng.choice((-2, -1, 0, 0, 1, 1, 2)))
    if k % 4 == 1:
        return rng.choice(E._GRID)
    return Fraction(rng.randrange(-3000, 3001), 1000)


def unit_samples(rng, n, count):
    out = []
    for k in range(count):
        if k % 4 == 0:
            v = [Fraction(0)] * n
            v[rng.randrange(n)] = Fraction(rng.choice((1, -1)))
        else:
            while True:
                q = [_small(rng, k) for _ in range(n - 1)]
                s = sum(x * x for x in q)
                v = [2 * x / (1 + s) for x in q] + [(1 - s) / (1 + s)]
                if rng.random() < 0.5:
                    v = [-x for x in v]
                i = rng.randrange(n)
                v[i], v[-1] = v[-1], v[i]
                break
        out.append(v)
    return [[v[i] for v in out] for i in range(n)]


# --------------------------------------------------------------------------

class Base(object):
    symbolic = False

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == 'thorough'
        self.tracked = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- logic over conditions
    def all_(self, conds):
        return self.and_(*conds)

    def track(self, arr, label=None):
        """Remember an argument; check_unmutated() compares it later."""
        self.tracked.append((label or 'argument %d' % len(self.tracked), arr, self._snap(arr)))
        return arr

    def check_unmutated(self):
        for label, arr, snap in self.tracked:
            self.check_same(arr, snap, 'input %s left unchanged' % label)

    def scribble(self, *arrays):
        """Overwrites arrays that were returned; they belong to the caller."""
        for a in arrays:
            if isinstance(a, np.ndarray) and a.size:
                a[...] = 77

    def check_same(self, a, b, label):
        if isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                self.check(False, label)
                return
            for x, y in zip(a, b):
                self.check_same(x, y, label)
            return
        if isinstance(b, dict):
            if type(a) is not type(b) or list(a) != list(b):
                self.check(False, label)
                return
            for k in b:
                self.check_same(a[k], b[k], label)
            return
        if b is None or isinstance(b, (str, bool)):
            self.check(a is b or a == b, label)
            return
        self.check_eq(a, b, label)

    def _snap(self, a):
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, (list, tuple)):
            return type(a)(self._snap(x) for x in a)
        if isinstance(a, dict):
            return {k: self._snap(v) for k, v in a.items()}
        return a

    def check_eq(self, a, b, label, scale=None):
        """Elementwise equality, shapes included."""
        if a is None or b is None:
            self.check(a is b, label + ' (None)')
            return
        sa, sb = self._shape(a), self._shape(b)
        if sa != sb:
            self.check(False, '%s (shape %s, expected %s)' % (label, sa, sb))
            return
        fa, fb = self._flat(a), self._flat(b)
        for x, y in zip(fa, fb):
            self.check(self.eq(x, y, scale), label, raw=(x, y))

    def eqs(self, a, b, scale=None):
        sa, sb = self._shape(a), self._shape(b)
        if sa != sb:
            return self.const(False)
        return self.and_(*[self.eq(x, y, scale) for x, y in zip(self._flat(a), self._flat(b))])

    def _shape(self, a):
        if isinstance(a, np.ndarray):
            return tuple(a.shape)
        if isinstance(a, (list, tuple)):
            return tuple(np.shape(np.empty(len(a)))) + (self._shape(a[0]) if len(a) else ())
        return ()

    def _flat(self, a):
        if isinstance(a, np.ndarray):
            return list(a.view(np.ndarray).ravel()) if isinstance(a, snp.SymArray) else list(a.ravel())
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self._flat(x)]
        return [a]

    def raises(self, fn, *types):
        """True iff fn() raises one of the exception types."""
        try:
            fn()
        except types or Exception:
            return True
        except Exception:      # noqa: BLE001
            return False
        return False

    def outcome(self, fn):
        try:
            return 'ok', fn()
        except Exception as e:      # noqa: BLE001
            return 'raised', e

    # -- exact helpers for oracles (python loops: work on SR, Fraction and float)
    @staticmethod
    def dot(a, b):
        t = 0
        for x, y in zip(a, b):
            t = t + x * y
        return t

    @staticmethod
    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    @staticmethod
    def sub(a, b):
        return [x - y for x, y in zip(a, b)]

    @staticmethod
    def add(a, b):
        return [x + y for x, y in zip(a, b)]

    @staticmethod
    def smul(k, a):
        return [k * x for x in a]

    def norm2(self, a):
        return self.dot(a, a)

    def near(self, a, b, tol, scale=None):
        """|a - b| <= tol * |scale| (tol absolute without scale), as a polynomial condition."""
        from fractions import Fraction
        d = a - b
        tol = Fraction(tol)
        if scale is None:
            return self.and_(self.le(d, tol), self.le(-d, tol))
        return self.le(d * d, tol * tol * scale * scale)

    def norm(self, a):
        return self.sqrt(self.norm2(a))

    def matvec(self, M, v):
        return [self.dot(r, v) for r in M]

    def matmul(self, A, B):
        n = len(B[0])
        return [[self.dot(r, [B[k][j] for k in range(len(B))]) for j in range(n)] for r in A]

    @staticmethod
    def det3(m):
        return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) -
                m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))

    def abs(self, x):
        return abs(x)

    def assume_nonzero(self, v):
        self.assume(self.gt(self.norm2(self.rows(self.ex(v))), 0))

    def rows(self, a):
        """Nested python lists of an array."""
        if isinstance(a, snp.SymArray):
            return a.view(np.ndarray).tolist()
        if isinstance(a, np.ndarray):
            return a.tolist()
        return a


# --------------------------------------------------------------------------
# symbolic

class Sym(Base):
    symbolic = True

    def __init__(self, tier, seed, eng, stubs=None):
        Base.__init__(self, tier, seed)
        self.eng = eng
        self.ld = loader.Loader(stubs)
        self.np = snp
        self.obligations = []       # per path: (label, verdict, cexs)
        self.names = []
        snp.linalg.svd_oracle = None
        snp.linalg.holds = lambda e, n: self.holds(self.eqs(e, [[1 if i == j else 0 for j in range(n)] for i in range(n)]))
        snp.linalg.eig_oracle = None

    def mod(self, name):
        return self.ld.module(name)

    def lib(self, name):
        from . import stubs
        return stubs.symbolic(name)

    def console(self, lines):
        """The lines the user types (numbers or strings); returns the list of prompts shown."""
        from . import stubs
        out = []
        for x in lines:
            if not isinstance(x, str):
                y = stubs.Typed('<number>')
                y._symval = x
                x = y
            out.append(x)
        stubs.TERMINAL['lines'], stubs.TERMINAL['shown'] = out, []
        return stubs.TERMINAL['shown']

    # -- inputs
    def _input(self, name, data=None, isint=False, nonneg=False):
        return C.S.new(('in', name), name, 'input', data=data, is_input=True, isint=isint, nonneg=nonneg)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, py=False, gen=None):
        a = self._input(name, nonneg=bool(pos or nonneg or (lo is not None and lo >= 0)), data={'gen': gen} if gen else None)
        x = SR(P.var(a.idx), py=py)
        if pos:
            self.assume(x > 0)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def pyreal(self, name, **kw):
        return self.real(name, py=True, **kw)

    def _range_gen(self, lo, hi):
        def gen(rng, k):
            lo_ = -3 if lo is None else lo
            hi_ = lo_ + 6 if hi is None else hi
            return Fraction(rng.randint(int(lo_), int(hi_)))
        return gen

    def integer(self, name, lo=None, hi=None, py=True):
        """A symbolic integer (stays symbolic)."""
        a = self._input(name, isint=True, data={'gen': self._range_gen(lo, hi)})
        x = SR(P.var(a.idx), py=py)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def choice(self, name, options):
        """An input index over options: the engine explores every option."""
        options = list(options)
        n = len(options)
        x = self.integer('choice_' + name, 0, n - 1)
        if n == 1:
            return options[0]
        for i in range(n - 1):
            if bool(x == i):
                return options[i]
        return options[n - 1]

    def flag(self, name):
        return self.choice(name, [False, True])

    def arr(self, name, shape, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), **kw)
        a = snp.mk(out, 'f')
        return self.track(a, name)

    def vec(self, name, n=3, **kw):
        return self.arr(name, (n,), **kw)

    def ints(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.integer(name + '_' + '_'.join(map(str, i)), lo, hi, py=False)
        return self.track(snp.mk(out, 'i'), name)

    def unit_list(self, name, n=3):
        key = ('unit', name)
        g = C.S.bykey.get(key)
        if g is None:
            rng = random.Random('%s-%s' % (self.seed, name))
            smp = unit_samples(rng, n, E.NPOOL)
            atoms = []
            for i in range(n - 1):
                atoms.append(C.S.new(('in', '%s_%d' % (name, i)), '%s_%d' % (name, i), 'input',
                                     data={'gen': (lambda r, k, i=i: smp[i][k])}, is_input=True))
            rule = {0: 1}
            for a in atoms:
                rule = P.psub(rule, {2 << (P.B * a.idx): 1})
            last = C.S.new(('in', '%s_%d' % (name, n - 1)), '%s_%d' % (name, n - 1), 'unit',
                           data={'samples': smp, 'pos': n - 1}, rule=rule)
            atoms.append(last)
            grp = [a.idx for a in atoms]
            for a in atoms:
                a.data['group'] = grp
            g = atoms
            C.S.bykey[key] = g
        return [SR(P.var(a.idx)) for a in g]

    def unit(self, name, n=3):
        return self.track(snp.array(self.unit_list(name, n)), name)

    def rotation(self, name):
        """An arbitrary 3x3 rotation matrix (from a unit quaternion)."""
        return self.track(snp.array(_quat_rot(self.unit_list(name, 4))), name)

    def angle(self, name, lo=None, hi=None):
        """A symbolic angle in radians."""
        return self.real(name, lo=lo, hi=hi)

    # -- values
    @property
    def pi(self):
        return C.PI()

    def array(self, x):
        x = snp.array(x)
        if not isinstance(x, snp.SymArray) and x.dtype.kind in 'iuO':
            x = snp.array(x.astype(float) if x.dtype.kind != 'O' else [SR.const(e) for e in x.flat]).reshape(x.shape)
        return x

    def iarray(self, x):
        return np.array(x, dtype=np.int64)

    def int_array(self, x):
        """An array of a whole number type, of numbers which may be symbolic."""
        out = np.empty(np.shape(x), dtype=object)
        for i in np.ndindex(*out.shape):
            y = x
            for k in i:
                y = y[k]
            out[i] = y if isinstance(y, SR) else SR.const(int(y))
        return snp.mk(out, 'i')

    def ex(self, a):
        return a

    def val(self, fr):
        return SR.const(fr)

    def sqrt(self, x):
        return C.sqrt(SR.const(x), nonneg=True)

    def cos(self, x):
        return C.cos(SR.const(x))

    def sin(self, x):
        return C.sin(SR.const(x))

    def round(self, x):
        """The nearest integer (ties to even)."""
        return C.rint(SR.const(x))

    # -- conditions
    def const(self, b):
        return C.TRUE if b else C.FALSE

    def _sr(self, x):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        if isinstance(x, SB):
            return SR.const(1 if bool(x) else 0)
        return SR.const(x)

    def eq(self, a, b, scale=None):
        if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
            return C.sb_not(C.sb_xor(C.as_sb(a), C.as_sb(b)))
        a, b = self._sr(a).force(), self._sr(b).force()
        if a.sp == 'nan' and b.sp == 'nan':
            return C.TRUE
        return C.compare(a, b, C.ZERO)

    def lt(self, a, b, scale=None):
        return C.compare(self._sr(a), self._sr(b), C.NEG)

    def le(self, a, b, scale=None):
        return C.compare(self._sr(a), self._sr(b), C.NEG | C.ZERO)

    def gt(self, a, b, scale=None):
        return self.lt(b, a)

    def ge(self, a, b, scale=None):
        return self.le(b, a)

    def ne(self, a, b, scale=None):
        return self.not_(self.eq(a, b))

    def isnan(self, a):
        a = self._sr(a).force()
        return self.const(a.sp == 'nan')

    def isfinite(self, a):
        return self.const(self._sr(a).force().sp is None)

    def and_(self, *cs):
        return C.sb_and([self._c(c) for c in cs])

    def or_(self, *cs):
        return C.sb_or([self._c(c) for c in cs])

    def not_(self, c):
        return C.sb_not(self._c(c))

    def implies(self, a, b):
        return C.sb_implies(self._c(a), self._c(b))

    def iff(self, a, b):
        return C.sb_not(C.sb_xor(self._c(a), self._c(b)))

    def _c(self, c):
        r = C.as_sb(c)
        if r is None:
            raise TypeError('not a condition: %r' % (c,))
        return r

    def truth(self, c):
        """A condition returned by the code under test."""
        return self._c(c)

    def is_bool(self, c):
        return isinstance(c, (bool, np.bool_, SB))

    def assume(self, c):
        self.eng.assume(self._c(c))

    def on_grid(self):
        """The inputs are such that code has no rounding to do: ties may be decided in replays."""

    def branch(self, c):
        return bool(self._c(c))

    def check(self, c, label, learn=False, raw=None):
        c = self._c(c)
        if raw is not None:
            raw = tuple(self._sr(x).force() if not isinstance(x, (SB, bool, np.bool_)) else None for x in raw)
            if any(x is None or x.sp for x in raw):
                raw = None
        test = self.eng.cex_test
        v, cex = self.eng.prove(c, raw=raw, test=test and (lambda cands: test(label, cands)))
        if v == 'unsat' and learn:
            self.eng.assume(c)
        self.obligations.append((label, v, cex))

    def angle_facts(self, th):
        """True facts about the sine and cosine of an angle assumed to lie in [0, pi]."""
        c, s = C.cossin(SR.const(th))
        pi = C.PI()
        self.assume(self.and_(self.ge(th, 0), self.le(th, pi)))
        self.assume(s >= 0)
        self.assume(self.iff(self.eq(s, 0), self.or_(self.eq(th, 0), self.eq(th, pi))))
        self.assume(self.iff(self.gt(c, 0), self.lt(2 * th, pi)))
        self.assume(self.iff(self.eq(c, 0), self.eq(2 * th, pi)))
        self.assume(self.iff(self.eq(c, 1), self.eq(th, 0)))

    def holds(self, c):
        """True iff the solver proves c on this path."""
        return self.eng.prove(self._c(c))[0] == 'unsat'

    def svd_of(self, *known):
        """SVD contract: known = (U, s, V) rows with the matrix U diag(s) V^T; also answers for
        its transpose and for positive multiples given by the factors below."""
        def oracle(a):
            e = self.rows(a)
            n = len(e)
            for U, s, V in known:
                for k in (1, Fraction(1, 2), Fraction(1, 3), Fraction(1, 4), Fraction(1, 5), Fraction(1, 6)):
                    for A, B in ((U, V), (V, U)):
                        M = [[k * sum((A[i][l] * s[l] * B[j][l] for l in range(len(s))), 0) for j in range(len(B))]
                             for i in range(len(A))]
                        if n == len(M) and self.holds(self.eqs(e, M)):
                            return (self.array(A), self.array([k * x for x in s]),
                                    self.array([[B[j][l] for j in range(len(B))] for l in range(len(s))]))
            raise C.EngineLimit('svd of a matrix the harness has no decomposition for')
        snp.linalg.svd_oracle = oracle

    def jacobian(self, fn, x):
        """The matrix of derivatives of fn(x), flattened, by the entries of x, which must be inputs."""
        at = []
        for e in self._flat(x):
            e = SR.const(e).force()
            i = P.atoms_of(e.num)
            if len(i) != 1 or e.num != P.var(i[0]) or e.cden != 1 or e.den or C.S.atoms[i[0]].kind != 'input':
                raise C.EngineLimit('derivative by something which is not an input')
            at.append(i[0])
        return [[C.diff(SR.const(y), i) for i in at] for y in self._flat(fn(x))]

    def cholmod(self, perm, slack=0):
        """The permutation, and number of unused entries, lchol_c returns."""
        from . import stubs
        stubs.LCHOL.update(perm=perm, slack=slack)

    def pca(self, frames):
        """Principal axes of the point sets of this case: frames = (e1, e2, e3, variances or None for points proved to
        lie in the plane of e1 and e2, but not on a line).  Signs, and axes of a plane, are arbitrary."""
        from . import stubs
        del stubs.PCA_FRAMES[:]

        def make(i, e1, e2, e3, lam):
            def f(d):
                if lam is None:
                    if not self.holds(self.and_(*[self.eq(self.dot(r, e3), 0) for r in d])):
                        return None
                    u = self.unit_list('pca axis %d' % i, 2)
                    a = [u[0] * x + u[1] * y for x, y in zip(e1, e2)]
                    b = [u[0] * y - u[1] * x for x, y in zip(e1, e2)]
                else:
                    S = [[sum((r[p] * r[q] for r in d), 0) for q in range(3)] for p in range(3)]
                    W = [[sum((k * e[p] * e[q] for k, e in zip(lam, (e1, e2, e3))), 0) for q in range(3)] for p in range(3)]
                    if not self.holds(self.and_(self.eqs(S, W), self.lt(lam[2], lam[1]), self.lt(lam[1], lam[0]))):
                        return None
                    a, b = e1, e2
                g = self.choice('pca signs %d' % i, [(1, 1, 1), (1, 1, -1), (-1, 1, 1), (1, -1, -1)])
                return [[k * x for x in e] for k, e in zip(g, (a, b, e3))]
            return f
        stubs.PCA_FRAMES.extend(make(i, *f) for i, f in enumerate(frames))

    # oracles for decompositions
    def svd(self, fn):
        snp.linalg.svd_oracle = fn

    def eig(self, fn):
        snp.linalg.eig_oracle = fn


def _quat_rot(q):
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


# --------------------------------------------------------------------------
# concrete

class Tri(object):
    """True, False or None (too close to say).  tie: decided by an exact tie, which rounding in the code may decide otherwise."""
    __slots__ = ('v', 'tie')

    def __init__(self, v, tie=False):
        self.v, self.tie = v, tie

    def __bool__(self):
        if self.v is None or self.tie:
            raise Skip()
        return self.v

    def __repr__(self):
        return 'Tri(%s)' % self.v


def _nice(f):
    f = Fraction(f)
    return f.denominator & (f.denominator - 1) == 0 and f.denominator <= 4096 and abs(f.numerator) <= 1 << 20


class Con(Base):
    symbolic = False
    LO, HI = 1e-9, 1e-6

    def __init__(self, tier, seed, values, strict=False):
        Base.__init__(self, tier, seed)
        self.values = values
        self.strict = strict
        self.failures = []
        self.checked = 0
        self.unclear = 0
        self.np = np
        self.grid = strict

    def mod(self, name):
        return loader.real_module(name)

    def lib(self, name):
        import importlib
        from . import stubs
        stubs.install_real()
        return importlib.import_module(name)

    def console(self, lines):
        from . import stubs
        import plumbum.cli.terminal as terminal
        terminal.readline = stubs._readline
        stubs.TERMINAL['lines'] = [x if isinstance(x, str) else repr(float(x)) for x in lines]
        stubs.TERMINAL['shown'] = []
        return stubs.TERMINAL['shown']

    def _get(self, name):
        if name not in self.values:
            # an input the symbolic path never created
            return Fraction(1)
        return self.values[name]

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, py=False, gen=None):
        f = float(self._get(name))
        if (pos and not f > 0) or (nonneg and not f >= 0) or (lo is not None and not f >= float(lo)) or \
                (hi is not None and not f <= float(hi)):
            raise Skip()
        return f if py else np.float64(f)

    def pyreal(self, name, **kw):
        return self.real(name, py=True, **kw)

    def integer(self, name, lo=None, hi=None, py=True):
        v = int(self._get(name))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v if py else np.int64(v)

    def choice(self, name, options):
        options = list(options)
        v = int(self._get('choice_' + name))
        if not 0 <= v < len(options):
            raise Skip()
        return options[v]

    def flag(self, name):
        return self.choice(name, [False, True])

    def arr(self, name, shape, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), **kw)
        return self.track(out, name)

    def vec(self, name, n=3, **kw):
        return self.arr(name, (n,), **kw)

    def ints(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape, dtype=np.int64)
        for i in np.ndindex(*shape):
            out[i] = self.integer(name + '_' + '_'.join(map(str, i)), lo, hi)
        return self.track(out, name)

    def unit_list(self, name, n=3):
        v = np.array([float(self._get('%s_%d' % (name, i))) for i in range(n)])
        l = np.sqrt((v ** 2).sum())
        if not 0.5 < l < 2:
            raise Skip()
        return v if abs(l - 1) < 1e-15 else v / l

    def unit(self, name, n=3):
        return self.track(self.unit_list(name, n), name)

    def rotation(self, name):
        return self.track(np.array(_quat_rot(self.unit_list(name, 4))), name)

    def angle(self, name, lo=None, hi=None):
        return self.real(name, lo=lo, hi=hi)

    @property
    def pi(self):
        return math.pi

    def array(self, x):
        x = np.array(x)
        if x.dtype == object:
            x = x.astype(float)
        if x.dtype.kind in 'iu':
            x = x.astype(float)
        return x

    def iarray(self, x):
        return np.array(x, dtype=np.int64)

    int_array = iarray

    def ex(self, a):
        """The exact rational value of a float input."""
        if isinstance(a, np.ndarray):
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = Fraction(float(a[i]))
            return out
        if isinstance(a, (list, tuple)):
            return [self.ex(x) for x in a]
        return Fraction(float(a))

    def val(self, fr):
        return fr

    def sqrt(self, x):
        if isinstance(x, Fraction) and x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        return math.sqrt(max(float(x), 0.0))

    def cos(self, x):
        return math.cos(float(x))

    def round(self, x):
        return Fraction(round(x))

    def sin(self, x):
        return math.sin(float(x))

    def const(self, b):
        return Tri(bool(b))

    def _num(self, a, b, scale):
        if isinstance(a, np.ndarray):
            a = a[()] if a.ndim == 0 else a
        if isinstance(b, np.ndarray):
            b = b[()] if b.ndim == 0 else b
        if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)) and \
                not isinstance(a, bool) and not isinstance(b, bool):
            return a, b, None
        fa, fb = float(a), float(b)
        s = 1.0
        for z in (fa, fb) + ((float(scale),) if scale is not None else ()):
            if math.isfinite(z):
                s = max(s, abs(z))
        return fa, fb, s

    def eq(self, a, b, scale=None):
        if isinstance(a, (bool, np.bool_, Tri)) and isinstance(b, (bool, np.bool_, Tri)):
            return self.iff(a, b)
        a, b, s = self._num(a, b, scale)
        if s is None:
            if a == b:
                return Tri(True, self._tie(a, b))
            if self.strict:
                return Tri(False)
            d = abs(float(a - b))
            m = max(1.0, abs(float(a)), abs(float(b)))
            return Tri(False if d > self.HI * m else None)
        if math.isnan(a) or math.isnan(b):
            return Tri(math.isnan(a) and math.isnan(b))
        if math.isinf(a) or math.isinf(b):
            return Tri(a == b)
        d = abs(a - b)
        if d <= self.LO * s:
            return Tri(True, not self.grid)
        if d > self.HI * s:
            return Tri(False)
        return Tri(None)

    def _ord(self, a, b, scale, ifeq):
        a, b, s = self._num(a, b, scale)
        if s is None:
            if a == b:
                return Tri(ifeq, self._tie(a, b))
            if not self.strict and abs(float(a - b)) <= self.LO * max(1.0, abs(float(a)), abs(float(b))):
                return Tri(None)
            return Tri(a < b)
        if math.isnan(a) or math.isnan(b):
            return Tri(False)
        if math.isinf(a) or math.isinf(b):
            return Tri(a < b if a != b else ifeq)
        if b - a > self.LO * s:
            return Tri(True)
        if a - b > self.HI * s:
            return Tri(False)
        if ifeq and a - b <= self.LO * s:
            return Tri(True, not self.grid)
        return Tri(None)

    def _tie(self, a, b):
        return not self.grid and not (isinstance(a, int) and isinstance(b, int))

    def on_grid(self):
        self.grid = True

    def lt(self, a, b, scale=None):
        return self._ord(a, b, scale, False)

    def le(self, a, b, scale=None):
        return self._ord(a, b, scale, True)

    def gt(self, a, b, scale=None):
        return self.lt(b, a, scale)

    def ge(self, a, b, scale=None):
        return self.le(b, a, scale)

    def near(self, a, b, tol, scale=None):
        """Not squared, and without the slack of `le`, which would swallow a small tolerance."""
        a, b, _ = self._num(a, b, scale)
        tol = float(tol)
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return Tri(False)
        if math.isinf(fa) or math.isinf(fb):
            return Tri(fa == fb)
        d = abs(float(a - b))
        lim = tol * (1.0 if scale is None else abs(float(scale)))
        rounding = 1e-15 * max(abs(fa), abs(fb))
        if d <= lim:
            return Tri(True)
        if d > lim * 1.000001 + 8 * rounding:
            return Tri(False)
        return Tri(None)

    def ne(self, a, b, scale=None):
        return self.not_(self.eq(a, b, scale))

    def isnan(self, a):
        return Tri(bool(np.isnan(a)))

    def isfinite(self, a):
        return Tri(bool(np.isfinite(float(a))))

    def _v(self, c):
        if isinstance(c, Tri):
            return c.v
        if isinstance(c, np.ndarray):
            c = c[()]
        return bool(c)

    @staticmethod
    def _t(c):
        return isinstance(c, Tri) and c.tie

    def and_(self, *cs):
        vs = [self._v(c) for c in cs]
        if any(v is False for v in vs):
            return Tri(False, all(self._t(c) for c, v in zip(cs, vs) if v is False))
        return Tri(None if any(v is None for v in vs) else True, any(self._t(c) for c in cs))

    def or_(self, *cs):
        vs = [self._v(c) for c in cs]
        if any(v is True for v in vs):
            return Tri(True, all(self._t(c) for c, v in zip(cs, vs) if v is True))
        return Tri(None if any(v is None for v in vs) else False, any(self._t(c) for c in cs))

    def not_(self, c):
        v = self._v(c)
        return Tri(None if v is None else not v, self._t(c))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        tie = self._t(a) or self._t(b)
        a, b = self._v(a), self._v(b)
        return Tri(None if a is None or b is None else a == b, tie)

    def truth(self, c):
        return Tri(bool(c))

    def is_bool(self, c):
        return isinstance(c, (bool, np.bool_))

    def assume(self, c):
        if self._v(c) is not True:
            raise Skip()

    def branch(self, c):
        v = self._v(c)
        if v is None or self._t(c):
            raise Skip()
        return v

    def check(self, c, label, learn=False, raw=None):
        v = self._v(c)
        self.checked += 1
        if v is None or (v is False and self._t(c)):
            self.unclear += 1
        elif v is False:
            self.failures.append(label)

    def svd(self, fn):
        pass

    eig = svd

    def svd_of(self, *known):
        pass

    def pca(self, frames):
        pass

    def cholmod(self, perm, slack=0):
        from . import stubs
        stubs.guard_cholmod()

    def jacobian(self, fn, x, h=1e-5):
        cols = []
        for i in np.ndindex(*x.shape):
            lo, hi = x.copy(), x.copy()
            lo[i] -= h
            hi[i] += h
            cols.append([(float(b) - float(a)) / (2 * h) for a, b in zip(self._flat(fn(lo)), self._flat(fn(hi)))])
        return [list(r) for r in zip(*cols)]

    def angle_facts(self, th):
        self.assume(self.and_(self.ge(th, 0), self.le(th, math.pi)))


class ReplayTimeout(BaseException):
    pass


MARK = None     # file naming the last replay


def replay(case_, tier, seed, values, strict, timeout=30):
    """Run the harness on the real code.  -> dict(status, failures, exception)"""
    if case_.ext is not None:
        return case_.ext.replay(tier, seed, values, strict)
    t = Con(tier, seed, values, strict)
    if MARK:
        # a crash of the interpreter is seen by the parent process, which runs this again
        with open(MARK, 'w') as f:
            json.dump({'inputs': ser(values), 'strict': strict}, f)

    def onalarm(*a):
        raise ReplayTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    res = {'status': 'ok', 'failures': [], 'exception': None}
    eng, C.ENG = C.ENG, None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                case_.fn(t)
    except Skip:
        res['status'] = 'skip'
    except ReplayTimeout:
        res['status'] = 'timeout'
    except Exception as e:      # noqa: BLE001
        res['status'] = 'exception'
        res['exception'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['where'] = _where(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        C.ENG = eng
    res['failures'] = t.failures
    res['checked'] = t.checked
    res['unclear'] = t.unclear
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(loader.REPO)]
    f = fr[-1] if fr else tb[-1]
    return '%s:%s' % (os.path.relpath(f.filename, loader.REPO) if fr else f.filename, f.lineno)


def _failed(rep):
    return rep['status'] == 'exception' or bool(rep['failures'])


# --------------------------------------------------------------------------
# running one case

def named(ins):
    out = {}
    for i, v in ins.items():
        out[C.S.atoms[i].name] = v
    return out


def ser(values):
    return {k: (str(v) if not isinstance(v, float) else repr(v)) for k, v in values.items()}


def deser(values):
    return {k: Fraction(v) for k, v in values.items()}


def run_case(cs, tier, seed, deadline_s, max_replays=40):
    if cs.ext is not None:
        return cs.ext.run(cs, tier, seed, deadline_s)
    t0 = time.time()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    loader.monitor()
    C.reset_space()
    snp.linalg.svd_oracle = snp.linalg.eig_oracle = None
    thorough = tier == 'thorough'
    dl = t0 + deadline_s
    eng = E.Engine(seed=seed, deadline=dl, qt=cs.qt or (3.0 if thorough else 1.5),
                   pt=cs.pt or (40.0 if thorough else 10.0), max_paths=cs.max_paths or (6000 if thorough else 1500))
    eng.confirm_budget = 60.0 if thorough else 6.0
    res = {'case': cs.name, 'prop': cs.prop, 'bounds': cs.bounds, 'paths': 0, 'complete': True,
           'obligations': 0, 'proved': 0, 'unknown': [], 'limits': [], 'unreproduced': [], 'violations': [],
           'witness': {'agree': 0, 'skip': 0, 'none': 0, 'mismatch': 0, 'unclear': 0}, 'aborted': 0, 'branches': 0,
           'samples': [], 'labels': {}}
    cur = [None]
    nviol = {}

    def fn():
        cur[0] = Sym(tier, seed, eng)
        cs.fn(cur[0])

    def violation(label, values, rep, how):
        k = label
        if nviol.get(k, 0) >= 1 or len(res['violations']) >= 6:
            return
        nviol[k] = nviol.get(k, 0) + 1
        res['violations'].append({'label': label, 'inputs': ser(values), 'replay': rep, 'found_by': how})

    def try_cex(label, cands, how):
        """Replay candidate counterexamples; True when one reproduces."""
        for ins in cands:
            values = named(ins)
            rep = replay(cs, tier, seed, values, 'witness' not in how)
            if _failed(rep):
                lab = rep['failures'][0] if rep['failures'] else 'unexpected %s at %s' % (rep['exception'], rep['where'])
                violation(lab, values, rep, how)
                return True
        return False

    def cex_test(label, cands):
        return bool(nviol.get(label)) or try_cex(label, cands, 'solver counterexample')

    eng.cex_test = cex_test

    def witnesses(m=2):
        eng.pool.sync()
        out = []
        al = list(np.flatnonzero(eng.pool.alive & ~eng.pool.made)) or list(np.flatnonzero(eng.pool.alive))[:m]
        nice = [k for k in al if k % 4 in (0, 1)][:m]
        gen = [k for k in al if k % 4 in (2, 3)][:m]
        for k in nice + gen:
            out.append(eng.sample_inputs(k))
        if not out:
            w = eng.witness()
            if w is not None:
                out.append(w)
        return out

    def on_path(kind, payload):
        t = cur[0]
        if kind == 'abort':
            res['aborted'] += 1
            return
        obl = t.obligations if t is not None else []
        for label, v, cex in obl:
            res['obligations'] += 1
            lab = res['labels'].setdefault(label, [0, 0])
            lab[0] += 1
            if v == 'unsat':
                res['proved'] += 1
                lab[1] += 1
            elif v == 'unknown':
                if len(res['unknown']) < 20:
                    res['unknown'].append(label)
                else:
                    res['unknown'].append('...')
            else:
                if v != 'shown' and not nviol.get(label):
                    res['unreproduced'].append({'label': label, 'inputs': [ser(named(c)) for c in cex[:1]]})
        if kind == 'limit':
            res['limits'].append(str(payload)[:200] or type(payload).__name__)
            # concrete witness of the prefix that was explored
            for w in witnesses(6):
                try_cex('path outside the encoding', [w], 'solver-guided witness of an unencodable path')
            return
        if kind == 'deadline':
            res['limits'].append('deadline')
            return
        if kind == 'exception':
            ws = witnesses(6)
            desc = '%s: %s at %s' % (type(payload).__name__, str(payload)[:120], _where(payload))
            if not try_cex(desc, ws, 'symbolic path ending in an exception'):
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exception(payload)
                res['unreproduced'].append({'label': 'exception ' + desc, 'inputs': [ser(named(c)) for c in ws[:1]]})
            return
        res['branches'] += len(eng.trail)
        # vacuity guard and encoding validation: replay a witness of the path
        if sum(res['witness'].values()) < max_replays:
            ws = witnesses()
            if not ws:
                res['witness']['none'] += 1
                return
            got = None
            for w in ws:
                values = named(w)
                rep = replay(cs, tier, seed, values, False)
                if _failed(rep):
                    got = 'mismatch'
                    lab = rep['failures'][0] if rep['failures'] else \
                        'unexpected %s at %s' % (rep['exception'], rep['where'])
                    violation(lab, values, rep, 'witness of a path, replayed on the real code')
                    break
                if rep['status'] == 'ok':
                    got = 'agree' if got != 'mismatch' else got
                    if len(res['samples']) < 3:
                        res['samples'].append({'inputs': ser(values), 'checks': rep['checked']})
                elif got is None:
                    got = 'skip'
            res['witness'][got] += 1

    old_limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        n, complete = E.explore(eng, fn, on_path)
    finally:
        sys.setrecursionlimit(old_limit)
    res['paths'] = n
    res['complete'] = complete
    res['stats'] = eng.stats.as_dict()
    res['atoms'] = len(C.S.atoms)
    res['functions'] = sorted('%s:%s' % k for k in loader.EXECUTED)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


# --------------------------------------------------------------------------
# shared input builders

EPS8 = Fraction(1, 10 ** 8)


def plane(t, name='pl', unit=False):
    """A Plane from an arbitrary point and an arbitrary admissible normal.
    -> (Plane, point rows, unit normal as exact list)"""
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    p0 = t.vec(name + '_p')
    if unit:
        n = t.unit(name + '_n')
        e = t.rows(n) if not t.symbolic else t.rows(n)
        return Plane(p0, n), t.rows(t.ex(p0)), e
    n = t.vec(name + '_n')
    e = t.rows(t.ex(n))
    t.assume(t.or_(*[t.gt(t.abs(x), EPS8) for x in e]))
    l = t.norm(e)
    return Plane(p0, n), t.rows(t.ex(p0)), [x / l for x in e]


def raw_plane(t, name='pl'):
    """-> (Plane, point rows, normal rows before normalisation)"""
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    p0 = t.vec(name + '_p')
    n = t.vec(name + '_n')
    e = t.rows(t.ex(n))
    t.assume(t.or_(*[t.gt(t.abs(x), EPS8) for x in e]))
    return Plane(p0, n), t.rows(t.ex(p0)), e


GRID = [[0, 0, 2], [-1, 0, 0], [0, 4, 0]]


def grid_plane(t, name='pl'):
    """An axis-parallel plane through an integer point: nothing is rounded with integer points.
    -> (Plane, point rows, normal rows)"""
    Plane = t.mod('blmath.geometry.primitives.plane').Plane
    ax = t.choice(name + '_axis', GRID)
    p0 = t.ints(name + '_p', 3, -4, 4)
    t.on_grid()
    return Plane(p0, t.array(ax)), t.rows(t.ex(p0)), [t.val(Fraction(x)) for x in ax]


def grid_arr(t, name, shape):
    return t.track(t.ints(name, shape, -4, 4).astype(float), name + ' as floats')


def fixed_rows(n, dim=3, seed=0):
    """n distinct rows of quarters between -10 and 10, none of them zero."""
    return [[Fraction((i * (5 + 2 * j) + j * 13 + (i * i) % (7 + j) + seed * 3 + i * i * i % 11) % 80 - 40, 4) + Fraction(1, 8)
             for j in range(dim)] for i in range(n)]


def long_stack(t, name, n, at, dim=3, seed=0):
    """An array of n fixed rows, except for row number at, which is anything."""
    rows = fixed_rows(n, dim, seed)
    v = [t.real('%s%d' % (name, j), lo=-100, hi=100) for j in range(dim)]
    rows[at] = v
    a = t.track(t.array(rows), name)
    return a, rows


LONG = [(70, 0), (70, 69), (300, 257)]



# the unit in which a problem is set: factors by which all its lengths are multiplied, without rounding
SIZES = [Fraction(1, 2 ** 30), Fraction(2 ** 30)]


def resized(t, rows, s):
    """The (nested) list with every number multiplied by s."""
    if isinstance(rows, (list, tuple, np.ndarray)):
        return [resized(t, y, s) for y in rows]
    return rows * t.val(s)


def apart(t, *vs):
    """The vectors are not short, nor are any two of them nearly colinear."""
    for i, a in enumerate(vs):
        t.assume(t.gt(t.norm2(a), 0))
        t.assume(t.gt(t.norm2(a), Fraction(1, 10)))
        for b in vs[:i]:
            t.assume(t.gt(t.norm2(t.cross(a, b)), 0))
            t.assume(t.gt(t.norm2(t.cross(a, b)), Fraction(1, 10)))


def changing(prop, *calls):
    """Registers a case: the result is that for the contents of the arguments at the time of the call.
    calls: (name, fn(t, *arrays), contents at the first call, assumption(t, *rows) or None)"""
    @case(prop, 'arguments changed in place between two calls',
          bounds='%s; fixed arguments at first, then any' % ', '.join(c[0] for c in calls))
    def f(t):
        name, fn, first, ok = calls[t.choice('call', range(len(calls)))]
        args = [t.array(x) for x in first]
        new = [t.arr('x%d' % i, np.shape(x), lo=-10, hi=10) for i, x in enumerate(first)]
        rows = [t.rows(t.ex(x)) for x in new]
        if ok is not None:
            ok(t, *rows)
        fn(t, *args)
        for a, b in zip(args, new):
            a[...] = b
        got = fn(t, *args)
        ref = fn(t, *[x.copy() for x in new])

        def same(x, y):
            if isinstance(y, tuple):
                for p, q in zip(x, y):
                    same(p, q)
            elif y is None:
                t.check(x is None, name + ': the result for the contents of the arguments now')
            else:
                t.check_eq(x, t.rows(y) if isinstance(y, np.ndarray) and y.ndim else y, name + ': the result for the contents of the arguments now')
        same(got, ref)
    return f
