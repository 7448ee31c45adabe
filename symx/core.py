"""Symbolic reals (SR), symbolic booleans (SB) and the path-exploring engine.

Reals stand for the program's floats.  An SR is a fraction
    num / (cden * prod(factor_i ** e_i))
with num a reduced integer polynomial over atoms; atoms are harness inputs or
definitional (sqrt, abs, cos/sin, acos, integer part, pi).  Division by zero
gives nan / +-inf (numpy) or ZeroDivisionError (python floats), decided lazily,
only when the quotient is used.
"""
import math
import numbers
import opcode
import sys
from fractions import Fraction
from math import gcd, isqrt

import numpy as np

from . import poly as P

NEG, ZERO, POS = 1, 2, 4


class EngineLimit(BaseException):
    """The engine cannot encode this operation; the path is inconclusive."""


class PathAbort(BaseException):
    """The current path is infeasible (an assumption contradicts it)."""


class Deadline(BaseException):
    pass


# --------------------------------------------------------------------------
# atoms

class Atom(object):
    __slots__ = ('idx', 'name', 'kind', 'data', 'nonneg', 'key', 'z3v', 'isint', 'is_input')

    def __init__(self, idx, name, kind, data=None, nonneg=False, isint=False, is_input=False):
        self.idx, self.name, self.kind, self.data = idx, name, kind, data
        self.nonneg, self.isint, self.is_input = nonneg, isint, is_input
        self.z3v = None


class Space(object):
    def __init__(self):
        P.reset()
        self.atoms = []
        self.bykey = {}
        self.factors = []       # interned den factors: dict polys
        self.factor_ids = {}
        self.sqrt_atoms = []    # (atom, e-poly)
        self.cands = {}         # key -> (poly, value at the probe point): likely factors
        self.splits = {}
        self.comps = {}
        self.nonneg = {}        # polynomials with a sign known from an identity

    def new(self, key, name, kind, data=None, rule=None, **kw):
        a = self.bykey.get(key)
        if a is not None:
            return a
        idx = len(self.atoms)
        if idx >= 4000:
            raise EngineLimit('too many atoms')
        a = Atom(idx, name, kind, data, **kw)
        a.key = key
        self.atoms.append(a)
        self.bykey[key] = a
        if rule is not None:
            P.R.add(idx, rule)
        if kind == 'sqrt':
            self.sqrt_atoms.append((a, data))
        return a

    def fid(self, poly):
        k = P.key(poly)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.factor_ids[k] = i
        return i


S = Space()
ENG = None      # current engine (set while a path is executed)


def reset_space():
    global S
    S = Space()
    _zcache.clear()
    return S


_zcache = {}

# --------------------------------------------------------------------------
# float -> rational


def simplest_between(lo, hi):
    fl = lo.numerator // lo.denominator
    if Fraction(fl) == lo:
        return lo
    if fl + 1 <= hi:
        # an integer lies inside
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def rationalise(f):
    """The simplest rational that reads back as the double f."""
    if f == int(f):
        return Fraction(int(f))
    if f < 0:
        return -rationalise(-f)
    x = Fraction(f)
    ulp = Fraction(math.ulp(f)) / 2
    return simplest_between(x - ulp, x + ulp)


# --------------------------------------------------------------------------
# SR

NANS = ('nan',)


_BINARY_OP = opcode.opmap['BINARY_OP']
_MOD = {6, 19}      # BINARY_OP arguments of % and %=


def _in_text_formatting(f):
    """Called from  '...%f...' % x  (numbers never get there: SR defines __mod__ itself)."""
    c = f.f_code.co_code
    i = f.f_lasti
    return 0 <= i < len(c) - 1 and c[i] == _BINARY_OP and c[i + 1] in _MOD


class SR(object):
    __slots__ = ('num', 'cden', 'den', 'sp', 'pend', 'py', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, num, cden=1, den=(), sp=None, pend=None, py=False):
        self.num, self.cden, self.den = num, cden, den
        self.sp, self.pend, self.py = sp, pend, py

    # -- construction
    @staticmethod
    def const(v, py=False):
        if isinstance(v, SR):
            return v
        if isinstance(v, (bool, np.bool_)):
            v = int(v)
        if isinstance(v, (int, np.integer)):
            v = int(v)
            return SR(P.const(v), py=py)
        if isinstance(v, (float, np.floating)):
            f = float(v)
            if f != f:
                return SR({}, sp='nan', py=py)
            if f in (math.inf, -math.inf):
                return SR({}, sp='inf' if f > 0 else '-inf', py=py)
            if abs(f) == math.pi:
                return PI() if f > 0 else -PI()
            v = rationalise(f)
        if isinstance(v, Fraction):
            return SR(P.const(v.numerator), v.denominator, py=py)
        if isinstance(v, SB):
            return SR(P.const(1 if bool(v) else 0), py=py)
        raise TypeError('cannot make a symbolic real from %r' % (type(v),))

    def force(self):
        """Decide a pending division."""
        if self.pend is None:
            return self
        n, d = self.pend
        n.force()
        d.force()
        if d.sp is None and n.sp is None:
            if bool(sb_rel(d, NEG | POS)):
                r = _div_nz(n, d)
            else:
                if self.py:
                    raise ZeroDivisionError('float division by zero')
                if bool(sb_rel(n, ZERO)):
                    r = SR({}, sp='nan')
                elif bool(sb_rel(n, POS)):
                    r = SR({}, sp='inf')
                else:
                    r = SR({}, sp='-inf')
        else:
            if n.sp == 'nan' or d.sp == 'nan':
                r = SR({}, sp='nan')
            elif n.sp and d.sp:
                r = SR({}, sp='nan')
            elif d.sp:
                r = SR({})
            else:
                pos = (n.sp == 'inf') == (not bool(sb_rel(d, NEG)))
                r = SR({}, sp='inf' if pos else '-inf')
        self.pend = None
        self.num, self.cden, self.den, self.sp = r.num, r.cden, r.den, r.sp
        return self

    def is_const(self):
        return self.pend is None and self.sp is None and not self.den and P.is_const(self.num)

    def as_fraction(self):
        return Fraction(self.num.get(0, 0), self.cden)

    # -- conversions python insists on
    def __float__(self):
        self.force()
        if self.sp:
            return float(self.sp)
        if self.is_const():
            return float(self.as_fraction())
        if len(self.num) == 1 and not self.den and S.bykey.get('pi') is not None:
            i = S.bykey['pi'].idx
            if self.num.keys() == {1 << (P.B * i)}:
                return math.pi * float(Fraction(self.num[1 << (P.B * i)], self.cden))
        if _in_text_formatting(sys._getframe(1)):
            return float('nan')         # the text of messages is not modelled
        raise EngineLimit('float() of a symbolic real')

    def __int__(self):
        if _in_text_formatting(sys._getframe(1)):
            return 0
        self.force()
        if self.sp:
            raise (ValueError if self.sp == 'nan' else OverflowError)('cannot convert float %s to integer' % self.sp)
        if self.is_const():
            return math.trunc(self.as_fraction())
        raise EngineLimit('int() of a symbolic real')

    def __index__(self):
        self.force()
        if self.is_const() and self.as_fraction().denominator == 1:
            return int(self.as_fraction())
        raise EngineLimit('index from a symbolic real')

    def __trunc__(self):
        return int(trunc(self))

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __bool__(self):
        self.force()
        if self.sp:
            return True
        return bool(sb_rel(self, NEG | POS))

    def __hash__(self):
        self.force()
        if self.is_const():
            return hash(self.as_fraction())
        return hash((P.key(self.num), self.cden, self.den, self.sp))

    def __repr__(self):
        if self.pend is not None:
            return 'SR<pending>'
        if self.sp:
            return 'SR<%s>' % self.sp
        if self.is_const():
            return 'SR<%s>' % self.as_fraction()
        return 'SR<%s terms>' % len(self.num)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        if self.py:
            raise AttributeError('dtype')
        return np.dtype('float64')

    @property
    def T(self):
        if self.py:
            raise AttributeError('T')
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SR({})

    def item(self):
        if self.py:
            raise AttributeError('item')
        return SR(self.num, self.cden, self.den, self.sp, self.pend, True)

    def tolist(self):
        return self.item()

    def copy(self):
        if self.py:
            raise AttributeError('copy')
        return self

    def conjugate(self):
        return self

    def astype(self, dt, **kw):
        if self.py:
            raise AttributeError('astype')
        k = np.dtype(dt).kind
        if k == 'f':
            return self
        if k in 'iu':
            return trunc(self)
        raise EngineLimit('astype %s' % dt)

    def _shim(self):
        from . import snp
        return snp

    def reshape(self, *shape):
        return self._shim().asarray(self).reshape(*shape)

    def ravel(self):
        return self._shim().asarray(self).reshape(1)
    flatten = ravel

    def sum(self, axis=None):
        return self
    min = max = mean = sum

    def dot(self, other):
        return self * other

    def squeeze(self):
        return self

    def is_integer(self):
        self.force()
        return floor(self) == self

    # -- arithmetic
    def __neg__(self):
        self.force()
        if self.sp:
            return SR({}, sp={'nan': 'nan', 'inf': '-inf', '-inf': 'inf'}[self.sp], py=self.py)
        return SR(P.pneg(self.num), self.cden, self.den, py=self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _add(self, o, 1)

    def __radd__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _add(o, self, 1)

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _add(self, o, -1)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _add(o, self, -1)

    def __mul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return floor(_div(self, o)).asfloat()

    def __rfloordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return floor(_div(o, self)).asfloat()

    def __mod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return self - o * floor(_div(self, o)).asfloat()

    def __rmod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o - self * floor(_div(o, self)).asfloat()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return power(o, self)

    def asfloat(self):
        return self

    def __round__(self, n=None):
        if n is None:
            k = rint(self)
            return int(k) if k.is_const() else k
        sc = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
        r = rint(self * sc) / sc
        r.py = self.py
        return r

    # -- comparison
    def _cmp(self, o, mask):
        if o is None:
            return NotImplemented
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return compare(self, o, mask)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZERO)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZERO)

    def __eq__(self, o):
        return self._cmp(o, ZERO)

    def __ne__(self, o):
        return self._cmp(o, NEG | POS)

    # numpy object-ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def arccos(self):
        return acos(self)

    def arcsin(self):
        return asin(self)

    def radians(self):
        return self * PI() / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / PI()

    rad2deg = degrees

    def floor(self):
        return floor(self)

    def ceil(self):
        return ceil(self)

    def rint(self):
        return rint(self)

    def trunc(self):
        return trunc(self)

    def square(self):
        return self * self


numbers.Number.register(SR)


def _coerce(o):
    if type(o) is SR:
        return o
    if isinstance(o, SR):
        return o
    if isinstance(o, (bool, int, float, Fraction, np.bool_, np.integer, np.floating)):
        return SR.const(o, py=isinstance(o, (bool, int, float, Fraction)))
    if isinstance(o, SB):
        return SR.const(o, py=True)
    if isinstance(o, np.ndarray) and o.ndim == 0 and type(o) is np.ndarray:
        return _coerce(o[()])
    return None


def PI():
    a = S.new('pi', 'pi', 'pi', nonneg=True)
    return SR(P.var(a.idx))


def _norm(num, cden, den, py):
    """Canonicalise: divide out common integer content."""
    if not num:
        return SR({}, 1, (), py=py)
    if cden != 1:
        g = gcd(P.content(num), cden)
        if g != 1:
            cden //= g
            num = {m: c // g for m, c in num.items()}
    return SR(num, cden, den, py=py)


def _cancel(num, cden, den, py):
    if not num:
        return SR({}, 1, (), py=py)
    if den:
        nd = []
        for f, e in den:
            fp = S.factors[f]
            while e:
                q = P.pdivexact(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((f, e))
        den = tuple(nd)
    return _norm(num, cden, den, py)


def _add(a, b, sgn):
    a.force()
    b.force()
    py = a.py and b.py
    if a.sp or b.sp:
        if sgn < 0:
            b = -b
        if a.sp == 'nan' or b.sp == 'nan':
            return SR({}, sp='nan', py=py)
        if a.sp and b.sp:
            return SR({}, sp=a.sp if a.sp == b.sp else 'nan', py=py)
        return SR({}, sp=a.sp or b.sp, py=py)
    if not b.num:
        return SR(a.num, a.cden, a.den, py=py)
    if not a.num:
        return SR(b.num if sgn > 0 else P.pneg(b.num), b.cden, b.den, py=py)
    g = gcd(a.cden, b.cden)
    ka, kb = b.cden // g, a.cden // g
    cden = a.cden * ka
    if a.den == b.den:
        num = P.padd(P.pscale(a.num, ka), P.pscale(b.num, sgn * kb))
        if not a.den:
            return _norm(num, cden, (), py)
        return _cancel(num, cden, a.den, py)
    da, db = dict(a.den), dict(b.den)
    na, nb = P.pscale(a.num, ka), P.pscale(b.num, sgn * kb)
    den = dict(da)
    for f, e in db.items():
        den[f] = max(e, den.get(f, 0))
    for f, e in den.items():
        for _ in range(e - da.get(f, 0)):
            na = P.pmul(na, S.factors[f])
        for _ in range(e - db.get(f, 0)):
            nb = P.pmul(nb, S.factors[f])
    return _cancel(P.padd(na, nb), cden, tuple(sorted(den.items())), py)


def _den_norm(den, num, cden):
    """Replace squared sqrt-factors by their radicand. den: dict fid->exp."""
    changed = True
    while changed:
        changed = False
        for f, e in list(den.items()):
            if e < 2:
                continue
            fp = S.factors[f]
            if len(fp) == 1:
                (m, c), = fp.items()
                ex = P.exps(m)
                if len(ex) == 1 and ex[0][0] in P.R.rule and S.atoms[ex[0][0]].kind in ('sqrt', 'abs'):
                    rule = P.R.rule[ex[0][0]]
                    k = e // 2
                    del den[f]
                    if e & 1:
                        den[f] = 1
                    c0, facs = factorise(rule)
                    for _ in range(k):
                        cden *= c0
                        for ff, ee in facs:
                            den[ff] = den.get(ff, 0) + ee
                    changed = True
                    break
    if cden < 0:
        cden = -cden
        num = P.pneg(num)
    return den, num, cden


def _mul(a, b):
    a.force()
    b.force()
    py = a.py and b.py
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return SR({}, sp='nan', py=py)

        def sg(x):
            if x.sp:
                return 1 if x.sp == 'inf' else -1
            if bool(sb_rel(x, ZERO)):
                return 0
            return 1 if bool(sb_rel(x, POS)) else -1
        s = sg(a) * sg(b)
        return SR({}, sp='nan' if s == 0 else ('inf' if s > 0 else '-inf'), py=py)
    if not a.num or not b.num:
        return SR({}, py=py)
    if len(a.num) > 1 or len(b.num) > 1:
        cand(a.num)
        cand(b.num)
    if not a.den and not b.den:
        return _norm(P.pmul(a.num, b.num), a.cden * b.cden, (), py)
    na, nb = a.num, b.num
    da, db = dict(a.den), dict(b.den)

    def cross(n, d):
        for f in list(d):
            while d.get(f):
                q = P.pdivexact(n, S.factors[f])
                if q is None:
                    break
                n = q
                d[f] -= 1
                if not d[f]:
                    del d[f]
        return n
    if not P.is_const(na):
        na = cross(na, db)
    if not P.is_const(nb):
        nb = cross(nb, da)
    den = da
    for f, e in db.items():
        den[f] = den.get(f, 0) + e
    num = P.pmul(na, nb)
    den, num, cden = _den_norm(den, num, a.cden * b.cden)
    if not den:
        return _norm(num, cden, (), py)
    return _cancel(num, cden, tuple(sorted(den.items())), py)


def factorise(p):
    """p = c * prod(factor^e): cheap factorisation (monomial content, known
    factors, perfect squares)."""
    k, p = P.primitive(p)
    facs = {}
    mg = P.mono_gcd(p) if p else []
    if mg:
        m = 0
        for i, e in mg:
            m += e << (P.B * i)
            f = S.fid(P.var(i))
            facs[f] = facs.get(f, 0) + e
        p = {mm - m: c for mm, c in p.items()}
    if P.is_const(p):
        return k * p.get(0, 0), sorted(facs.items())
    if len(p) > 1:
        tried = 0
        for fid in range(len(S.factors) - 1, -1, -1):
            fp = S.factors[fid]
            if len(fp) < 2 or len(fp) > len(p):
                continue
            tried += 1
            if tried > 40:
                break
            while True:
                q = P.pdivexact(p, fp)
                if q is None:
                    break
                facs[fid] = facs.get(fid, 0) + 1
                p = q
            if P.is_const(p):
                break
    if not P.is_const(p):
        q = P.psqrt(p) if len(p) <= 400 else None
        if q is not None:
            kk, q = P.primitive(q)
            f = S.fid(q)
            facs[f] = facs.get(f, 0) + 2
        else:
            kk, p = P.primitive(p)
            k *= kk
            f = S.fid(p)
            facs[f] = facs.get(f, 0) + 1
    else:
        k *= p.get(0, 0)
    return k, sorted(facs.items())


def _div_nz(n, d):
    """n/d with d known nonzero."""
    if n is d:
        return SR({0: 1}, py=n.py and d.py)
    k, facs = factorise(d.num)
    inv_num = {0: d.cden}
    for f, e in d.den:
        for _ in range(e):
            inv_num = P.pmul(inv_num, S.factors[f])
    cden = k
    if cden < 0:
        cden = -cden
        inv_num = P.pneg(inv_num)
    # cancel inside inv first
    den, inv_num, cden = _den_norm(dict(facs), inv_num, cden)
    inv = _cancel(inv_num, cden, tuple(sorted(den.items())), d.py)
    return _mul(n, inv)


def _div(a, b):
    py = a.py and b.py
    if b.pend is None and b.sp is None and not b.den and P.is_const(b.num) and b.num:
        a.force()
        if a.sp:
            return _mul(a, SR.const(1 / b.as_fraction()))
        fr = b.as_fraction()
        num, cden = P.pscale(a.num, fr.denominator), a.cden * fr.numerator
        if cden < 0:
            num, cden = P.pneg(num), -cden
        return _norm(num, cden, a.den, py)
    if a.pend is None and b.pend is None and a.sp is None and b.sp is None and b.num:
        m = prod_mask(_rel_polys(b)[0])
        if not m & ZERO:
            r = _div_nz(a, b)
            r.py = py
            return r
    return SR({}, pend=(a, b), py=py)


def power(a, b):
    b.force()
    if not b.is_const():
        raise EngineLimit('symbolic exponent')
    e = b.as_fraction()
    py = a.py and b.py
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            return SR.const(1, py=py) / power(a, SR.const(-n, py=True))
        r = SR({0: 1}, py=py)
        base = a
        if n > 64:
            raise EngineLimit('exponent %d' % n)
        for _ in range(n):
            r = r * base
        r.py = py
        return r
    d = e.denominator
    if d & (d - 1):
        raise EngineLimit('exponent %s' % e)
    r = a
    while d > 1:
        r = sqrt(r)
        d //= 2
    return power(r, SR.const(e.numerator, py=True))


# --------------------------------------------------------------------------
# sign reasoning

def atom_mask(i):
    a = S.atoms[i]
    m = 7
    if ENG is not None:
        m = ENG.facts.get(((1 << (P.B * i), 1),), 7)
    if a.kind == 'pi':
        return POS
    if a.nonneg:
        m &= ZERO | POS
    if a.kind == 'sqrt' and m & ZERO:
        em = poly_mask(a.data)
        if not em & ZERO:
            m &= ~ZERO
    elif a.kind == 'abs' and m & ZERO:
        em = poly_mask(a.data)
        if not em & ZERO:
            m &= ~ZERO
    return m


def fkey(p):
    return tuple(sorted(p.items()))


def mul_mask(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if a & x:
            for y in (NEG, ZERO, POS):
                if b & y:
                    if x == ZERO or y == ZERO:
                        r |= ZERO
                    elif x == y:
                        r |= POS
                    else:
                        r |= NEG
    return r


def mono_mask(m):
    r = POS
    for i, e in P.exps(m):
        am = atom_mask(i)
        if e % 2 == 0:
            am = (ZERO if am & ZERO else 0) | (POS if am & (NEG | POS) else 0)
        r = mul_mask(r, am)
    return r


def flip(m):
    return (m & ZERO) | (POS if m & NEG else 0) | (NEG if m & POS else 0)


def poly_mask(p):
    """Possible signs of p, from syntax and recorded facts."""
    if not p:
        return ZERO
    if P.is_const(p):
        return POS if p[0] > 0 else NEG
    k, q = P.primitive(p)
    m = 7
    if ENG is not None:
        m = ENG.facts.get(fkey(q), 7)
    if S.nonneg and len(q) > 1:
        m &= S.nonneg.get(fkey(q), 7)
    if len(q) == 1:
        (mm, _c), = q.items()
        m &= mono_mask(mm)
    elif len(q) <= 60 and m & (m - 1):
        lo = 0      # union accumulations
        allpos = allneg = True
        strict = False
        for mm, c in q.items():
            s = mono_mask(mm)
            if c < 0:
                s = flip(s)
            if s & NEG:
                allpos = False
            if s & POS:
                allneg = False
            if not (allpos or allneg):
                break
            if not s & ZERO:
                strict = True
        if allpos:
            m &= POS if strict else (ZERO | POS)
        elif allneg:
            m &= NEG if strict else (ZERO | NEG)
    return m if k > 0 else flip(m)


def prod_mask(polys):
    r = POS
    for p in polys:
        r = mul_mask(r, poly_mask(p))
    return r


# --------------------------------------------------------------------------
# SB

class SB(object):
    """Symbolic boolean: 'c' const, 'r' (mask, polys), 'and'/'or' list, 'not'."""
    __slots__ = ('op', 'args')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __bool__(self):
        v = value_of(self)
        if v is not None:
            return v
        if ENG is None:
            raise EngineLimit('symbolic boolean outside the engine')
        return ENG.fork(self)

    def __invert__(self):
        return sb_not(self)

    def __and__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_and([self, o])
    __rand__ = __and__

    def __or__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_or([self, o])
    __ror__ = __or__

    def __xor__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_xor(self, o)
    __rxor__ = __xor__

    def __eq__(self, o):
        o = as_sb(o)
        if o is None:
            return NotImplemented
        return sb_not(sb_xor(self, o))

    def __ne__(self, o):
        o = as_sb(o)
        if o is None:
            return NotImplemented
        return sb_xor(self, o)

    def __lt__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_and([sb_not(self), o])

    def __gt__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_and([self, sb_not(o)])

    def __le__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_or([sb_not(self), o])

    def __ge__(self, o):
        o = as_sb(o)
        return NotImplemented if o is None else sb_or([self, sb_not(o)])

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, SB):
            return sb_and([self, o])
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __neg__(self):
        return -self._n()

    def __int__(self):
        return self._n()

    def __index__(self):
        return self._n()

    def __float__(self):
        return float(self._n())

    def __repr__(self):
        v = value_of(self)
        return 'SB<%s>' % (self.op if v is None else v)

    def any(self):
        return self

    def all(self):
        return self

    # numpy object-loop hooks
    def logical_not(self):
        return sb_not(self)

    dtype = np.dtype(bool)
    shape = ()
    ndim = 0


TRUE = SB('c', True)
FALSE = SB('c', False)


def as_sb(o):
    if isinstance(o, SB):
        return o
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    if isinstance(o, (int, np.integer)):
        return TRUE if o else FALSE
    if isinstance(o, SR):
        return sb_rel(o, NEG | POS)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return as_sb(o[()])
    return None


def sb_not(x):
    if x.op == 'c':
        return FALSE if x.args[0] else TRUE
    if x.op == 'not':
        return x.args[0]
    if x.op == 'r':
        return SB('r', 7 ^ x.args[0], x.args[1])
    return SB('not', x)


def _nary(op, xs, unit, absorb):
    out = []
    for x in xs:
        x = as_sb(x)
        v = value_of(x)
        if v is not None:
            if v == absorb:
                return TRUE if absorb else FALSE
            continue
        if x.op == op:
            out.extend(x.args[0])
        else:
            out.append(x)
    if not out:
        return TRUE if unit else FALSE
    if len(out) == 1:
        return out[0]
    return SB(op, tuple(out))


def sb_and(xs):
    return _nary('and', xs, True, False)


def sb_or(xs):
    return _nary('or', xs, False, True)


def sb_xor(a, b):
    return sb_or([sb_and([a, sb_not(b)]), sb_and([sb_not(a), b])])


def sb_implies(a, b):
    return sb_or([sb_not(as_sb(a)), as_sb(b)])


_PROBE = []


def _probe(i):
    while len(_PROBE) <= i:
        n = len(_PROBE)
        _PROBE.append((n * 2654435761 + 97 * n * n + 1000003) % 998244353 + 3)
    return _PROBE[i]


def _pvalue(p):
    t = 0
    for m, c in p.items():
        for i, e in P.exps(m):
            c = c * _probe(i) ** e
        t += c
    return t


def cand(p):
    """Remember p (a factor the program or the oracle multiplied with)."""
    n = len(p)
    if n < 2 or n > 60 or len(S.cands) > 600:
        return
    k, p = P.primitive(p)
    key = P.key(p)
    if key in S.cands:
        return
    mg = P.mono_gcd(p)
    if mg:
        return
    v = _pvalue(p)
    if v in (0, 1, -1):
        return
    S.cands[key] = (p, abs(v))


def split(p):
    """Primitive factors of primitive p found among the candidates."""
    if len(p) < 3:
        return [p]
    key = P.key(p)
    r = S.splits.get(key)
    if r is not None and r[0] == len(S.cands):
        return r[1]
    out = []
    v = abs(_pvalue(p))
    q = p
    if v:
        for ck, (c, cv) in sorted(S.cands.items(), key=lambda t: -len(t[1][0])):
            if len(c) > len(q) or ck == key:
                continue
            while v % cv == 0:
                d = P.pdivexact(q, c)
                if d is None:
                    break
                out.append(c)
                q = d
                v //= cv
                if P.is_const(q):
                    break
            if P.is_const(q):
                break
    if P.is_const(q):
        if q.get(0) == -1:
            out[0] = P.pneg(out[0])
    else:
        out.append(q)
    S.splits[key] = (len(S.cands), out)
    return out


def _rel_polys(x):
    """Polys whose product has the sign of x, (plus sign flip)."""
    polys = []
    if not x.num:
        return [{}], 1
    k, p = P.primitive(x.num)
    sgn = 1 if k > 0 else -1
    polys.extend(split(p) if S.cands else [p])
    for f, e in x.den:
        if e & 1:
            fp = S.factors[f]
            m = poly_mask(fp)
            if not m & NEG:
                continue
            if not m & POS:
                sgn = -sgn
                continue
            polys.append(fp)
    return polys, sgn


def sb_rel(x, mask):
    """SB for  sign(x) in mask."""
    x.force()
    if x.sp:
        if x.sp == 'nan':
            return TRUE if mask == (NEG | POS) else FALSE
        return TRUE if (mask & (POS if x.sp == 'inf' else NEG)) else FALSE
    if not x.num:
        return TRUE if mask & ZERO else FALSE
    polys, sgn = _rel_polys(x)
    if sgn < 0:
        mask = flip(mask)
    out = []
    for p in polys:
        # monomial content with known signs
        if P.is_const(p):
            if p[0] < 0:
                mask = flip(mask)
            continue
        mg = P.mono_gcd(p)
        if mg:
            m = 0
            drop = []
            for i, e in mg:
                am = atom_mask(i)
                if not am & ZERO:
                    # nonzero atom: strip
                    if e & 1:
                        if not am & NEG:
                            pass
                        elif not am & POS:
                            mask = flip(mask)
                        else:
                            drop.append((i, 1))
                            # keep one odd power as separate factor
                    m += e << (P.B * i)
            if m:
                p = {mm - m: c for mm, c in p.items()}
                for i, _ in drop:
                    out.append(P.var(i))
                if P.is_const(p):
                    if p[0] < 0:
                        mask = flip(mask)
                    continue
        r = _desqrt(p, mask) if len(polys) == 1 and not out else None
        if r is not None:
            return r
        if len(p) == 1:
            (mm, cc), = p.items()
            if cc < 0:
                mask = flip(mask)
            for i, e in P.exps(mm):
                q = P.var(i)
                if S.atoms[i].kind in ('sqrt', 'abs') and mask in (ZERO, NEG | POS):
                    q = P.primitive(S.atoms[i].data)[1]
                out.append(q)
                if e % 2 == 0:
                    out.append(q)
            continue
        out.append(p)
    if not out:
        return TRUE if mask & POS else FALSE
    norm = []
    for p in out:
        k, q = P.primitive(p)
        if k < 0:
            mask = flip(mask)
        norm.append(q)
    # even repeats collapse for pure zero tests
    if mask in (ZERO, NEG | POS) and len(norm) > 1:
        seen, nn = set(), []
        for q in norm:
            kq = fkey(q)
            if kq not in seen:
                seen.add(kq)
                nn.append(q)
        norm = nn
        if len(norm) > 1:
            atoms = [SB('r', ZERO, (q,)) for q in norm]
            r = sb_or(atoms)
            return r if mask == ZERO else sb_not(r)
    if len(norm) == 1 and mask not in (ZERO, NEG | POS):
        pm = poly_mask(norm[0])
        if pm & ~mask & 7 == 0:
            return TRUE
        if pm & mask == 0:
            return FALSE
        if pm in (ZERO | POS, ZERO | NEG):
            return sb_rel(SR(norm[0]), ZERO if mask & ZERO else NEG | POS)
        if pm == NEG | POS:
            mask = (mask & pm) or mask
    return SB('r', mask, tuple(norm))


def _desqrt(p, mask, depth=0):
    """sign(A*s + B) with s a sqrt/abs atom and A of known sign, stated without s."""
    if len(p) < 2 or len(p) > 200 or mask in (0, 7):
        return None
    cand_ = [i for i in reversed(P.atoms_of(p)) if S.atoms[i].kind in ('sqrt', 'abs')]
    for i in cand_[:4]:
        sh = P.B * i
        one = (1 << P.B) - 1
        A, B = {}, {}
        ok = True
        for m, c in p.items():
            e = (m >> sh) & one
            if e == 0:
                B[m] = c
            elif e == 1:
                A[m - (1 << sh)] = c
            else:
                ok = False
                break
        if not ok or not B:
            continue
        mA, mB = poly_mask(A), poly_mask(B)
        if not mA & NEG:
            pass
        elif not mA & POS:
            mask = flip(mask)
            A, B, mB = P.pneg(A), P.pneg(B), flip(mB)
        else:
            continue
        e2 = P.R.rule[i]
        q = P.psub(P.pmul(P.pmul(A, A), e2), P.pmul(B, B))
        if len(q) > 400:
            return None
        _lagrange(i, A, B, q)
        Q = SR(q)
        if not mB & POS:
            return sb_rel(Q, mask)
        if not mB & NEG:
            continue
        Bs = SR(B)
        if mask == POS:
            return sb_or([sb_rel(Bs, POS), sb_rel(Q, POS)])
        if mask == NEG:
            return sb_and([sb_rel(Bs, NEG), sb_rel(Q, NEG)])
        if mask == ZERO:
            return sb_and([sb_rel(Bs, NEG | ZERO), sb_rel(Q, ZERO)])
        return sb_not(_desqrt(p, 7 ^ mask))
    return None


def note_norm(comps, radicand):
    """radicand = sum of squares of comps (polynomials): remembered for Lagrange's
    identity |a|^2|b|^2 - (a.b)^2 = sum (a_i b_j - a_j b_i)^2."""
    if len(S.comps) < 200:
        S.comps[P.key(radicand)] = comps


def _lagrange(i, A, B, q):
    """Mark q = A^2 e - B^2 as nonnegative when Cauchy-Schwarz says so."""
    if len(A) != 1:
        return
    (m, c), = A.items()
    ex = P.exps(m)
    if len(ex) != 1 or ex[0][1] != 1:
        return
    k1 = P.key(P.R.rule[i]) if i in P.R.rule else None
    k2 = P.key(P.R.rule[ex[0][0]]) if ex[0][0] in P.R.rule else None
    u, v = S.comps.get(k1), S.comps.get(k2)
    if u is None or v is None or len(u) != len(v):
        return
    d = {}
    for a, b in zip(u, v):
        d = P.padd(d, P.pmul(a, b))
    d = P.pscale(d, c)
    if d == B or P.pneg(d) == B:
        k, qq = P.primitive(q)
        S.nonneg[fkey(qq)] = POS | ZERO if k > 0 else NEG | ZERO


def compare(a, b, mask):
    a.force()
    b.force()
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return TRUE if mask == (NEG | POS) else FALSE
        fa = {'inf': 1, '-inf': -1}.get(a.sp, 0)
        fb = {'inf': 1, '-inf': -1}.get(b.sp, 0)
        d = fa - fb
        s = NEG if d < 0 else POS if d > 0 else ZERO
        return TRUE if mask & s else FALSE
    if a is b:
        return TRUE if mask & ZERO else FALSE
    return sb_rel(_add(a, b, -1), mask)


def value_of(x):
    """True/False/None from constants, syntax and facts."""
    op = x.op
    if op == 'c':
        return x.args[0]
    if op == 'r':
        mask, polys = x.args
        m = prod_mask(polys)
        if ENG is not None and len(polys) > 1:
            m &= ENG.facts.get(tuple(fkey(p) for p in polys), 7)
        if m & ~mask & 7 == 0:
            return True
        if m & mask == 0:
            return False
        return None
    if op == 'not':
        v = value_of(x.args[0])
        return None if v is None else not v
    unk = False
    for y in x.args[0]:
        v = value_of(y)
        if v is None:
            unk = True
        elif op == 'and' and not v:
            return False
        elif op == 'or' and v:
            return True
    if unk:
        return None
    return op == 'and'


# --------------------------------------------------------------------------
# functions

def sqrt(x, nonneg=False):
    """numpy semantics: nan for negative input (math.sqrt raises: see shim)."""
    x = _coerce(x)
    x.force()
    if x.sp:
        return SR({}, sp='inf' if x.sp == 'inf' else 'nan', py=x.py)
    if not x.num:
        return SR({}, py=x.py)
    if x.is_const():
        fr = x.as_fraction()
        if fr < 0:
            return SR({}, sp='nan', py=x.py)
    elif not nonneg:
        if not bool(sb_rel(x, ZERO | POS)):
            return SR({}, sp='nan', py=x.py)
    # sqrt(N/(c*prod f^e)):  even exponents come out; odd ones are multiplied in
    num, c = x.num, x.cden
    outer = SR({0: 1})
    for f, e in x.den:
        fp = S.factors[f]
        if e & 1:
            num = P.pmul(num, fp)
            e += 1
        fs = SR(fp)
        fa = absolute(fs)
        for _ in range(e // 2):
            outer = _mul(outer, fa)
    # factor c
    r = isqrt(c)
    if r * r == c:
        outer = SR(P.pscale(outer.num, r), outer.cden, outer.den)
    else:
        num = P.pscale(num, c)
        outer = SR(P.pscale(outer.num, c), outer.cden, outer.den)
    s = _sqrt_poly(num)
    res = _div_nz(s, outer) if not (P.is_const(outer.num) and not outer.den and outer.num == {0: 1}) else s
    return SR(res.num, res.cden, res.den, py=x.py)


def _int_square_part(n):
    """n = q*q*r."""
    q = 1
    r = n
    f = 2
    lim = 2000
    while f * f <= r and f < lim:
        while r % (f * f) == 0:
            r //= f * f
            q *= f
        f += 1
    s = isqrt(r)
    if s * s == r:
        q, r = q * s, 1
    return q, r


def _sqrt_poly(p):
    """sqrt of a (nonnegative) polynomial."""
    if not p:
        return SR({})
    c = P.content(p)
    p = {m: v // c for m, v in p.items()}
    q, r = _int_square_part(c)
    res = SR({0: q})
    mg = P.mono_gcd(p)
    m = 0
    for i, e in mg:
        if e >= 2:
            h = e // 2
            m += (2 * h) << (P.B * i)
            a = absolute(SR(P.var(i)))
            for _ in range(h):
                res = _mul(res, a)
    if m:
        p = {mm - m: v for mm, v in p.items()}
    if P.is_const(p):
        c = p[0] * r
        q, r = _int_square_part(c)
        res = _mul(res, SR({0: q}))
        if r == 1:
            return res
        return _mul(res, _sqrt_atom({0: r}))
    sq = P.psqrt(p) if len(p) <= 2000 else None
    if sq is not None:
        res = _mul(res, absolute(SR(sq)))
        return res if r == 1 else _mul(res, _sqrt_atom({0: r}))
    full = P.pscale(p, r)
    if ('sqrt', P.key(full)) in S.bykey:
        return _mul(res, _sqrt_atom(full))
    # try known radicands
    if len(p) <= 3000:
        for a, e in reversed(S.sqrt_atoms[-60:]):
            if len(e) < 2 or len(e) > len(p):
                continue
            d = P.pdivexact(full, e)
            if d is None:
                # content mismatch
                k, ep = P.primitive(e)
                continue
            if P.is_const(d):
                qq, rr = _int_square_part(d[0]) if d[0] > 0 else (1, 0)
                if rr == 1:
                    return _mul(res, _mul(SR({0: qq}), SR(P.var(a.idx))))
                continue
            s2 = P.psqrt(d)
            if s2 is not None:
                return _mul(res, _mul(absolute(SR(s2)), SR(P.var(a.idx))))
    return _mul(res, _sqrt_atom(full))


def _sqrt_atom(p):
    a = S.new(('sqrt', P.key(p)), 'sqrt%d' % len(S.atoms), 'sqrt', data=p, rule=p, nonneg=True)
    return SR(P.var(a.idx))


def absolute(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        return SR({}, sp='nan' if x.sp == 'nan' else 'inf', py=x.py)
    if not x.num:
        return x
    polys, sgn = _rel_polys(x)
    m = prod_mask(polys)
    if sgn < 0:
        m = flip(m)
    if not m & NEG:
        return x
    if not m & POS:
        return -x
    if len(x.num) > 40:
        return x if bool(sb_rel(x, ZERO | POS)) else -x
    # |num| / |den|
    k, p = P.primitive(x.num)
    if len(p) == 1 and len(P.exps(next(iter(p)))) > 1:
        r = SR({0: 1})
        for i, e in P.exps(next(iter(p))):
            a = absolute(SR(P.var(i)))
            for _ in range(e):
                r = _mul(r, a)
        r = _mul(r, SR({0: abs(k)}, x.cden))
    else:
        a = S.new(('abs', P.key(p)), 'abs%d' % len(S.atoms), 'abs', data=p, rule=P.pmul(p, p), nonneg=True)
        r = SR(P.pscale(P.var(a.idx), abs(k)), x.cden)
    for f, e in x.den:
        fa = SR(S.factors[f])
        if e & 1:
            fa = absolute(fa)
        for _ in range(e):
            r = _div_nz(r, fa)
    return SR(r.num, r.cden, r.den, py=x.py)


def sign(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        return SR({}, sp='nan') if x.sp == 'nan' else SR({0: 1 if x.sp == 'inf' else -1})
    if bool(sb_rel(x, POS)):
        return SR({0: 1})
    if bool(sb_rel(x, ZERO)):
        return SR({})
    return SR({0: -1})


def floor(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        return x
    if x.is_const():
        return SR.const(math.floor(x.as_fraction()), py=x.py)
    # pull out the integer constant part
    if not x.den and all(S.atoms[i].isint for i in P.atoms_of(x.num)) and x.cden == 1:
        return x
    k = ('floor', P.key(x.num), x.cden, x.den)
    a = S.new(k, 'floor%d' % len(S.atoms), 'floor', data=(x.num, x.cden, x.den), isint=True)
    return SR(P.var(a.idx), py=x.py)


def ceil(x):
    x = _coerce(x)
    return -floor(-x)


def trunc(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        raise ValueError('cannot convert float %s to integer' % x.sp)
    if x.is_const():
        return SR.const(math.trunc(x.as_fraction()), py=x.py)
    if bool(sb_rel(x, ZERO | POS)):
        return floor(x)
    return ceil(x)


def rint(x):
    """Round half to even."""
    x = _coerce(x)
    x.force()
    if x.sp:
        return x
    if x.is_const():
        return SR.const(round(x.as_fraction()), py=x.py)
    if not x.den and x.cden == 1 and all(S.atoms[i].isint for i in P.atoms_of(x.num)):
        return x
    k = ('rint', P.key(x.num), x.cden, x.den)
    a = S.new(k, 'rint%d' % len(S.atoms), 'rint', data=(x.num, x.cden, x.den), isint=True)
    return SR(P.var(a.idx), py=x.py)


def concretise_int(x):
    """An actual python int for a symbolic integer: fork over its values."""
    x = _coerce(x)
    x.force()
    if x.sp:
        raise (ValueError if x.sp == 'nan' else OverflowError)('cannot convert float %s to integer' % x.sp)
    if x.is_const():
        return math.trunc(x.as_fraction())
    x = trunc(x)
    if x.is_const():
        return int(x.as_fraction())
    return ENG.enumerate_int(x)


# -- trigonometry

def _trig_base(key, name, angle_sr):
    c = S.new(('cos',) + key, 'cos_' + name, 'cos', data=angle_sr)
    s = S.new(('sin',) + key, 'sin_' + name, 'sin', data=(angle_sr, c.idx),
              rule=P.psub({0: 1}, {2 << (P.B * c.idx): 1}))
    return SR(P.var(c.idx)), SR(P.var(s.idx))


def _combine(p, q):
    (c1, s1), (c2, s2) = p, q
    return c1 * c2 - s1 * s2, s1 * c2 + c1 * s2


_PI_EXACT = None


def _pi_angle(fr):
    """(cos, sin) of fr*pi for the fractions with simple values, else None."""
    fr = fr % 2
    k = fr * 12
    if k.denominator != 1:
        return None
    k = int(k)
    h = Fraction(1, 2)
    r2 = lambda: sqrt(SR.const(2)) / 2
    r3 = lambda: sqrt(SR.const(3)) / 2
    c = SR.const
    table = {0: (c(1), c(0)), 6: (c(0), c(1)), 12: (c(-1), c(0)), 18: (c(0), c(-1))}
    if k in table:
        return table[k]
    quad, rem = divmod(k, 6)
    if rem == 3:
        base = (r2(), r2())
    elif rem == 2:
        base = (r3(), c(h))
    elif rem == 4:
        base = (c(h), r3())
    else:
        base = _combine(_pi_angle(Fraction(1, 4)), _pi_angle(Fraction(-1, 6))) if rem == 1 else \
            _combine(_pi_angle(Fraction(1, 4)), _pi_angle(Fraction(1, 6)))
    for _ in range(quad):
        base = (-base[1], base[0])
    return base


def cossin(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        n = SR({}, sp='nan')
        return n, n
    if not x.num:
        return SR({0: 1}), SR({})
    pia = S.bykey.get('pi')
    res = None
    if x.den:
        terms = [(None, x)]
    else:
        terms = [(m, SR({m: c}, x.cden)) for m, c in sorted(x.num.items())]
    for m, t in terms:
        if m is not None and pia is not None and m == 1 << (P.B * pia.idx):
            fr = Fraction(t.num[m], t.cden)
            cs = _pi_angle(fr)
            if cs is None:
                g = Fraction(abs(fr.numerator), fr.denominator)
                cs = _trig_base(('pi', g), 'pi%s' % g, t if fr > 0 else -t)
                if fr < 0:
                    cs = (cs[0], -cs[1])
        elif m == 0:
            fr = Fraction(t.num[m], t.cden)
            cs = _trig_base(('const', abs(fr)), 'k', SR.const(abs(fr)))
            if fr < 0:
                cs = (cs[0], -cs[1])
        elif m is None:
            k, p = P.primitive(t.num)
            neg = k < 0
            tt = -t if neg else t
            cs = _trig_base(('gen', P.key(tt.num), tt.cden, tt.den), 'g%d' % len(S.atoms), tt)
            if neg:
                cs = (cs[0], -cs[1])
        else:
            fr = Fraction(t.num[m], t.cden)
            sgn = 1 if fr > 0 else -1
            fr = abs(fr)
            cs = _mono_angle(m, fr)
            if sgn < 0:
                cs = (cs[0], -cs[1])
        res = cs if res is None else _combine(res, cs)
    return res


def _mono_angle(m, fr):
    ex = P.exps(m)
    if len(ex) == 1 and ex[0][1] == 1:
        a = S.atoms[ex[0][0]]
        if a.kind in ('acos', 'atan2') and fr.denominator == 1 and fr <= 8:
            base = a.data['cs']
            r = base
            for _ in range(int(fr) - 1):
                r = _combine(r, base)
            return r
    # reuse a registered base that divides
    reg = S.bykey.setdefault(('trigreg', m), {})
    for f0 in reg:
        q = fr / f0
        if q.denominator == 1 and q <= 6:
            base = reg[f0]
            r = base
            for _ in range(int(q) - 1):
                r = _combine(r, base)
            return r
    cs = _trig_base(('mono', m, fr), 't%d' % len(S.atoms), SR({m: fr.numerator}, fr.denominator))
    reg[fr] = cs
    return cs


def cos(x):
    r = cossin(x)[0]
    return SR(r.num, r.cden, r.den, r.sp, py=getattr(x, 'py', False))


def sin(x):
    r = cossin(x)[1]
    return SR(r.num, r.cden, r.den, r.sp, py=getattr(x, 'py', False))


def acos(x):
    x = _coerce(x)
    x.force()
    if x.sp:
        return SR({}, sp='nan')
    if x.is_const():
        fr = x.as_fraction()
        tab = {Fraction(1): 0, Fraction(1, 2): Fraction(1, 3), Fraction(0): Fraction(1, 2),
               Fraction(-1, 2): Fraction(2, 3), Fraction(-1): Fraction(1)}
        if fr in tab:
            return PI() * SR.const(tab[fr])
    if not bool(sb_and([compare(x, SR.const(1), NEG | ZERO), compare(x, SR.const(-1), POS | ZERO)])):
        if x.py:
            raise ValueError('math domain error')
        return SR({}, sp='nan')
    if x.cden == 1 and not x.den and len(x.num) == 1:
        (m, c), = x.num.items()
        ex = P.exps(m)
        if c in (1, -1) and len(ex) == 1 and ex[0][1] == 1 and S.atoms[ex[0][0]].kind == 'cos':
            # arccos(cos t) = t for t in [0, pi]
            th = S.atoms[ex[0][0]].data
            if bool(sb_and([compare(th, SR({}), POS | ZERO), compare(th, PI(), NEG | ZERO)])):
                r = th if c == 1 else PI() - th
                return SR(r.num, r.cden, r.den, py=x.py)
    s = sqrt(1 - x * x, nonneg=True)
    key = ('acos', P.key(x.num), x.cden, x.den)
    # acos(-x) = pi - acos(x): share the atom
    nx = -x
    nkey = ('acos', P.key(nx.num), nx.cden, nx.den)
    if nkey in S.bykey:
        PI()
        return PI() - SR(P.var(S.bykey[nkey].idx))
    PI()
    a = S.new(key, 'acos%d' % len(S.atoms), 'acos', data={'x': x, 'cs': (x, s)}, nonneg=True)
    k, q = P.primitive(P.psub(PI().num, P.var(a.idx)))
    S.nonneg[fkey(q)] = POS | ZERO if k > 0 else NEG | ZERO
    return SR(P.var(a.idx), py=x.py)


def asin(x):
    return PI() / 2 - acos(x)


def atan2(y, x):
    y, x = _coerce(y), _coerce(x)
    y.force()
    x.force()
    if y.sp or x.sp:
        raise EngineLimit('atan2 special')
    r2 = x * x + y * y
    if bool(sb_rel(r2, ZERO)):
        return SR({})
    r = sqrt(r2, nonneg=True)
    t = acos(x / r)
    return t if bool(sb_rel(y, ZERO | POS)) else -t


# --------------------------------------------------------------------------
# differentiation

def diff(x, i):
    """Derivative of x with respect to the input atom i (where it exists)."""
    x = _coerce(x)
    x.force()
    if x.sp:
        return x
    memo = {}
    r = _dpoly(x.num, i, memo)
    r = _mul(r, _div_nz(SR({0: 1}), SR({0: x.cden}))) if x.cden != 1 else r
    for f, e in x.den:
        for _ in range(e):
            r = _div_nz(r, SR(S.factors[f]))
    for f, e in x.den:
        d = _dpoly(S.factors[f], i, memo)
        if d.num:
            r = r - _mul(SR({0: e}), _mul(x, _div_nz(d, SR(S.factors[f]))))
    return r


def _dpoly(p, i, memo):
    r = SR({})
    for j in P.atoms_of(p):
        d = _datom(j, i, memo)
        if d.num:
            r = r + _mul(SR(P.preduce(P.pdiff(p, j))), d)
    return r


def _datom(j, i, memo):
    if j == i:
        return SR({0: 1})
    if j in memo:
        return memo[j]
    a = S.atoms[j]
    v = SR(P.var(j))
    if a.kind == 'sqrt':
        d = _dpoly(a.data, i, memo)
        d = d / (2 * v) if d.num else d
    elif a.kind == 'abs':
        d = _dpoly(a.data, i, memo)
        d = d * v / SR(a.data) if d.num else d
    elif a.kind == 'unit':
        d = _dpoly(P.R.rule[j], i, memo)
        d = d / (2 * v) if d.num else d
    elif a.kind == 'cos':
        d = diff(a.data, i)
        d = -d * SR(P.var(S.bykey[('sin',) + a.key[1:]].idx)) if d.num else d
    elif a.kind == 'sin':
        d = diff(a.data[0], i)
        d = d * SR(P.var(a.data[1])) if d.num else d
    elif a.kind == 'acos':
        d = diff(a.data['x'], i)
        d = -d / a.data['cs'][1] if d.num else d
    elif a.kind in ('input', 'pi', 'floor', 'rint'):
        d = SR({})
    else:
        raise EngineLimit('derivative of %s' % a.kind)
    d.force()
    memo[j] = d
    return d


# --------------------------------------------------------------------------
# z3 conversion

import z3  # noqa: E402


def zpoly(p):
    if not p:
        return z3.RealVal(0)
    k = ('p', id(S), P.key(p))
    r = _zcache.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in sorted(p.items()):
        fs = []
        for i, e in P.exps(m):
            v = zatom(i)
            fs.extend([v] * e)
        if c != 1 or not fs:
            fs.insert(0, z3.RealVal(c))
        t = fs[0]
        if len(fs) > 1:
            t = z3.Product(*fs)
        terms.append(t)
    r = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    _zcache[k] = r
    return r


def zatom(i):
    a = S.atoms[i]
    if a.z3v is None:
        if a.isint:
            a.z3v = z3.ToReal(z3.Int('%s!%d' % (a.name, i)))
        else:
            a.z3v = z3.Real('%s!%d' % (a.name, i))
    return a.z3v


def zden(cden, den):
    r = z3.RealVal(cden)
    for f, e in den:
        for _ in range(e):
            r = r * zpoly(S.factors[f])
    return r


def atom_deps(i):
    """Atoms mentioned in the definition of atom i (empty for inputs)."""
    a = S.atoms[i]
    d = a.data
    if a.kind in ('sqrt', 'abs'):
        return P.atoms_of(d)
    if a.kind in ('floor', 'rint'):
        r = set(P.atoms_of(d[0]))
        for f, _ in d[2]:
            r.update(P.atoms_of(S.factors[f]))
        return sorted(r)
    if a.kind == 'unit':
        return P.atoms_of(P.R.rule[i])
    if a.kind == 'sin':
        return [d[1]]
    if a.kind == 'acos':
        x = d['x']
        r = set(P.atoms_of(x.num))
        for f, _ in x.den:
            r.update(P.atoms_of(S.factors[f]))
        r.add(S.bykey['pi'].idx)
        return sorted(r)
    return []


def zdef(i):
    """Definitional constraints of atom i."""
    a = S.atoms[i]
    v = zatom(i)
    if a.kind == 'sqrt':
        return [v >= 0, v * v == zpoly(a.data)]
    if a.kind == 'abs':
        e = zpoly(a.data)
        return [v >= 0, z3.Or(v == e, v == -e)]
    if a.kind == 'unit':
        return [v * v == zpoly(P.R.rule[i])]
    if a.kind == 'sin':
        c = zatom(a.data[1])
        return [v * v + c * c == 1]
    if a.kind == 'pi':
        return [v > z3.Q(3141592653589793, 10 ** 15), v < z3.Q(3141592653589794, 10 ** 15)]
    if a.kind in ('floor', 'rint'):
        n, cd, den = a.data
        num = zpoly(n)
        if den:
            q = z3.Real('quot!%d' % i)
            cons = [q * zden(cd, den) == num]
        else:
            q = num / cd if cd != 1 else num
            cons = []
        if a.kind == 'floor':
            return cons + [v <= q, q < v + 1]
        h = z3.Q(1, 2)
        # half to even: at the tie the integer is even
        iv = v.arg(0) if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL else z3.ToInt(v)
        return cons + [q - h <= v, v <= q + h, z3.Implies(z3.Or(v == q - h, v == q + h), iv % 2 == 0)]
    if a.kind == 'acos':
        x = a.data['x']
        pi = zatom(S.bykey['pi'].idx)
        n = zpoly(x.num)
        dd = zden(x.cden, x.den)
        return [v >= 0, v <= pi,
                (v == 0) == (n == dd), (v == pi) == (n == -dd), (2 * v == pi) == (n == 0),
                z3.Implies(n * dd > 0, 2 * v < pi), z3.Implies(n * dd < 0, 2 * v > pi)] + \
            ([] if x.den else [2 * (dd - n) <= v * v * dd, 2 * (dd + n) <= (pi - v) * (pi - v) * dd])
    if a.nonneg:
        return [v >= 0]
    return []


def zsb(x):
    if x.op == 'c':
        return z3.BoolVal(x.args[0])
    if x.op == 'r':
        mask, polys = x.args
        e = zpoly(polys[0])
        for p in polys[1:]:
            e = e * zpoly(p)
        return {NEG: e < 0, NEG | ZERO: e <= 0, ZERO: e == 0, POS: e > 0,
                POS | ZERO: e >= 0, NEG | POS: e != 0, 7: z3.BoolVal(True), 0: z3.BoolVal(False)}[mask]
    if x.op == 'not':
        return z3.Not(zsb(x.args[0]))
    if x.op == 'and':
        return z3.And(*[zsb(y) for y in x.args[0]])
    return z3.Or(*[zsb(y) for y in x.args[0]])


def sb_atoms(x, acc=None):
    if acc is None:
        acc = set()
    if x.op == 'r':
        for p in x.args[1]:
            acc.update(P.atoms_of(p))
    elif x.op == 'not':
        sb_atoms(x.args[0], acc)
    elif x.op in ('and', 'or'):
        for y in x.args[0]:
            sb_atoms(y, acc)
    return acc


def closure(atoms):
    todo = list(atoms)
    seen = set(todo)
    while todo:
        i = todo.pop()
        for j in atom_deps(i):
            if j not in seen:
                seen.add(j)
                todo.append(j)
        d = S.atoms[i].data
        if isinstance(d, dict) and 'group' in d:
            for j in d['group']:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        # a sin atom shares its cos and vice versa through the definition of sin
        if S.atoms[i].kind == 'cos':
            k = S.bykey.get(('sin',) + S.atoms[i].key[1:])
            if k is not None and k.idx not in seen:
                seen.add(k.idx)
                todo.append(k.idx)
    return seen


# --------------------------------------------------------------------------
# float evaluation (sample pool, model completion)

def eval_atom(i, vals):
    """Value(s) of definitional atom i given lower values (numpy arrays)."""
    a = S.atoms[i]
    if a.kind == 'sqrt':
        return np.sqrt(np.maximum(peval(a.data, vals), 0))
    if a.kind == 'abs':
        return np.abs(peval(a.data, vals))
    if a.kind in ('floor', 'rint'):
        n, cd, den = a.data
        q = peval(n, vals) / deval(cd, den, vals)
        return np.floor(q + 1e-13) if a.kind == 'floor' else np.rint(q)
    if a.kind == 'pi':
        return np.full_like(vals[0], math.pi) if vals and isinstance(vals[0], np.ndarray) else math.pi
    if a.kind == 'cos':
        return np.cos(sreval(a.data, vals))
    if a.kind == 'sin':
        return np.sin(sreval(a.data[0], vals))
    if a.kind == 'acos':
        return np.arccos(np.clip(sreval(a.data['x'], vals), -1, 1))
    return None


def peval(p, vals):
    tot = 0.0
    for m, c in p.items():
        v = float(c) if abs(c) < 10 ** 300 else float('inf')
        for i, e in P.exps(m):
            x = vals[i]
            v = v * (x if e == 1 else x ** e)
        tot = tot + v
    return tot


def deval(cd, den, vals):
    r = float(cd)
    for f, e in den:
        r = r * peval(S.factors[f], vals) ** e
    return r


def sreval(x, vals):
    return peval(x.num, vals) / deval(x.cden, x.den, vals)
