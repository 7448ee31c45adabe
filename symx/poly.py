"""Exact multivariate polynomials over the integers, modulo square-rewrite rules.

A monomial is a packed Python int: the exponent of atom i sits in bits
[16*i, 16*i+16).  Multiplying monomials is integer addition.  Some atoms carry
a rule  a**2 -> R  (R a polynomial in atoms of lower index); polynomials are
kept reduced, so such atoms occur with exponent 0 or 1 only.
"""
import random
from math import gcd, isqrt

B = 16
FIELD = (1 << B) - 1


class TooBig(BaseException):
    """An intermediate polynomial exceeded the engine's size bound."""


class Rules(object):
    def __init__(self):
        self.sqmask = 0
        self.rule = {}          # atom index -> dict poly
        self.max_terms = 60000

    def add(self, idx, poly):
        self.rule[idx] = poly
        self.sqmask |= 2 << (B * idx)


R = Rules()


def reset():
    global R
    R.__init__()


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def _top_flag(m):
    f = m & R.sqmask
    return (f.bit_length() - 1) // B


def preduce(raw):
    """Apply the rewrite rules to an unreduced dict."""
    sq = R.sqmask
    out = {}
    bad = []
    for m, c in raw.items():
        if not c:
            continue
        if m & sq:
            bad.append((m, c))
        else:
            out[m] = c
    if not bad:
        return out
    # process by highest flagged atom, grouping
    pend = {}
    for m, c in bad:
        pend[m] = c
    while pend:
        groups = {}
        top = -1
        for m, c in pend.items():
            i = _top_flag(m)
            top = max(top, i)
            groups.setdefault(i, []).append((m, c))
        nxt = {}
        for i, lst in groups.items():
            if i != top:
                for m, c in lst:
                    v = nxt.get(m, 0) + c
                    if v:
                        nxt[m] = v
                    else:
                        nxt.pop(m, None)
        rule = R.rule[top]
        step = 2 << (B * top)
        for m, c in groups[top]:
            m0 = m - step
            for rm, rc in rule.items():
                mm = m0 + rm
                tgt = nxt if mm & sq else out
                v = tgt.get(mm, 0) + c * rc
                if v:
                    tgt[mm] = v
                else:
                    tgt.pop(mm, None)
        if len(out) > R.max_terms or len(nxt) > R.max_terms:
            raise TooBig()
        pend = nxt
    return out


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) < len(b):
        a, b = b, a
    if len(b) == 1:
        (mb, cb), = b.items()
        if mb == 0:
            return pscale(a, cb)
    if len(a) * len(b) > 40 * R.max_terms:
        raise TooBig()
    r = {}
    get = r.get
    items = list(a.items())
    for mb, cb in b.items():
        for ma, ca in items:
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    if len(r) > R.max_terms:
        raise TooBig()
    return preduce(r)


def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def primitive(a):
    """-> (k, p) with a = k*p, p primitive with positive leading coefficient."""
    g = content(a)
    if a[max(a)] < 0:
        g = -g
    if g == 1:
        return 1, a
    return g, {m: c // g for m, c in a.items()}


def key(a):
    return frozenset(a.items())


def atoms_of(a):
    o = 0
    for m in a:
        o |= m
    # fields may be non-zero in any bit
    res = []
    i = 0
    while o:
        if o & FIELD:
            res.append(i)
        o >>= B
        i += 1
    return res


def exps(m):
    res = []
    i = 0
    while m:
        e = m & FIELD
        if e:
            res.append((i, e))
        m >>= B
        i += 1
    return res


def mono_gcd(a):
    """Largest monomial dividing every term, as list of (atom, exp)."""
    it = iter(a)
    g = dict(exps(next(it)))
    for m in it:
        if not g:
            break
        for i in list(g):
            e = (m >> (B * i)) & FIELD
            if e == 0:
                del g[i]
            elif e < g[i]:
                g[i] = e
    return sorted(g.items())


def mono_divides(d, m):
    while d:
        if (d & FIELD) > (m & FIELD):
            return False
        d >>= B
        m >>= B
    return True


_rng = random.Random(12345)
_pts = [[_rng.randrange(1000, 10 ** 7) for _ in range(4096)] for _ in range(2)]


def ieval(a, pt):
    tot = 0
    for m, c in a.items():
        v = c
        i = 0
        while m:
            e = m & FIELD
            if e:
                v *= pt[i] ** e
            m >>= B
            i += 1
        tot += v
    return tot


def pdivexact(a, d, check=True):
    """a/d if d divides a in Z[atoms] (atoms treated as free), else None."""
    if not a:
        return {}
    if len(d) == 1:
        (md, cd), = d.items()
        r = {}
        for m, c in a.items():
            if c % cd or not mono_divides(md, m):
                return None
            r[m - md] = c // cd
        return r
    ld, la = max(d), max(a)
    if not mono_divides(ld, la) or a[la] % d[ld]:
        return None
    td, ta = min(d), min(a)
    if not mono_divides(td, ta) or a[ta] % d[td]:
        return None
    if check and len(a) > 8:
        for pt in _pts[:1]:
            dv = ieval(d, pt)
            if dv and ieval(a, pt) % dv:
                return None
    q = {}
    rem = dict(a)
    ditems = [(m, c) for m, c in d.items() if m != ld]
    cd = d[ld]
    import heapq
    heap = [-m for m in rem]
    heapq.heapify(heap)
    while rem:
        while True:
            m = -heapq.heappop(heap)
            if m in rem:
                break
        c = rem.pop(m)
        if c % cd or not mono_divides(ld, m):
            return None
        qm, qc = m - ld, c // cd
        q[qm] = qc
        if len(q) > R.max_terms:
            raise TooBig()
        for dm, dc in ditems:
            mm = dm + qm
            old = rem.get(mm)
            if old is None:
                rem[mm] = -dc * qc
                heapq.heappush(heap, -mm)
            else:
                v = old - dc * qc
                if v:
                    rem[mm] = v
                else:
                    del rem[mm]
    return q


def psqrt(a):
    """q with q*q == a (as free polynomials), or None."""
    if not a:
        return {}
    la = max(a)
    ca = a[la]
    if ca < 0:
        return None
    r = isqrt(ca)
    if r * r != ca:
        return None
    for i, e in exps(la):
        if e & 1:
            return None
    lm = la >> 1
    # exactness of the shift was checked by even exponents
    q = {lm: r}
    rem = dict(a)
    del rem[la]
    two = 2 * r
    steps = 0
    while rem:
        steps += 1
        if steps > 200:
            return None
        m = max(rem)
        c = rem[m]
        if c % two or not mono_divides(lm, m):
            return None
        nm, nc = m - lm, c // two
        if nm >= lm:
            return None
        # rem -= 2*q*t + t^2
        for qm, qc in list(q.items()):
            mm = qm + nm
            v = rem.get(mm, 0) - 2 * qc * nc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        mm = nm + nm
        v = rem.get(mm, 0) - nc * nc
        if v:
            rem[mm] = v
        else:
            rem.pop(mm, None)
        q[nm] = nc
    return q


def pdiff(a, i):
    """Partial derivative treating atoms as independent."""
    r = {}
    one = 1 << (B * i)
    for m, c in a.items():
        e = (m >> (B * i)) & FIELD
        if e:
            r[m - one] = r.get(m - one, 0) + c * e
    return r


def var(i):
    return {1 << (B * i): 1}


def const(k):
    return {0: k} if k else {}


def is_const(a):
    return not a or (len(a) == 1 and 0 in a)


def feval(a, vals):
    """Float evaluation; vals is a list of floats by atom index."""
    tot = 0.0
    for m, c in a.items():
        v = float(c)
        i = 0
        while m:
            e = m & FIELD
            if e:
                v *= vals[i] ** e
            m >>= B
            i += 1
        tot += v
    return tot
