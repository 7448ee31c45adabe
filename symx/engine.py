"""Path exploration, sample pool, solver portfolio."""
import math
import os
import random
import select
import signal
import threading
import time
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from . import poly as P
from .core import NEG, ZERO, POS, SB, SR

NPOOL = 384
LOG = __import__('os').environ.get('SYMX_LOG')


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.by = {}
        self.feas_pool = 0
        self.cvc5 = 0

    def as_dict(self):
        return {'queries': self.queries, 'solver_s': round(self.solver_s, 3), 'sat': self.sat,
                'unsat': self.unsat, 'unknown': self.unknown, 'by': dict(self.by)}

    def merge(self, d):
        self.queries += d['queries']
        self.solver_s += d['solver_s']
        self.sat += d['sat']
        self.unsat += d['unsat']
        self.unknown += d['unknown']
        for k, v in d['by'].items():
            self.by[k] = self.by.get(k, 0) + v


# --------------------------------------------------------------------------

_GRID = [Fraction(n, d) for d in (1, 2, 4) for n in range(-3 * d, 3 * d + 1)]


class Pool(object):
    """Rational sample points for the inputs; used to show that a branch side is
    feasible without a solver call and to guide counterexample queries.  Never
    used to discharge anything."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.exact = []        # per atom: list of Fractions or None
        self.vals = []         # per atom: float arrays
        self.alive = np.ones(NPOOL, dtype=bool)
        self.next = 0
        self.made = np.zeros(NPOOL, dtype=bool)      # samples which are solver models

    def _rand(self, k):
        r = self.rng
        if k % 4 == 0:
            return Fraction(r.choice((-2, -1, 0, 0, 1, 1, 2, 3)))
        if k % 4 == 1:
            return r.choice(_GRID)
        if k % 4 == 2:
            return Fraction(r.randrange(-4000, 4001), 1000)
        return Fraction(r.randrange(-400, 401), 37) * r.choice((Fraction(1), Fraction(1, 10), Fraction(10)))

    def sync(self):
        with np.errstate(all='ignore'):
            while len(self.vals) < len(C.S.atoms):
                i = len(self.vals)
                a = C.S.atoms[i]
                ex = None
                if a.is_input:
                    ex = list(self._input(a))
                    v = np.array([float(x) for x in ex])
                elif a.kind == 'unit':
                    ex = list(a.data['samples'][a.data['pos']])
                    v = np.array([float(x) for x in ex])
                else:
                    if not self.vals:
                        self.vals.append(None)
                        v = C.eval_atom(i, [np.zeros(NPOOL)])
                        self.vals.pop()
                    else:
                        v = C.eval_atom(i, self.vals)
                    v = np.broadcast_to(np.asarray(v, dtype=float), (NPOOL,)).copy()
                self.exact.append(ex)
                self.vals.append(v)

    def _input(self, a):
        gen = (a.data or {}).get('gen')
        if gen is not None:
            return [gen(self.rng, k) for k in range(NPOOL)]
        out = []
        for k in range(NPOOL):
            x = self._rand(k)
            if a.isint:
                x = Fraction(int(x))
            if a.nonneg:
                x = abs(x)
            out.append(x)
        return out

    def put(self, ins, pc):
        """Keep a solver model as a sample."""
        dead = np.flatnonzero(~self.alive)
        dead = dead[dead % 4 == 3]
        if not len(dead):
            return
        k = dead[self.next % len(dead)]
        self.next += 1
        self.made[k] = True
        with np.errstate(all='ignore'):
            one = []
            for i, a in enumerate(C.S.atoms):
                if self.exact[i] is not None:
                    self.exact[i][k] = ins[i]
                    v = float(ins[i])
                    one.append(np.array([v]))
                else:
                    v = C.eval_atom(i, one if one else [np.zeros(1)])
                    one.append(np.broadcast_to(np.asarray(v, dtype=float), (1,)))
                self.vals[i][k] = one[i][0]
            self.alive[k] = all(self._truth(x, one, 1)[0] > 0 for x in pc)

    def truth(self, x):
        """+1 certainly true, -1 certainly false, 0 unclear -- per sample."""
        with np.errstate(all='ignore'):
            return self._truth(x, self.vals, NPOOL)

    def _truth(self, x, vals, n):
        if x.op == 'c':
            return np.full(n, 1 if x.args[0] else -1)
        if x.op == 'r':
            mask, polys = x.args
            v = np.ones(n)
            mag = np.ones(n)
            for p in polys:
                pv, pm = self.pval(p, vals, n)
                v = v * pv
                mag = mag * pm
            tol = 1e-10 * mag + 1e-300
            pos, neg = v > tol, v < -tol
            zero = ~(pos | neg)
            bad = ~np.isfinite(v)
            r = np.where(pos, 1 if mask & POS else -1, np.where(neg, 1 if mask & NEG else -1, 0))
            # near zero: exact when magnitude is tiny/integers
            r = np.where(zero, np.where(np.abs(v) <= 1e-13 * mag, 2 if mask & ZERO else -2, 0), r)
            r[bad] = 0
            return r
        if x.op == 'not':
            return -self._truth(x.args[0], vals, n)
        rs = [self._truth(y, vals, n) for y in x.args[0]]
        if x.op == 'and':
            return np.minimum.reduce(rs) if rs else np.full(n, 1)
        return np.maximum.reduce(rs)

    def pval(self, p, vals, n):
        v = np.zeros(n)
        mag = np.zeros(n)
        for m, c in p.items():
            t = np.full(n, float(c))
            for i, e in P.exps(m):
                t = t * (vals[i] if e == 1 else vals[i] ** e)
            v = v + t
            mag = mag + np.abs(t)
        return v, mag

    def add(self, x):
        if not self.alive.any():
            return
        t = self.truth(x)
        self.alive &= t > 0

    def feasible(self, x):
        """Some living sample satisfies x."""
        if not self.alive.any():
            return False
        return bool((self.alive & (self.truth(x) > 0)).any())


class Outcome(object):
    pass


class Engine(object):
    def __init__(self, seed=1, deadline=None, qt=2.0, pt=8.0, max_paths=2000):
        self.stats = Stats()
        self.deadline = deadline
        self.qt = qt            # feasibility query timeout (s)
        self.pt = pt            # proof obligation timeout (s)
        self.seed = seed
        self.max_paths = max_paths
        self.facts = {}
        self.feas_cache = {}
        self.abstraction = Abstraction()
        self.confirm_s = 0.0
        self.confirm_budget = 5.0
        self.cex_test = None
        self.search_s = 0.0
        self.search_budget = 20.0
        self.pool = None
        self.begin(())

    # -- per path state
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.trail = []
        self.pc = []
        self.facts = {}
        if self.pool is None:
            self.pool = Pool(self.seed)
        self.pool.alive[:] = True
        self.model = {}
        self.npending = 0

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise C.Deadline()

    # -- constraints
    def record(self, x):
        x0 = x
        if x.op == 'c':
            return
        if x.op == 'and':
            for y in x.args[0]:
                self.record(y)
            return
        if x.op == 'not':
            y = x.args[0]
            if y.op == 'or':
                for z in y.args[0]:
                    self.record(C.sb_not(z))
                return
        if x.op == 'r':
            mask, polys = x.args
            if len(polys) == 1:
                k = C.fkey(polys[0])
                # a square-free sqrt atom etc. is handled by sb_rel
            else:
                k = tuple(C.fkey(p) for p in polys)
            self.facts[k] = self.facts.get(k, 7) & mask
            if len(polys) == 1 and len(polys[0]) == 1:
                (m, c), = polys[0].items()
                ex = P.exps(m)
                if mask & ZERO == 0:
                    for i, e in ex:
                        kk = ((1 << (P.B * i), 1),)
                        self.facts[kk] = self.facts.get(kk, 7) & (NEG | POS)
        self.pc.append(x0)
        self.pool.sync()
        al = np.flatnonzero(self.pool.alive)
        if len(al):
            self.pool.add(x0)
            if not self.pool.alive.any():
                # the starting point for completing solver models
                self.model = self.sample_inputs(al[0])

    def assume(self, x):
        x = C.as_sb(x)
        v = C.value_of(x)
        if v is True:
            return
        if v is False:
            raise C.PathAbort()
        self.record(x)
        self._assumed = True

    def fork(self, x):
        self.tick()
        n = len(self.trail)
        if n < len(self.prefix):
            d = self.prefix[n]
            if d[0] != 'b':
                raise C.EngineLimit('non-deterministic replay')
            self.trail.append(d)
            self.record(x if d[1] else C.sb_not(x))
            return d[1]
        nx = C.sb_not(x)
        self.pool.sync()
        ft = self.pool.feasible(x)
        ff = self.pool.feasible(nx)
        if ft:
            self.stats.feas_pool += 1
        if ff:
            self.stats.feas_pool += 1
        if not ft:
            ft = self.check_feasible(x)
        if not ff:
            ff = self.check_feasible(nx)
        if not ft and not ff:
            raise C.PathAbort()
        if ft and ff:
            self.trail.append(('b', True, True))
            self.record(x)
            return True
        self.trail.append(('b', ft, False))
        self.record(x if ft else nx)
        return ft

    def check_feasible(self, x):
        r, m = self.solve(x, self.qt, quick=True)
        if m is not None:
            self.learn(m)
        return r != 'unsat'

    def learn(self, m):
        if any(C.S.atoms[i].isint and v.denominator != 1 for i, v in m.items()):
            return
        self.model.update(m)
        self.pool.sync()
        self.pool.put(self.complete(self.model), self.pc)

    def enumerate_int(self, x):
        """Fork over the integer values of SR x."""
        for _ in range(24):
            n = len(self.trail)
            if n < len(self.prefix):
                d = self.prefix[n]
                if d[0] != 'i':
                    raise C.EngineLimit('non-deterministic replay')
                v = d[1]
            else:
                v = self.candidate(x)
                if v is None:
                    raise C.PathAbort()
            self.trail.append(('i', v, False))
            if bool(C.compare(x, SR.const(v), ZERO)):
                return v
        raise C.EngineLimit('too many integer values')

    def candidate(self, x):
        self.pool.sync()
        if self.pool.alive.any():
            with np.errstate(all='ignore'):
                v = C.sreval(x, self.pool.vals)
            vals = sorted(set(int(round(t)) for t in v[self.pool.alive] if np.isfinite(t)))
            if vals:
                return vals[0]
        r, m = self.solve(C.TRUE, self.qt, want=x)
        if r == 'unsat':
            return None
        if m is None:
            raise C.EngineLimit('no model to concretise an integer')
        return int(m)

    # -- solver
    def slice(self, target):
        atoms = C.closure(C.sb_atoms(target))
        used = [False] * len(self.pc)
        sets = [C.closure(C.sb_atoms(c)) for c in self.pc]
        changed = True
        piatom = C.S.bykey.get('pi')
        pi = {piatom.idx} if piatom is not None else set()
        while changed:
            changed = False
            for k, s in enumerate(sets):
                if not used[k] and (s - pi) & atoms:
                    used[k] = True
                    if not s <= atoms:
                        atoms |= s
                    changed = True
        return [c for k, c in enumerate(self.pc) if used[k]], atoms

    def solve(self, x, timeout, quick=False, want=None, extra=(), full=False, plans=None):
        """PC and x: -> (verdict, model).  model: {input idx: Fraction} or the value
        of SR `want`."""
        self.tick()
        if full or want is not None:
            pc = list(self.pc)
            atoms = C.closure(set().union(*[C.sb_atoms(c) for c in pc + [x]]) |
                              (set(P.atoms_of(want.num)) if want is not None else set()))
        else:
            pc, atoms = self.slice(x)
        key = None
        if quick:
            key = (repr_sb(x), frozenset(repr_sb(c) for c in pc))
            if key in self.feas_cache:
                return self.feas_cache[key], None
        if want is None and not extra:
            t0 = time.time()
            v = self.abstraction.check(pc + [x])
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            b = self.stats.by
            b['linear:' + v] = b.get('linear:' + v, 0) + 1
            if v == 'unsat':
                self.stats.unsat += 1
                if key is not None:
                    self.feas_cache[key] = v
                return v, None
        cons = [C.zsb(c) for c in pc]
        if x.op != 'c' or not x.args[0]:
            cons.append(C.zsb(x))
        for i in sorted(atoms):
            cons.extend(C.zdef(i))
        cons.extend(extra)
        verdict, model = self.portfolio(cons, timeout, quick, plans)
        if key is not None:
            self.feas_cache[key] = verdict
        if verdict == 'sat' and model is not None:
            if want is not None:
                return verdict, _zfrac(model.eval(C.zpoly(want.num), model_completion=True))
            res = {}
            for i in atoms:
                a = C.S.atoms[i]
                if a.is_input or a.kind in ('unit', 'cos', 'sin'):
                    res[i] = _zfrac(model.eval(C.zatom(i), model_completion=True))
            return verdict, res
        return verdict, None

    def portfolio(self, cons, timeout, quick=False, plans=None):
        plans = plans or [('z3', 0.5), ('nlsat', 1.0)] if quick else \
            [('z3', 0.35), ('nlsat', 1.0), ('z3alt', 0.6), ('cvc5', 0.8)]
        for name, frac in plans:
            t = max(0.2, timeout * frac)
            if self.deadline is not None:
                t = min(t, max(0.2, self.deadline - time.time()))
            t0 = time.time()
            v, m = _run(name, cons, int(t * 1000))
            dt = time.time() - t0
            self.stats.queries += 1
            self.stats.solver_s += dt
            b = self.stats.by
            b[name + ':' + v] = b.get(name + ':' + v, 0) + 1
            if LOG and dt > 0.5:
                import sys
                sys.stderr.write('SLOW %s %s %.1fs cons=%d\n' % (name, v, dt, len(cons)))
                if LOG == '2':
                    sys.stderr.write('\n'.join(str(z3.simplify(c))[:300] for c in cons) + '\n')
            if v != 'unknown':
                if v == 'sat':
                    self.stats.sat += 1
                else:
                    self.stats.unsat += 1
                return v, m
            self.tick()
        self.stats.unknown += 1
        return 'unknown', None

    # -- witnesses / counterexamples
    def sample_inputs(self, k):
        """Exact inputs of pool sample k."""
        return {i: self.pool.exact[i][k] for i, a in enumerate(C.S.atoms)
                if self.pool.exact[i] is not None}

    def guided(self, x, k, timeout=1.5):
        """Solver verdict for PC and x with the inputs fixed to sample k."""
        self.pool.sync()
        extra = []
        ins = self.sample_inputs(k)
        for i, v in ins.items():
            extra.append(C.zatom(i) == z3.Q(v.numerator, v.denominator))
        for i, a in enumerate(C.S.atoms):
            if a.kind in ('cos', 'sin'):
                v = self.pool.vals[i][k]
                lo, hi = Fraction(v - 1e-9), Fraction(v + 1e-9)
                extra += [C.zatom(i) >= z3.Q(lo.numerator, lo.denominator),
                          C.zatom(i) <= z3.Q(hi.numerator, hi.denominator)]
        atoms = set(ins)
        r, _m = self.solve(x, timeout, extra=extra, full=True)
        return r, ins

    def witness(self):
        """Inputs satisfying the path condition (dict idx->Fraction) or None."""
        self.pool.sync()
        al = np.flatnonzero(self.pool.alive)
        if len(al):
            # prefer generic samples (k%4 == 3, 2)
            al = sorted(al, key=lambda k: (self.pool.made[k], -(k % 4), k))
            return self.sample_inputs(al[0])
        r, m = self.solve(C.TRUE, self.pt, full=True)
        if r == 'unsat':
            raise C.PathAbort()
        if m is None:
            return None
        return self.complete(m)

    def complete(self, m, sample=3):
        """Fill in unconstrained inputs of a solver model from sample 3."""
        self.pool.sync()
        out = {}
        for i, a in enumerate(C.S.atoms):
            if self.pool.exact[i] is not None:
                out[i] = m[i] if i in m else self.pool.exact[i][sample]
        # unit groups must be taken wholesale
        for i, a in enumerate(C.S.atoms):
            if a.kind == 'unit' or (a.is_input and (a.data or {}).get('group')):
                g = a.data['group']
                if not all(j in m for j in g):
                    if any(j in m for j in g):
                        # partial: recompute the dependent component
                        pass
                    else:
                        for j in g:
                            out[j] = self.pool.exact[j][sample]
        # input angles: consistent with their cos/sin
        for i, a in enumerate(C.S.atoms):
            if a.kind == 'cos' and i in m:
                s = C.S.bykey.get(('sin',) + a.key[1:])
                ang = a.data
                if s is None or ang.den or len(ang.num) != 1:
                    continue
                (mm, c), = ang.num.items()
                ex = [(j, e) for j, e in P.exps(mm)]
                scale = float(c) / ang.cden
                tgt = None
                for j, e in ex:
                    if C.S.atoms[j].kind == 'pi':
                        scale *= math.pi ** e
                    elif C.S.atoms[j].is_input and e == 1 and tgt is None:
                        tgt = j
                    else:
                        tgt = -1
                if tgt is None or tgt < 0:
                    continue
                th = math.atan2(float(m.get(s.idx, 0)), float(m[i])) / scale
                cur = float(out[tgt])
                per = abs(2 * math.pi / scale)
                if C.S.atoms[tgt].nonneg and th <= 0:
                    th += per
                k = round((cur - th) / per)
                cand = th + k * per
                if not (C.S.atoms[tgt].nonneg and cand <= 0):
                    th = cand
                out[tgt] = Fraction(th)
        return out

    def confirm(self, goal, neg, raw):
        """The normaliser or recorded facts already decide the goal.  Put the
        un-normalised statement to the solver as well (bounded effort)."""
        by = self.stats.by
        if raw is not None and self.confirm_s < self.confirm_budget:
            t0 = time.time()
            a, b = raw
            dens = list(a.den) + list(b.den)
            lhs, rhs = C.zpoly(a.num) * C.zden(b.cden, b.den), C.zpoly(b.num) * C.zden(a.cden, a.den)
            atoms = set(P.atoms_of(a.num)) | set(P.atoms_of(b.num))
            for f, _ in dens:
                atoms.update(P.atoms_of(C.S.factors[f]))
            cons = [z3.Not(lhs == rhs)]
            for i in sorted(C.closure(atoms)):
                cons.extend(C.zdef(i))
            v, _m = _run('z3', cons, 300)
            if v == 'unknown':
                v, _m = _run('nlsat', cons, 300)
            if v == 'sat':
                # the rewriting may rest on facts of the path
                cons += [C.zsb(c) for c in self.pc]
                at2 = C.closure(set().union(*[C.sb_atoms(c) for c in self.pc]) | atoms) if self.pc else atoms
                for i in sorted(at2):
                    cons.extend(C.zdef(i))
                for f, _e in dens:
                    cons.append(C.zpoly(C.S.factors[f]) != 0)
                v, _m = _run('z3', cons, 2000)
                if v == 'unknown':
                    v, _m = _run('nlsat', cons, 4000)
            dt = time.time() - t0
            self.confirm_s += dt
            self.stats.queries += 1
            self.stats.solver_s += dt
            by['confirm:' + v] = by.get('confirm:' + v, 0) + 1
            if v == 'unsat':
                self.stats.unsat += 1
                return 'unsat', []
            if v == 'sat':
                self.stats.sat += 1
                return 'unknown', []       # normaliser and solver disagree: never claim it
        else:
            x = goal if goal.op != 'c' else None
            if x is not None and self.confirm_s < self.confirm_budget:
                t0 = time.time()
                v, _m = self.solve(neg, 0.4, quick=True)
                self.confirm_s += time.time() - t0
                by['confirm:' + v] = by.get('confirm:' + v, 0) + 1
                if v == 'unsat':
                    return 'unsat', []
        self.stats.unsat += 1
        by['rewritten'] = by.get('rewritten', 0) + 1
        return 'unsat', []

    def tidy(self, neg, raw=None):
        """Counterexamples on integers and quarters."""
        out = []
        atoms = C.closure(set().union(*[C.sb_atoms(c) for c in self.pc + [neg]]))
        ins = [i for i in atoms if (C.S.atoms[i].is_input or C.S.atoms[i].kind == 'unit')]
        for den, lim in ((1, 6), (4, 64)):
            extra = []
            for i in ins:
                k = z3.Int('tidy!%d' % i)
                d = 1 if C.S.atoms[i].kind == 'unit' else den
                extra += [C.zatom(i) * d == (z3.ToReal(k) if not z3.is_int(C.zatom(i)) else k), k <= lim, k >= -lim]
            r, m = self.solve(neg, 3.0, extra=extra, full=True, plans=[('z3', 1.0)])
            if r == 'sat' and m is not None:
                out.append(self.complete(m, 0))
        return out

    def apart(self, raw, th):
        a, b = raw
        return C.compare((a - b) * (a - b), (b * b + 1) * SR.const(th), C.POS)

    def clear(self, neg, raw):
        """Counterexamples to an equation where the sides differ by enough to show in
        floating point."""
        if raw is None:
            return []
        try:
            for th in (Fraction(1, 100), Fraction(1, 10 ** 6)):
                r, m = self.solve(self.apart(raw, th), 2.0, full=True, plans=[('z3', 1.0), ('nlsat', 1.0)])
                if r == 'sat' and m is not None:
                    return [self.complete(m)]
                if r == 'unknown':
                    break
        except C.EngineLimit:
            pass
        return []

    def block(self, neg, raw):
        """The same with all inputs but one array fixed to those of a sample."""
        x = neg
        if raw is not None:
            try:
                x = self.apart(raw, Fraction(1, 100))
            except C.EngineLimit:
                pass
        self.pool.sync()
        al = [k for k in np.flatnonzero(self.pool.alive)]
        res = []
        zeros = {k: sum(1 for v in self.sample_inputs(k).values() if v == 0) for k in al if k % 4 == 0}
        al = sorted(zeros, key=lambda k: -zeros[k])[:2]
        pre = {}
        for i, a in enumerate(C.S.atoms):
            if a.is_input:
                pre.setdefault(a.name.split('_')[0].rstrip('0123456789'), []).append(i)
        for k in al:
            ins = self.sample_inputs(k)
            for g, free in sorted(pre.items()):
                extra = [C.zatom(i) == z3.Q(v.numerator, v.denominator) for i, v in ins.items() if i not in free]
                extra += [z3.And(C.zatom(i) <= 16, C.zatom(i) >= -16) for i in free]
                r, m = self.solve(x, 1.0, extra=extra, full=True, plans=[('nlsat', 1.0), ('z3', 0.5)])
                if r == 'sat' and m is not None:
                    out = dict(ins)
                    out.update({i: m[i] for i in free if i in m})
                    res.append(out)
            if res:
                break
        return res

    def prove(self, goal, timeout=None, raw=None, test=None):
        """-> ('unsat', []) | ('sat', [inputs...]) | ('unknown', []) | ('shown', []) when
        test(candidates) says that one of them fails on the real code."""
        timeout = timeout or self.pt
        goal = C.as_sb(goal)
        v = C.value_of(goal)
        neg = C.sb_not(goal)
        if v is True:
            return self.confirm(goal, neg, raw)
        cexs = []
        self.pool.sync()
        if self.pool.alive.any():
            t = self.pool.truth(neg)
            bad = np.flatnonzero(self.pool.alive & (t > 0))
            bad = [k for k in bad if k % 4 in (0, 1)][:2] + [k for k in bad if k % 4 in (2, 3)][:2]
            for k in bad:
                r, ins = self.guided(neg, k)
                if r == 'sat':
                    cexs.append(ins)
        if not cexs:
            r, m = self.solve(neg, timeout)
            if r != 'sat':
                return r, []
            if m is not None:
                r2, m2 = self.solve(neg, timeout, full=True)
                if r2 == 'unsat':
                    return 'unsat', []
                cexs.append(self.complete(m2 if m2 is not None else m))
        if test is None:
            return 'sat', cexs
        if test(cexs):
            return 'shown', []
        # the counterexamples found are within rounding, or hinge on an exact tie:
        # look for ones which show on the real code
        for more in (self.clear, self.block, self.tidy):
            if self.search_s > self.search_budget:
                break
            t0 = time.time()
            new = more(neg, raw)
            self.search_s += time.time() - t0
            if new and test(new):
                return 'shown', []
            cexs += new
        return 'sat', cexs


class Abstraction(object):
    """Sound-for-unsat relaxation: monomials become independent variables, a product
    of polynomials is known only through the signs of its factors.  The translation of
    a condition is kept for later queries."""

    def __init__(self):
        self.mv, self.bounds, self.pv, self.cv = {}, {}, {}, {}

    def mono(self, m):
        v = self.mv.get(m)
        if v is None:
            v = self.mv[m] = z3.Real('m!%d' % len(self.mv))
        return v

    def bound(self, m):
        k = C.mono_mask(m)
        key = (m, k)
        if key not in self.bounds:
            v = self.mono(m)
            if k == POS:
                e = v > 0
            elif not k & NEG:
                e = v >= 0
            elif not k & POS:
                e = v <= 0 if k & ZERO else v < 0
            elif not k & ZERO:
                e = v != 0
            else:
                e = None
            self.bounds[key] = e
        return self.bounds[key]

    def poly(self, p, k):
        r = self.pv.get(k)
        if r is None:
            terms = [z3.RealVal(c) * self.mono(m) if m else z3.RealVal(c) for m, c in p.items()]
            e = z3.Sum(*terms) if len(terms) > 1 else terms[0]
            i = len(self.pv)
            pos, neg = z3.Bool('p!%d' % i), z3.Bool('n!%d' % i)
            r = self.pv[k] = (pos, neg, (pos == (e > 0), neg == (e < 0)), [m for m in p if m])
        return r

    def conv(self, x):
        """-> (formula, keys of the polynomials in it)"""
        if x.op == 'c':
            return z3.BoolVal(x.args[0]), ()
        if x.op == 'r':
            mask, polys = x.args
            keys = tuple(C.fkey(p) for p in polys)
            r = self.cv.get((mask, keys))
            if r is not None:
                return r
            pos, neg = self.poly(polys[0], keys[0])[:2]
            for q, k in zip(polys[1:], keys[1:]):
                p2, n2 = self.poly(q, k)[:2]
                pos, neg = z3.Or(z3.And(pos, p2), z3.And(neg, n2)), z3.Or(z3.And(pos, n2), z3.And(neg, p2))
            alts = []
            if mask & POS:
                alts.append(pos)
            if mask & NEG:
                alts.append(neg)
            if mask & ZERO:
                alts.append(z3.And(z3.Not(pos), z3.Not(neg)))
            r = (z3.Or(*alts) if alts else z3.BoolVal(False), keys)
            self.cv[mask, keys] = r
            return r
        key = id(x)
        r = self.cv.get(key)
        if r is not None:
            return r[:2]
        if x.op == 'not':
            e, ks = self.conv(x.args[0])
            e = z3.Not(e)
        else:
            ys = [self.conv(y) for y in x.args[0]]
            es = [y[0] for y in ys]
            e = z3.And(*es) if x.op == 'and' else z3.Or(*es)
            ks = set().union(*[y[1] for y in ys])
        self.cv[key] = (e, ks, x)        # x kept, so that its id stays taken
        return e, ks

    def check(self, cs, ms=600):
        try:
            s = z3.Solver()
            s.set('timeout', ms)
            fs, keys, monos = [], set(), set()
            for c in cs:
                e, ks = self.conv(c)
                fs.append(e)
                keys.update(ks)
            out = []
            for k in keys:
                _p, _n, defs, ms_ = self.pv[k]
                out.extend(defs)
                monos.update(ms_)
            for m in monos:
                b = self.bound(m)
                if b is not None:
                    out.append(b)
            s.add(*out)
            s.add(*fs)
            return str(s.check())
        except z3.Z3Exception:
            return 'unknown'


def repr_sb(x):
    if x.op == 'c':
        return x.args[0]
    if x.op == 'r':
        return ('r', x.args[0], tuple(C.fkey(p) for p in x.args[1]))
    if x.op == 'not':
        return ('n', repr_sb(x.args[0]))
    return (x.op, tuple(repr_sb(y) for y in x.args[0]))


def _zfrac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


def _run(name, cons, ms):
    try:
        if name == 'cvc5':
            return _run_cvc5(cons, ms)
        if name == 'z3':
            s = z3.Solver()
            s.set('timeout', ms)
        elif name == 'z3alt':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            s.set('timeout', ms)
        else:
            s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr',
                        'simplify', 'qfnra-nlsat').solver()
            s.set('timeout', ms)
        s.add(*cons)
        dog = threading.Timer(ms / 1000.0 + 1.0, z3.main_ctx().interrupt)
        dog.daemon = True
        dog.start()
        try:
            r = s.check()
        finally:
            dog.cancel()
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
    except z3.Z3Exception:
        pass
    return 'unknown', None


def _run_cvc5(cons, ms):
    """cvc5 in a child process that is killed at the time limit."""
    s = z3.Solver()
    s.add(*cons)
    text = '(set-logic ALL)\n' + '\n'.join(
        l for l in s.to_smt2().splitlines() if not l.startswith('(set-') and not l.startswith(';')
        and not l.startswith('(check-sat'))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, _cvc5_child(text, ms))
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    try:
        rd, _, _ = select.select([r], [], [], ms / 1000.0 + 1.0)
        if rd:
            out = os.read(r, 16)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    # no model transfer: a sat answer is left to the guided queries
    return ('unsat', None) if out == b'unsat' else ('unknown', None)


def _cvc5_child(text, ms):
    try:
        import cvc5
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(ms))
        slv.setOption('nl-cov', 'true')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            if '(error' in str(cmd.invoke(slv, sm)):
                return b'unknown'
        r = slv.checkSat()
        return b'unsat' if r.isUnsat() else b'sat' if r.isSat() else b'unknown'
    except Exception:       # noqa
        return b'unknown'


def explore(eng, fn, on_path):
    """Run fn on every feasible path.  on_path(kind, payload) is called at the end
    of each path; kind in ok/exception/limit."""
    work = [()]
    npaths = 0
    complete = True
    while work:
        prefix = work.pop()
        if npaths >= eng.max_paths:
            complete = False
            break
        eng.begin(prefix)
        C.ENG = eng
        try:
            try:
                res = fn()
                on_path('ok', res)
            except C.PathAbort:
                on_path('abort', None)
                npaths -= 1
            except (C.EngineLimit, P.TooBig) as e:
                complete = False
                on_path('limit', e)
            except C.Deadline:
                complete = False
                on_path('deadline', None)
                break
            except Exception as e:      # noqa: BLE001
                on_path('exception', e)
        except C.Deadline:
            complete = False
            on_path('deadline', None)
            break
        except C.PathAbort:
            pass
        finally:
            C.ENG = None
        npaths += 1
        t = eng.trail
        for k in range(len(t) - 1, len(prefix) - 1, -1):
            if t[k][0] == 'b' and t[k][2]:
                work.append(tuple(t[:k]) + (('b', not t[k][1], False),))
    return npaths, complete
