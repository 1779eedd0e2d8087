"""Feasibility queries: constraint slicing, model reuse, z3 with a cvc5 fallback."""
import time, subprocess, os, random
import z3
from expr import E, ev, toz, tmask


_zv = {}


def zvar(n):
    x = _zv.get(n)
    if x is None:
        x = _zv[n] = z3.BitVec('b%d' % n, 8)
    return x


class Unknown(Exception):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.time = 0.0
        self.maxq = 0.0
        self.cached = 0
        self.fallback = 0
        self.retry = 0
        self.table = 0
        self.crosschecked = 0
        self.guessed = 0


class Solver(object):
    def __init__(self, timeout_ms=60000):
        self.st = Stats()
        self.timeout = timeout_ms
        self.cache = {}
        self.masks = {}
        self.inc = None
        self.xc = 0
        self.rng = random.Random(1)

    def mask(self, e):
        m = self.masks.get(e.id)
        if m is None:
            m = tmask(e)
            self.masks[e.id] = m if m is not None else -1
        return None if m == -1 else m

    def slice(self, cons, extra):
        vs = 0
        for x in extra:
            vs |= x.vars
        rest = cons
        out = []
        while True:
            nxt = []
            grew = False
            for c in rest:
                if c.vars & vs:
                    out.append(c)
                    if c.vars & ~vs:
                        vs |= c.vars
                        grew = True
                else:
                    nxt.append(c)
            rest = nxt
            if not grew:
                return out

    def check(self, cons, extra):
        """model dict if cons+extra is satisfiable (cons known satisfiable), else None"""
        ex = []
        for x in extra:
            if type(x) is int:
                if not x:
                    return None
                continue
            ex.append(x)
        if not ex:
            return {}
        sl = self.slice(cons, ex)
        vs = 0
        for x in ex:
            vs |= x.vars
        for x in sl:
            vs |= x.vars
        if vs & (vs - 1) == 0:
            m = (1 << 256) - 1
            for x in ex:
                k = self.mask(x)
                if k is None:
                    m = None
                    break
                m &= k
            if m is not None:
                for x in sl:
                    k = self.mask(x)
                    if k is None:
                        m = None
                        break
                    m &= k
            if m is not None:
                self.st.table += 1
                r = {vs.bit_length() - 1: (m & -m).bit_length() - 1} if m else None
                self.xc += 1
                if self.xc % 64 == 1:
                    # cross-check a sample of the table verdicts with z3
                    z = self.solve(sl + ex)
                    self.st.crosschecked += 1
                    if (z is None) != (r is None):
                        raise AssertionError('table verdict differs from z3: %r' % (sl + ex,))
                return r
        elif len(ex) == 1:
            # single-byte contradiction inside a larger slice
            v1 = ex[0].vars
            if v1 & (v1 - 1) == 0:
                m = self.mask(ex[0])
                if m is not None:
                    for x in sl:
                        if x.vars == v1:
                            k = self.mask(x)
                            if k is not None:
                                m &= k
                    if m == 0:
                        self.st.table += 1
                        return None
        key = frozenset([x.id for x in sl] + [-1 - x.id for x in ex])
        if key in self.cache:
            self.st.cached += 1
            return self.cache[key]
        r = self.guess(sl + ex, vs)
        if r is None:
            r = self.solve(sl + ex)
        self.cache[key] = r
        return r

    def guess(self, terms, vs):
        """a model of a big formula by evaluation, when a few random values happen to satisfy it"""
        if sum(t.sz for t in terms) < 20000:
            return None
        names = []
        while vs:
            names.append((vs & -vs).bit_length() - 1)
            vs &= vs - 1
        for _ in range(4):
            m = {n: self.rng.randrange(256) for n in names}
            memo = {}
            if all(ev(t, m, memo) for t in terms):
                self.st.guessed += 1
                return m
        return None

    def fresh(self):
        self.inc = z3.SolverFor('QF_BV')
        self.lits = {}

    def solve(self, terms):
        t0 = time.time()
        self.st.queries += 1
        vs = 0
        for x in terms:
            vs |= x.vars
        # persistent bit-vector solver, one assumption literal per constraint
        if self.inc is None or len(self.lits) > 4000:
            self.fresh()
        lits = self.lits
        inc = self.inc
        L = []
        for x in terms:
            p = lits.get(x.id)
            if p is None:
                p = z3.Bool('p!%d' % x.id)
                inc.add(z3.Implies(p, toz(x)))
                lits[x.id] = p
            L.append(p)
        inc.set('timeout', min(self.timeout, 3000))
        res = inc.check(*L)
        s = inc
        if res == z3.unknown:
            self.inc = None
            self.st.retry += 1
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.timeout)
            for x in terms:
                s.add(toz(x))
            res = s.check()
        if res == z3.unknown:
            self.st.fallback += 1
            r = self.cvc5(s, vs)
            if r is not None:
                self._acc(t0, r is not False)
                return None if r is False else r
            raise Unknown('no verdict within %d ms' % self.timeout)
        self._acc(t0, res == z3.sat)
        if res == z3.unsat:
            return None
        m = s.model()
        out = {}
        v = vs
        while v:
            n = (v & -v).bit_length() - 1
            x = m[zvar(n)]
            out[n] = x.as_long() if x is not None else 0
            v &= v - 1
        return out

    def _acc(self, t0, sat):
        dt = time.time() - t0
        self.st.time += dt
        if dt > self.st.maxq:
            self.st.maxq = dt
        if sat:
            self.st.sat += 1
        else:
            self.st.unsat += 1

    def cvc5(self, s, vs):
        txt = '(set-option :produce-models true)\n(set-logic QF_BV)\n' + s.to_smt2().replace('(check-sat)', '')
        names = []
        v = vs
        while v:
            names.append((v & -v).bit_length() - 1)
            v &= v - 1
        txt += '(check-sat)\n(get-value (%s))\n' % ' '.join('b%d' % n for n in names)
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--solve-bv-as-int=sum', '--tlimit=%d' % self.timeout],
                               input=txt, capture_output=True, text=True, timeout=self.timeout / 1000 + 10)
        except (subprocess.TimeoutExpired, OSError):
            return None
        out = p.stdout.strip()
        if out.startswith('unsat'):
            return False
        if out.startswith('sat'):
            import re
            r = {}
            for n, b in re.findall(r'\(b(\d+) #b([01]+)\)', out):
                r[int(n)] = int(b, 2)
            if all(n in r for n in names):
                return r
        return None
