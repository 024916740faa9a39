"""The model: a life is a finite Markov chain (alive -> alive | dead, one step per year); contracts are cash flows on paths.

Everything here is deliberately boring: values are obtained by enumerating every path of the chain and adding up the
discounted cash flows of that path.  No actuarial shortcut formula is used.
"""
import itertools, math
from functools import lru_cache

# 16-point Gauss-Legendre nodes on [0,1] (computed once; used only to integrate smooth payoffs within one year)
import numpy as _np
_xg, _wg = _np.polynomial.legendre.leggauss(16)
NODES = [(float((x + 1) / 2), float(w / 2)) for x, w in zip(_xg, _wg)]


class Chain:
    """rows[a - minage] = (q at duration 0, duration 1, ..., ultimate q) for attained age a; last age has q = 1."""

    def __init__(self, name, rows, minage=0, between="udd"):
        self.rows = [tuple(r) if isinstance(r, (tuple, list)) else (r,) for r in rows]
        self.minage, self.omega = minage, minage + len(self.rows)      # nobody is alive at age omega
        self.between, self.name = between, f"{name}/{between}" if between != "udd" else name
        self.nsel = max(len(r) for r in self.rows) - 1
        self._k = {}
        assert all(q == 1.0 for q in self.rows[-1])

    def __repr__(self):
        return self.name

    def q(self, x, s=0):
        a = x + s
        if a >= self.omega:
            return 1.0
        r = self.rows[a - self.minage]
        return r[min(s, len(r) - 1)]

    def paths(self, x, s=0, ck=None):
        """[(k, probability of dying in year k)] along every path of the chain started at [x]+s"""
        if (x, s) not in self._k:
            out, alive, k = [], 1.0, 0
            while alive > 0 and x + s + k < self.omega:
                qk = self.q(x, s + k)
                out.append((k, alive * qk))
                alive *= 1 - qk
                k += 1
            self._k[x, s] = out
            if ck is not None:
                for k, _ in out:
                    ck.visit(self.name, x, s, k)
                    ck.step(2)
        return self._k[x, s]

    def p(self, x, s, t):
        """probability of surviving t whole years: mass of the paths that die in year t or later"""
        if t <= 0:
            return 1.0
        return math.fsum(w for k, w in self.paths(x, s) if k >= t)

    # -- the law between integer ages
    def S(self, x, s, t):
        if t < 0:
            raise ValueError("negative duration")
        if t == 0:
            return 1.0
        s0, r0 = _split(s)
        if r0:                       # fractional duration: condition on having reached it
            base = self.S(x, s0, r0)
            return self.S(x, s0, r0 + t) / base if base else 0.0
        k, r = _split(t)
        pk = self.p(x, s0, k)
        if r == 0 or pk == 0:
            return pk
        q = self.q(x, s0 + k)
        if self.between == "udd" or q == 1.0:
            return pk * (1 - r * q)
        return pk * (1 - q) ** r

    def f(self, x, s, t):
        """density at t (right-continuous at integer ages)"""
        s0, r0 = _split(s)
        if r0:
            base = self.S(x, s0, r0)
            return self.f(x, s0, r0 + t) / base if base else 0.0
        k, r = _split(t)
        pk = self.p(x, s0, k)
        if pk == 0:
            return 0.0
        q = self.q(x, s0 + k)
        if self.between == "udd" or q == 1.0:
            return pk * q
        m = -math.log(1 - q)
        return pk * (1 - q) ** r * m

    def l(self, x, s):
        return 1000.0 * self.S(x, 0, s)

    def mu(self, x, t):
        return self.f(x, 0, t) / self.S(x, 0, t) if self.S(x, 0, t) else 0.0

    # -- expectations
    def EK(self, x, s, g, ck=None):
        """E[g(K)] over every year of death"""
        return math.fsum(w * g(k) for k, w in self.paths(x, s, ck) if w)

    def VK(self, x, s, g, ck=None):
        m = self.EK(x, s, g, ck)
        return math.fsum(w * (g(k) - m) ** 2 for k, w in self.paths(x, s, ck) if w)

    def ET(self, x, s, g, ck=None):
        """E[g(T)] with the density integrated within each year of death"""
        out = []
        for k, w in self.paths(x, s, ck):
            if w:
                for z, h in NODES:
                    out.append(h * self.f(x, s, k + z) * g(k + z))
        return math.fsum(out)

    def VT(self, x, s, g, ck=None):
        m = self.ET(x, s, g, ck)
        return self.ET(x, s, lambda t: (g(t) - m) ** 2, ck)

    def Em(self, x, s, g, m, ck=None):
        """E[g(J)] where the year of death is refined to the 1/m-year j of death (j = floor(m T))"""
        out = []
        for k, w in self.paths(x, s, ck):
            if w:
                for h in range(m):
                    a, b = k + h / m, k + (h + 1) / m
                    pr = self.S(x, s, a) - (self.S(x, s, b) if h < m - 1 else self.p(x, s, k + 1))
                    out.append(pr * g(k * m + h))
        return math.fsum(out)

    def Vm(self, x, s, g, m, ck=None):
        mu = self.Em(x, s, g, m, ck)
        return self.Em(x, s, lambda j: (g(j) - mu) ** 2, m, ck)

    def starts(self, smax=2):
        """every reachable [x]+s"""
        return [(x, s) for x in range(self.minage, self.omega) for s in range(0, smax + 1) if x + s < self.omega]


def _split(t):
    k = math.floor(t + 1e-12)
    r = t - k
    return int(k), (0.0 if r < 1e-12 else r)


WHOLE = -999


# ---- cash flows on a path, discrete: k = whole years survived before the year of death
def ins(v, t=WHOLE, u=0, b=lambda j: 1.0, endow=0.0):
    """pays b(j) at the end of year j = k+1 if u <= k < u+t; pays endow at u+t if alive then"""
    def g(k):
        if k < u:
            return 0.0
        if t == WHOLE or k < u + t:
            return b(k + 1) * v ** (k + 1)
        return endow * v ** (u + t)
    return g


def pure(v, t, endow=1.0):
    return lambda k: endow * v ** t if k >= t else 0.0


def ann(v, t=WHOLE, u=0, b=lambda j: 1.0, certain=0):
    """pays b(j) at the start of year j for each j in [u, u+t) entered alive, and for each j < certain regardless"""
    def g(k):
        tot = [b(j) * v ** j for j in range(certain)]
        j = u
        while j <= k and (t == WHOLE or j < u + t):
            tot.append(b(j) * v ** j)
            j += 1
        return math.fsum(tot)
    return g


# ---- continuous
def insT(v, t=WHOLE, u=0, b=lambda r: 1.0, endow=0.0):
    def g(T):
        if T < u:
            return 0.0
        if t == WHOLE or T < u + t:
            return b(T) * v ** T
        return endow * v ** (u + t)
    return g


def abar(v, a, b, pay=lambda r: 1.0):
    """integral of pay(r) v^r over [a, b], year by year"""
    tot, lo = [], a
    while lo < b - 1e-15:
        hi = min(math.floor(lo + 1e-12) + 1, b)
        for z, h in NODES:
            r = lo + (hi - lo) * z
            tot.append(h * (hi - lo) * pay(r) * v ** r)
        lo = hi
    return math.fsum(tot)


def annT(v, t=WHOLE, u=0, b=lambda r: 1.0, certain=0.0):
    def g(T):
        top = T if t == WHOLE else min(T, u + t)
        return (abar(v, 0, certain, b) if certain else 0.0) + (abar(v, u, top, b) if top > u else 0.0)
    return g


# ---- worlds
D = (0.0, 0.25, 0.5)


def ultimates(thorough, minage=None, between="udd"):
    """bounded chains over four ages: every combination of the alphabet (thorough) or a covering subset (quick), first ages 0, 1, 2 in turn"""
    out = []
    for n, qs in enumerate(itertools.product(D, repeat=3)):
        if thorough or n in (2, 5, 7, 10, 14, 21, 22, 25):
            out.append(Chain("u" + "".join(str(int(4 * q)) for q in qs), list(qs) + [1.0], (2, 0, 1)[len(out) % 3] if minage is None else minage, between))
    out.append(Chain("u1", [0.25, 1.0, 1.0], 2 if minage is None else minage, between))
    if thorough:
        for qs in itertools.product((0.1, 0.3), (0.05, 0.6), (0.0, 0.2), (0.7,)):
            out.append(Chain("w" + "".join(f"{int(20 * q):x}" for q in qs), list(qs) + [1.0], 2 if minage is None else minage, between))
    return out


def selects(thorough, minage=None, between="udd"):
    """select chains: mortality depends on the duration since selection for one or two years; first ages 2, 0, 1 in turn"""
    alph = [((0.125, 0.25), (0.0, 0.5), (0.25, 0.25), (0.5, 0.75), (1.0, 1.0)),
            ((0.0, 0.125, 0.25), (0.25, 0.5, 0.375), (0.125, 0.0, 0.5), (0.5, 0.25, 0.75), (1.0, 1.0, 1.0))]
    if thorough:
        alph += [((0.5, 0.25), (0.25, 0.0), (0.75, 0.5), (1.0, 1.0)),
                 ((0.25, 0.0, 0.5), (0.0, 0.5, 0.25), (0.5, 0.5, 0.125), (0.125, 0.25, 0.5), (1.0, 1.0, 1.0)),
                 ((0.1, 0.2, 0.3), (0.15, 0.25, 0.35), (0.2, 0.4, 0.5), (0.3, 0.45, 0.6), (0.4, 0.5, 0.7), (1.0, 1.0, 1.0))]
    return [Chain(f"s{n}", rows, (2, 0, 1)[n % 3] if minage is None else minage, between) for n, rows in enumerate(alph)]


RATES = (0.0, 0.25, 0.06)
