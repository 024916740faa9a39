"""Facts and queries of the recursion engine, and what each is worth on a chain (used by C25, C26, C27)."""
import math
from actuarialmath import Recursion
from . import model as M

WHOLE, VAR = M.WHOLE, -2


class Truth:
    """every quantity of the alphabet, by enumerating the paths of one chain at one rate"""

    def __init__(self, ch, i):
        self.ch, self.i, self.v, self.memo = ch, i, 1 / (1 + i), {}

    def __repr__(self):
        return f"{self.ch}@{self.i}"

    def _of(self, x, g, m, discrete):
        E = (lambda f: self.ch.EK(x, 0, f)) if discrete else (lambda f: self.ch.ET(x, 0, f))
        if m == VAR:
            mean = E(g)
            return E(lambda k: (g(k) - mean) ** 2)
        return E(lambda k: g(k) ** m)

    def __call__(self, fact):
        if fact not in self.memo:
            kind, kw = fact[0], dict(fact[1:])
            self.memo[fact] = getattr(self, "v_" + kind)(**kw)
        return self.memo[fact]

    def v_p(self, x, t=1):
        return self.ch.p(x, 0, t) if t != WHOLE else 0.0

    def v_q(self, x, t=1, u=0):
        return self.v_p(x, u) - (self.v_p(x, t + u) if t != WHOLE else 0.0)

    def v_e(self, x, t=WHOLE, curtate=False, moment=1):
        return self._of(x, lambda k: k if t == WHOLE else min(k, t), moment, curtate)

    def v_E(self, x, t=1, endowment=1, moment=1):
        return 0.0 if t == WHOLE else self._of(x, M.pure(self.v, t, endowment), moment, True)

    def v_IA(self, x, t=WHOLE, b=1, discrete=True):
        g = M.ins if discrete else M.insT
        return self._of(x, g(self.v, t, b=lambda j: j * b), 1, discrete)

    def v_DA(self, x, t, b=1, discrete=True):
        g = M.ins if discrete else M.insT
        return self._of(x, g(self.v, t, b=lambda j: (t + discrete - j) * b), 1, discrete)

    def v_A(self, x, t=WHOLE, u=0, b=1, moment=1, endowment=0, discrete=True):
        g = M.ins if discrete else M.insT
        return self._of(x, g(self.v, t, u, lambda j: b, b if endowment < 0 else endowment), moment, discrete)

    def v_a(self, x, t=WHOLE, u=0, b=1, variance=False, discrete=True):
        g = M.ann if discrete else M.annT
        return self._of(x, g(self.v, t, u, lambda j: b), VAR if variance else 1, discrete)

    def v_imm(self, x, t=WHOLE, b=1):
        return self._of(x, M.ann(self.v, t, 1, lambda j: b), 1, True)


def F(kind, x, **kw):
    return (kind, ("x", x)) + tuple(sorted(kw.items()))


def setfact(life, fact, value, s=0):
    kw = dict(fact[1:])
    x = kw.pop("x")
    return getattr(life, "set_" + fact[0])(value, x - s, s=s, **kw)


def ask(life, fact, s=0):
    """the public query for a quantity, for a life selected s years before"""
    kw = dict(fact[1:])
    kind, x = fact[0], kw.pop("x") - s
    if kind in ("q", "p", "e", "E"):
        return getattr(life, kind + "_x")(x, s=s, **kw)
    if kind == "IA":
        return life.increasing_insurance(x, s=s, **kw)
    if kind == "DA":
        return life.decreasing_insurance(x, s=s, **kw)
    if kind == "imm":
        return life.immediate_annuity(x, s=s, **kw)
    t, u = kw.get("t", WHOLE), kw.get("u", 0)
    if t == WHOLE:
        kw.pop("t", None)
    if not u:
        kw.pop("u", None)
    if kind == "a":
        if u:
            return life.deferred_annuity(x, s=s, **kw)
        return life.whole_life_annuity(x, s=s, **kw) if t == WHOLE else life.temporary_annuity(x, s=s, **kw)
    if u:
        return life.deferred_insurance(x, s=s, **kw)
    if kw.get("endowment"):
        return life.endowment_insurance(x, s=s, **kw)
    kw.pop("endowment", None)
    return life.whole_life_insurance(x, s=s, **kw) if t == WHOLE else life.term_insurance(x, s=s, **kw)


def show(facts):
    return "; ".join(f[0] + "(" + ",".join(f"{k}={v}" for k, v in f[1:]) + ")" for f in facts)


def engine(truth, facts, s=0, depth=None, verbose=False):
    life = Recursion(verbose=verbose) if depth is None else Recursion(depth=depth, verbose=verbose)
    life.set_interest(i=truth.i)
    for f in facts:
        setfact(life, f, truth(f), s)
    return life


def relations(x, t, b=1, h=2):
    """(name, facts, query): one textbook relation each, on ages x.. with term t, benefit b and span h"""
    y, W = x + 1, WHOLE
    out = []

    def R(name, facts, query):
        out.append((name, facts, query))
        alt = [F("q", dict(f[1:])["x"], t=dict(f[1:])["t"]) if f[0] == "p" else f for f in facts]
        if alt != facts and query[0] != "q":
            out.append((name + "/q", alt, query))

    P = lambda x, t=1: F("p", x, t=t)
    n = t + 1
    less = lambda t: W if t == W else t - 1
    more = lambda t: W if t == W else t + 1
    if t != W:
        out.append(("complement", [P(x, t)], F("q", x, t=t)))
        out.append(("complement", [F("q", x, t=t)], P(x, t)))
        out.append(("deferred mortality", [P(x, h), F("q", x + h, t=t)], F("q", x, t=t, u=h)))
        out.append(("deferred mortality", [F("q", x, t=h), F("q", x, t=h + t)], F("q", x, t=t, u=h)))
        out.append(("deferred mortality", [P(x, h), P(x, h + t)], F("q", x, t=t, u=h)))
        R("chain", [P(x), P(y, t)], P(x, n))
        R("chain", [P(x, t), P(x + t)], P(x, n))
        R("chain back", [P(x), P(x, n)], P(y, t))
        R("chain back", [P(x + t), P(x, n)], P(x, t))
        R("temporary lifetime", [F("e", x), F("e", x + t), P(x, t)], F("e", x, t=t))
        R("temporary lifetime", [F("e", x, curtate=True), F("e", x + t, curtate=True), P(x, t)], F("e", x, t=t, curtate=True))
        for m, e in ((1, 1), (1, b + 1), (2, b + 1), (2, 1), (VAR, b)):
            R("pure endowment", [P(x, t)], F("E", x, t=t, endowment=e, moment=m))
            if m > 0:
                R("pure endowment", [F("A", x, t=t, b=e, moment=m), F("A", x, t=t, b=e, endowment=e, moment=m)], F("E", x, t=t, endowment=e, moment=m))
                R("pure endowment", [F("E", x, t=1, moment=m), F("E", y, t=t, moment=m)], F("E", x, t=n, moment=m, endowment=e))
            if m > 1:
                R("moments", [F("E", x, t=t)], F("E", x, t=t, endowment=e, moment=m))
        R("identity", [F("A", x, t=t), F("DA", x, t=t)], F("IA", x, t=t, b=b))
        R("identity", [F("A", x, t=t), F("IA", x, t=t)], F("DA", x, t=t, b=b))
        R("identity", [F("A", x, t=t, discrete=False), F("DA", x, t=t, discrete=False)], F("IA", x, t=t, b=b, discrete=False))
        R("identity", [F("A", x, t=t, discrete=False), F("IA", x, t=t, discrete=False)], F("DA", x, t=t, b=b, discrete=False))
        R("backward", [P(x), F("DA", y, t=t)], F("DA", x, t=n, b=b))
        for m in (1, 2):
            for e in (b, b + 2):
                for d in (True, False):
                    R("term + pure", [F("A", x, t=t, moment=m, discrete=d), F("E", x, t=t, moment=m)], F("A", x, t=t, b=b, endowment=e, moment=m, discrete=d))
            for d in (True, False):
                R("endowment - pure", [F("A", x, t=t, endowment=1, moment=m, discrete=d), F("E", x, t=t, moment=m)], F("A", x, t=t, b=b, moment=m, discrete=d))
                R("split", [F("A", x, moment=m, discrete=d), F("E", x, t=t, moment=m), F("A", x + t, moment=m, discrete=d)], F("A", x, t=t, b=b, moment=m, discrete=d))
        for d in (True, False):
            R("variance", [F("A", x, t=t, discrete=d), F("A", x, t=t, moment=2, discrete=d)], F("A", x, t=t, b=b, moment=VAR, discrete=d))
            R("variance", [F("A", x, t=t, endowment=1, discrete=d), F("A", x, t=t, endowment=1, moment=2, discrete=d)], F("A", x, t=t, b=b, endowment=b, moment=VAR, discrete=d))
            R("twin variance", [F("A", x, t=t, endowment=1, discrete=d), F("A", x, t=t, endowment=1, moment=2, discrete=d)], F("a", x, t=t, b=b, variance=True, discrete=d))
            R("twin", [F("a", x, t=t, discrete=d)], F("A", x, t=t, b=b, endowment=b, discrete=d))
            R("twin", [F("A", x, t=t, endowment=1, discrete=d)], F("a", x, t=t, b=b, discrete=d))
            R("split", [F("a", x, discrete=d), F("E", x, t=t), F("a", x + t, discrete=d)], F("a", x, t=t, b=b, discrete=d))
        R("immediate", [F("a", x, t=t), F("E", x, t=t)], F("imm", x, t=t, b=b))
    if t in (W, 2, 3, 4):
        R("annuity for survival", [F("a", x, t=t), F("a", y, t=less(t))], P(x))
        for e in (0, 1):
            if t != W or not e:
                R("insurance for survival", [F("A", x, t=t, endowment=e), F("A", y, t=less(t), endowment=e)], P(x))
    for c in (True, False):
        R("backward", [F("e", x, t=h, curtate=c), P(x, h), F("e", x + h, t=t, curtate=c)], F("e", x, t=W if t == W else t + h, curtate=c))
        R("forward", [F("e", x, t=h, curtate=c), P(x, h), F("e", x, t=W if t == W else t + h, curtate=c)], F("e", x + h, t=t, curtate=c))
    R("backward", [P(x), F("A", x, t=more(t)), F("IA", y, t=t)], F("IA", x, t=more(t), b=b))
    for m in (1, 2):
        for e in (0, b, b + 2) if t != W else (0,):
            R("backward", [P(x), F("A", y, t=t, moment=m, b=b, endowment=e)], F("A", x, t=more(t), moment=m, b=b, endowment=e))
            R("forward", [P(x), F("A", x, t=more(t), moment=m, b=b, endowment=e)], F("A", y, t=t, moment=m, b=b, endowment=e))
        for d in (True, False):
            for u in (1, 2):
                R("deferred", [F("E", x, t=1, moment=m), F("A", y, t=t, u=u, moment=m, discrete=d)], F("A", x, t=t, u=u + 1, moment=m, b=b, discrete=d))
                R("deferred forward", [F("E", x, t=1, moment=m), F("A", x, t=t, u=u + 1, moment=m, discrete=d)], F("A", y, t=t, u=u, moment=m, b=b, discrete=d))
                R("deferred", [F("E", x, t=u, moment=m), F("A", x + u, t=t, moment=m, discrete=d)], F("A", x, t=t, u=u, moment=m, b=b, discrete=d))
    for d in (True, False):
        for u in (1, 2):
            R("deferred", [F("E", x, t=1), F("a", y, t=t, u=u, discrete=d)], F("a", x, t=t, u=u + 1, b=b, discrete=d))
            R("deferred forward", [F("E", x, t=1), F("a", x, t=t, u=u + 1, discrete=d)], F("a", y, t=t, u=u, b=b, discrete=d))
            R("deferred", [F("E", x, t=u), F("a", x + u, t=t, discrete=d)], F("a", x, t=t, u=u, b=b, discrete=d))
            R("split", [F("a", x, t=W if t == W else t + u, discrete=d), F("a", x, t=u, discrete=d)], F("a", x, t=t, u=u, b=b, discrete=d))
    R("backward", [F("E", x, t=1), F("a", y, t=t)], F("a", x, t=more(t), b=b))
    R("forward", [F("E", x, t=1), F("a", x, t=more(t))], F("a", y, t=t, b=b))
    R("backward", [P(x), F("a", y, t=t)], F("a", x, t=more(t), b=b))
    R("forward", [P(x), F("a", x, t=more(t))], F("a", y, t=t, b=b))
    if t == W:
        for d in (True, False):
            R("twin", [F("a", x, discrete=d)], F("A", x, b=b, discrete=d))
            R("twin", [F("A", x, discrete=d)], F("a", x, b=b, discrete=d))
            R("variance", [F("A", x, discrete=d), F("A", x, moment=2, discrete=d)], F("A", x, b=b, moment=VAR, discrete=d))
            R("twin variance", [F("A", x, discrete=d), F("A", x, moment=2, discrete=d)], F("a", x, b=b, variance=True, discrete=d))
    if t == 1:
        R("one year", [P(x)], F("e", x, t=1, curtate=True))
        R("one year", [F("E", x, t=1)], P(x))
        R("one year", [], F("A", x, t=1, b=b, endowment=b))
        R("one year", [], F("a", x, t=1, b=b))
        for m in (1, 2):
            for e in (0, b + 2):
                R("one year", [P(x)], F("A", x, t=1, b=b, endowment=e, moment=m))
    return out
