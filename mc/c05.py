"""C05: moments of the (limited) curtate and complete future lifetime by enumeration of the time of death."""
import math
from actuarialmath import Lifetime, Insurance, Reserves, Recursion, LifeTable
from . import model as M
from . import long
from .c04 import laws
from .sigs import signatures

ASSUMPTIONS = ["lifetime chains of up to five years, and one of a hundred, with alphabet death probabilities; smooth laws integrated by quadrature"]
VAR = -2


def moment(ck, ch, x, s, g, mom, cont):
    E = ch.ET if cont else ch.EK
    V = ch.VT if cont else ch.VK
    return {1: lambda: E(x, s, g, ck), 2: lambda: E(x, s, lambda t: g(t) ** 2, ck), VAR: lambda: V(x, s, g, ck)}[mom]()


def moment_split(ch, x, s, n, mom):
    """moments of min(T, n) for n half-way through a year: integrals of survival, half year by half year"""
    halves = [(j / 2, j / 2 + 0.5) for j in range(int(2 * n))]
    S = [(a, h, z) for a, b in halves for z, h in M.NODES]
    e1 = math.fsum(0.5 * h * ch.S(x, s, a + 0.5 * z) for a, h, z in S)
    e2 = math.fsum(0.5 * h * 2 * (a + 0.5 * z) * ch.S(x, s, a + 0.5 * z) for a, h, z in S)
    return {1: e1, 2: e2, VAR: e2 - e1 * e1}[mom]


def check_chain(ck, ch):
    lives = [("Lifetime", Lifetime().set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega)),
             ("Reserves", Reserves().set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)) if not ch.nsel else
             ("Insurance", Insurance().set_survival(S=ch.S, l=ch.l, minage=ch.minage, maxage=ch.omega))]
    for how, life in lives:
        for x, s in ch.starts(2):
            if how != "Lifetime" and ch.S(x, 0, s) == 0:
                continue
            room = ch.omega - x - s
            for t in [M.WHOLE] + list(range(0, room + 3)):
                n = math.inf if t == M.WHOLE else t
                for curtate in (True, False):
                    for mom in (1, 2, VAR):
                        g = lambda T: min(T, n)
                        want = moment(ck, ch, x, s, g, mom, not curtate)
                        k = dict(ch=ch, how=how, x=x, s=s, t=t, curtate=curtate, moment=mom)
                        tol = 1e-9 if curtate else 2e-7
                        if not curtate and t != M.WHOLE and t < room:      # limits within a year of age
                            w2 = moment_split(ch, x, s, t + 0.5, mom)
                            ck.eq("e_x.half", k, lambda: life.e_x(x, s=s, t=t + 0.5, curtate=False, moment=mom), w2, tol, tol)
                        ck.eq("e_x", k, lambda: life.e_x(x, s=s, t=t, curtate=curtate, moment=mom), want, tol, tol)
            ck.eq("e_x.default", dict(ch=ch, how=how, x=x, s=s), lambda: life.e_x(x, s), ch.EK(x, s, lambda k: k))
            for t in range(1, room + 1):
                # one-year recursion of the expected lifetime
                ck.eq("e_x.recursion", dict(ch=ch, how=how, x=x, s=s, t=t), lambda: life.e_x(x, s=s, t=t)
                      - life.p_x(x, s=s) * (1 + life.e_x(x, s=s + 1, t=t - 1)), 0.0)


def check_law(ck, L):
    """smooth laws, limited terms: integrals by a fixed fine quadrature of t-th survival"""
    life = Lifetime().set_survival(S=L.S, maxage=L.maxage)
    for x in L.ages:
        for s in range(0, L.smax + 1, 2):
            for t in (0, 1, 2, 5, 8):
                ck.visit(L.name, x, s, t)
                ck.step(t)
                ps = [L.S(x, s, k) for k in range(1, t + 1)]
                e1 = math.fsum(ps)
                e2 = math.fsum((k * k - (k - 1) ** 2) * p for k, p in enumerate(ps, 1))
                c1 = math.fsum(h * L.S(x, s, k + z) for k in range(t) for z, h in M.NODES)
                c2 = math.fsum(h * 2 * (k + z) * L.S(x, s, k + z) for k in range(t) for z, h in M.NODES)
                for curtate, a, b in ((True, e1, e2), (False, c1, c2)):
                    k = dict(law=L.name, x=x, s=s, t=t, curtate=curtate)
                    for mom, want in ((1, a), (2, b), (VAR, b - a * a)):
                        ck.eq("law.e_x", dict(k, moment=mom), lambda: life.e_x(x, s=s, t=t, curtate=curtate, moment=mom), want, 1e-7, 1e-7)


def explore(ck):
    long.expectations(ck, None)
    signatures(ck, "Lifetime", "Fractional.e_approximate")
    chains = M.ultimates(ck.thorough) + M.selects(ck.thorough) + M.ultimates(ck.thorough, between="cfm")[:5] + \
        M.selects(ck.thorough, minage=0, between="cfm")
    ck.each([("chain", c) for c in chains] + [("law", L) for L in laws()],
            lambda c, it: (check_law if it[0] == "law" else check_chain)(c, it[1]))
