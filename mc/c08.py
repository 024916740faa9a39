"""C08: second moments and variances of insurances, paid at year end or at the moment of death."""
import math
from actuarialmath import Insurance, Reserves
from . import model as M
from . import long
from . import contracts as C
from .c07 import lives
from .sigs import signatures

ASSUMPTIONS = ["chains of up to five years, and one of a hundred,; continuous contracts on piecewise uniform and piecewise constant-force laws (1e-6)"]


def check(ck, item):
    kind, ch = item
    if kind == "d":
        for i in M.RATES:
            v = 1 / (1 + i)
            for how, life in lives(ch, i):
                for x, s in ch.starts(2):
                    for sp in C.ins_specs(v, ch.omega - x - s, general=(how == "S"), shapes=False):
                        for mom in sp.moments:
                            if mom != 1:
                                C.compare(ck, how, life, ch, x, s, i, sp, mom)
    else:
        for i in M.RATES[:2]:
            v = 1 / (1 + i)
            life = Insurance().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
            for x, s in ch.starts(1):
                room = ch.omega - x - s
                ts = sorted({0, 1, room - 1, room, room + 2})
                for sp in C.ins_specs(v, room, us=[0, 1, room - 1], ts=[t for t in ts if t >= 0], bs=(3,), shapes=False):
                    for mom in sp.moments:
                        if mom != 1 and sp.method != "E_x":
                            C.compare(ck, "c", life, ch, x, s, i, sp, mom, False, 1e-6, 1e-6)


def smooth(ck, c):
    """exponential lifetimes: closed-form moments of the continuous whole life, term, deferred and endowment payoffs"""
    for d in (0.0, 0.05):
        life = Insurance().set_survival(mu=lambda x, t: c, S=lambda x, s, t: math.exp(-c * t), maxage=300).set_interest(delta=d)
        A = lambda m, t: c / (c + m * d) * -math.expm1(-(c + m * d) * t)
        for b in (1, 4):
            for x, s in ((0, 0), (30, 2)):
                inf = 300 - x - s
                for t, u in ((5, 0), (12, 3), (1, 7)):
                    ck.visit("exp", c, d, t, u)
                    ck.step()
                    k = dict(c=c, d=d, b=b, x=x, s=s, t=t, u=u)
                    dm = lambda m: math.exp(-(c + m * d) * u) * A(m, t)
                    em = lambda m: A(m, t) + math.exp(-(c + m * d) * t) * (2 / b) ** m
                    for meth, kw, f in (("whole_life_insurance", {}, lambda m: A(m, inf)), ("term_insurance", dict(t=t), lambda m: A(m, t)),
                                        ("deferred_insurance", dict(u=u, t=t), dm), ("endowment_insurance", dict(t=t, endowment=2), em)):
                        fn = getattr(life, meth)
                        ck.eq("exp." + meth + ".2", k, lambda: fn(x, s=s, b=b, moment=2, discrete=False, **kw), b * b * f(2), 1e-6, 1e-6)
                        ck.eq("exp." + meth + ".var", k, lambda: fn(x, s=s, b=b, moment=-2, discrete=False, **kw),
                              b * b * (f(2) - f(1) ** 2), 1e-6, 1e-6)


def explore(ck):
    long.insurances(ck)
    signatures(ck, "Insurance.insurance_variance|whole_life_insurance|term_insurance|deferred_insurance|endowment_insurance|A_x|E_x")
    items = [("d", c) for c in M.ultimates(ck.thorough) + M.selects(ck.thorough)]
    cont = M.ultimates(ck.thorough)[1::3] + M.selects(ck.thorough)[:2] + M.ultimates(False, between="cfm")[2:5]
    items += [("c", c) for c in (cont if ck.thorough else cont[:2] + cont[-3:-1])]
    ck.each([it for it in items] + [("e", c) for c in (0.02, 0.3)], lambda c, it: smooth(c, it[1]) if it[0] == "e" else check(c, it))
    for A1 in (0.0, 0.25, 0.5, 1.0):
        for A2 in (0.0, 0.25, 0.3, 1.0):
            for b in (1, 2.5):
                if A2 >= A1 * A1:
                    ck.eq("insurance_variance", dict(A2=A2, A1=A1, b=b), lambda: Insurance.insurance_variance(A2=A2, A1=A1, b=b),
                          b * b * (A2 - A1 * A1))
