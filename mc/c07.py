"""C07: end-of-year insurances, every contract shape on every chain against path enumeration."""
import math
from actuarialmath import Insurance, Annuity, Premiums, Reserves
from . import model as M
from . import long
from . import contracts as C
from .sigs import signatures

ASSUMPTIONS = ["chains of up to five years, and one of a hundred, over small death-probability alphabets; whole-year terms and deferrals"]


def lives(ch, i):
    yield "S", Insurance().set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
    if not ch.nsel and all(q < 1 for r in ch.rows[:-1] for q in r):
        yield "l", Reserves().set_interest(i=i).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)


def check(ck, ch):
    for i in M.RATES:
        v = 1 / (1 + i)
        for how, life in lives(ch, i):
            for x, s in ch.starts(2):
                room = ch.omega - x - s
                for sp in C.ins_specs(v, room, general=(how == "S")):
                    C.compare(ck, how, life, ch, x, s, i, sp, 1)
                if how != "S":
                    continue
                k = dict(ch=ch, i=i, x=x, s=s)
                # benefits may depend on the age at issue; discount functions need not be exponential
                g = lambda n: (x + s + 10 * n) * v ** n
                ck.eq("A_x.benefit_age", k, lambda: life.A_x(x, s=s, benefit=lambda a, n: a + 10 * n), ch.EK(x, s, lambda j: g(j + 1)))
                ck.eq("A_x.default", k, lambda: life.A_x(x, s), ch.EK(x, s, lambda j: v ** (j + 1)))
                ck.eq("term.default", k, lambda: life.term_insurance(x, s), v * ch.q(x, s))
                ck.eq("E_x.default", k, lambda: life.E_x(x, s), v * ch.p(x, s, 1))
                ck.eq("whole.default", k, lambda: life.whole_life_insurance(x, s), ch.EK(x, s, lambda j: v ** (j + 1)))
                ck.eq("deferred.default", k, lambda: life.deferred_insurance(x, s), ch.EK(x, s, lambda j: v ** (j + 1)))
                ck.eq("increasing.default", k, lambda: life.increasing_insurance(x, s), ch.EK(x, s, lambda j: (j + 1) * v ** (j + 1)))
                for t in range(1, room + 1):
                    for u in range(0, room):
                        # a deferred insurance is the difference of two term insurances
                        ck.eq("deferred.difference", dict(k, t=t, u=u), lambda: life.deferred_insurance(x, s=s, u=u, t=t)
                              - life.term_insurance(x, s=s, t=t + u) + life.term_insurance(x, s=s, t=u), 0.0)
    vt = lambda t: 1 / (1 + 0.2 * t)
    life = Insurance().set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega).set_interest(v_t=vt)
    for x, s in ch.starts(1):
        for t in range(1, ch.omega - x - s + 1):
            for u in range(0, 3):
                for e in (0, 2):
                    def g(k):
                        return 0 if k < u else C.lumpy(k + 1) * vt(k + 1) if k < u + t else e * vt(u + t)
                    ck.eq("A_x.v_t", dict(ch=ch, x=x, s=s, t=t, u=u, e=e), lambda: life.A_x(x, s=s, t=t, u=u, endowment=e,
                          benefit=lambda a, n: C.lumpy(n)), ch.EK(x, s, g))
            ck.eq("E_x.v_t", dict(ch=ch, x=x, s=s, t=t), lambda: life.E_x(x, s=s, t=t, endowment=5), 5 * vt(t) * ch.p(x, s, t))


def explore(ck):
    long.insurances(ck)
    signatures(ck, "Insurance.E_x|A_x|whole_life_insurance|term_insurance|deferred_insurance|endowment_insurance|increasing_insurance|decreasing_insurance")
    ck.each(M.ultimates(ck.thorough) + M.selects(ck.thorough) + M.selects(ck.thorough, minage=0), check)
