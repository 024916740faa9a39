"""C09: yearly annuities, every contract shape on every chain against path enumeration."""
import math
from actuarialmath import Annuity, Reserves
from . import model as M
from . import long
from . import contracts as C
from .sigs import signatures

ASSUMPTIONS = ["chains of up to five years, and one of a hundred, over small death-probability alphabets; whole-year terms, deferrals and guarantees"]


def lives(ch, i):
    yield "S", Annuity().set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
    if not ch.nsel and all(q < 1 for r in ch.rows[:-1] for q in r):
        yield "l", Reserves().set_interest(i=i).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)


def check(ck, ch):
    for i in M.RATES:
        v = 1 / (1 + i)
        for how, life in lives(ch, i):
            for x, s in ch.starts(2):
                room = ch.omega - x - s
                for sp in C.ann_specs(v, room, general=(how == "S")):
                    for mom in sp.moments:
                        C.compare(ck, how, life, ch, x, s, i, sp, mom)
                if how != "S":
                    continue
                k = dict(ch=ch, i=i, x=x, s=s)
                ck.eq("a_x.benefit_age", k, lambda: life.a_x(x, s=s, benefit=lambda a, n: a + 10 * n),
                      ch.EK(x, s, M.ann(v, b=lambda j: x + s + 10 * j)))
                whole = ch.EK(x, s, M.ann(v))
                ck.eq("whole.default", k, lambda: life.whole_life_annuity(x, s), whole)
                ck.eq("temporary.default", k, lambda: life.temporary_annuity(x, s), whole)
                ck.eq("deferred.default", k, lambda: life.deferred_annuity(x, s), whole)
                ck.eq("certain.default", k, lambda: life.certain_life_annuity(x, s), whole)
                for t in (M.WHOLE, 1, 2):       # guaranteed to the limiting age
                    ck.eq("certain.whole", dict(k, t=t), lambda: life.certain_life_annuity(x, s=s, u=M.WHOLE, t=t, b=3), 3 * math.fsum(v ** j for j in range(room)))
                ck.eq("immediate.default", k, lambda: life.immediate_annuity(x, s), whole - 1)
                ck.eq("a_x.default", k, lambda: life.a_x(x, s), whole)
                if i > 0:
                    A = ch.EK(x, s, M.ins(v))
                    ck.eq("annuity_twin", k, lambda: life.annuity_twin(A=life.whole_life_insurance(x, s=s)), whole)
                    ck.eq("insurance_twin", k, lambda: life.insurance_twin(a=life.whole_life_annuity(x, s=s)), A)
                for t in range(1, room + 1):
                    ck.eq("temporary+deferred", dict(k, t=t), lambda: life.temporary_annuity(x, s=s, t=t)
                          + life.deferred_annuity(x, s=s, u=t), whole)
                    if i > 0:
                        Ae = ch.EK(x, s, M.ins(v, t, endow=1))
                        ck.eq("annuity_twin.term", dict(k, t=t), lambda: life.annuity_twin(A=life.endowment_insurance(x, s=s, t=t)),
                              ch.EK(x, s, M.ann(v, t)))
                        A2 = ch.EK(x, s, lambda j: M.ins(v, t, endow=1)(j) ** 2)
                        ck.eq("annuity_variance", dict(k, t=t), lambda: life.annuity_variance(A2=A2, A1=Ae, b=3),
                              9 * ch.VK(x, s, M.ann(v, t)))
    vt = lambda t: 1 / (1 + 0.2 * t)
    life = Annuity().set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega).set_interest(v_t=vt)
    for x, s in ch.starts(1):
        for t in list(range(0, ch.omega - x - s + 2)) + [M.WHOLE]:
            for u in range(0, 3):
                g = lambda k: math.fsum(C.lumpy(j) * vt(j) for j in range(u, k + 1) if t == M.WHOLE or j < u + t)
                ck.eq("a_x.v_t", dict(ch=ch, x=x, s=s, t=t, u=u), lambda: life.a_x(x, s=s, t=t, u=u,
                      benefit=lambda a, n: C.lumpy(n)), ch.EK(x, s, g))


def explore(ck):
    long.annuities(ck)
    signatures(ck, "Annuity.a_x|immediate_annuity|whole_life_annuity|temporary_annuity|deferred_annuity|certain_life_annuity|increasing_annuity|decreasing_annuity")
    ck.each(M.ultimates(ck.thorough) + M.selects(ck.thorough) + M.selects(ck.thorough, minage=0), check)
