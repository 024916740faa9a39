"""C16: the loss at issue by time of death, its expectation, and the maps between loss, time and probability."""
import math
from actuarialmath import PolicyValues, Reserves, LifeTable, Contract
from . import model as M
from .c15 import loss, TERMS
from .c11 import Exp, Table, inverse, PROBS
from .c28 import beta, makeham
from .c15 import make
from .sigs import signatures

ASSUMPTIONS = ["maps from a loss back to a time are asked for whole life contracts whose premiums exceed renewal expenses (the loss then falls with time)",
               "yearly contracts: the time of a loss is the first whole year at which the loss is no greater"]


def contracts():
    for j, c in enumerate(TERMS):
        yield j, c


def forward(ck, item):
    """L_from_t at every time, for every term, against the cash flow; and its mean against the gross policy value"""
    ch, how = item
    for i in M.RATES:
        v = 1 / (1 + i)
        life = make(ch, how, i)
        for j, c in contracts():
            for T in (M.WHOLE, 1, 2, 5):
                for e in (0,) if T == M.WHOLE else (0, c["benefit"], 25):
                    for disc in (True, False):
                        con = lambda: Contract(T=T, endowment=e, discrete=disc, **c)
                        L = loss(v, c, T, disc, True, e)
                        k = dict(ch=ch, how=how, i=i, c=j, T=T, e=e, d=disc)
                        ts = (0, 0.25, 0.5, 1, 1.5, 2, 2.75, 4, 4.999, 5, 6.5, 9)
                        ck.visit("L", j, T, e, disc)
                        for t in ts:
                            ck.step()
                            ck.eq("L_from_t", dict(k, t=t), lambda: life.L_from_t(t, con()), L(math.floor(t)) if disc else L(t))
                        if disc:
                            for x, s in ch.starts(1):
                                if T != M.WHOLE and T > ch.omega - x - s:
                                    continue
                                def mean():
                                    return math.fsum(w * life.L_from_t(kk, con()) for kk, w in ch.paths(x, s))
                                ck.eq("E[L]", dict(k, x=x, s=s), mean, ch.EK(x, s, L, ck))
                                if how != "table":
                                    ck.eq("E[L]=gross_policy_value", dict(k, x=x, s=s), lambda: mean()
                                          - life.gross_policy_value(x, s=s, n=T, contract=con()), 0.0)
        if how == "S":
            ck.eq("L_from_t.default", dict(ch=ch, i=i), lambda: [life.L_from_t(t) for t in (0, 1, 2.5)],
                  [v ** (k + 1) - math.fsum(v ** h for h in range(k + 1)) for k in (0, 1, 2)])


def worlds(thorough):
    for c, top in ((0.04, 1000), (0.3, 100)) + (((0.01, 700), (1.0, 60)) if thorough else ()):
        w = Exp(c, top)
        yield w, lambda w=w, top=top: PolicyValues().set_survival(S=lambda x, s, t: w.surv(x + s, t), f=lambda x, s, t: w.dens(x + s, t), maxage=top), (20, 45), top
    for ch in (beta(60, 2), makeham(0.0002, 3e-5, 1.1, 120)):
        yield ch, ch.make, (20, 45), ch.limit
    for ch in [M.Chain("z3", [.25, .5, .125, .375, 1.], 2), M.Chain("z4", [.125, .0625, .25, .5, 1.], 40)]:
        w = Table(ch)
        yield w, (lambda ch=ch: LifeTable(udd=True).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)})), tuple(range(ch.minage, ch.omega - 1)), ch.omega


def inv(ck, n):
    w, mk, ages, top = list(worlds(ck.thorough))[n]
    for i in (0.0, 0.05, 0.25):
        v = 1 / (1 + i)
        life = mk().set_interest(i=i)
        for scale in (1, 1000):
            for j, c in contracts():
                c = dict(c, premium=c["premium"] * scale, benefit=c["benefit"] * scale)
                if c["premium"] * (1 - c.get("renewal_premium", 0)) - c.get("renewal_policy", 0) <= 0:
                    continue
                if scale > 1 and j not in (0, 2):
                    continue
                # small premiums relative to the benefit break even only after decades
                for prem in (1.0, 0.1) if j in (0, 2) and scale == 1 else (1.0,):
                    c2 = dict(c, premium=c["premium"] * prem)
                    if c2["premium"] * (1 - c2.get("renewal_premium", 0)) - c2.get("renewal_policy", 0) <= 0:
                        continue
                    for disc in (True, False):
                        con = lambda: Contract(discrete=disc, **c2)
                        L = loss(v, c2, M.WHOLE, disc, True, 0)
                        k = dict(w=w, i=i, c=j, scale=scale, prem=prem, d=disc)
                        horizon = [t for t in ((0, 1, 2, 3, 7, 12, 30, 55) if disc else (0.5, 1, 2.25, 3.5, 7, 12.5, 30.3, 55.7)) if t < top - min(ages)]
                        horizon = [t for t in horizon if i * t < 5]      # losses decades ahead become indistinguishable
                        for t in horizon:
                            ck.step()
                            ck.visit(w.name, i, t, disc)
                            kt = dict(k, t=t)
                            ck.eq("L_to_t", kt, lambda: life.L_to_t(L(t), con()), t, 1e-5, 1e-5)
                            ck.eq("L_to_t.roundtrip", kt, lambda: life.L_to_t(life.L_from_t(t, con()), con()), t, 1e-5, 1e-5)
                            if disc and t > 0:
                                mid = (L(t) + L(t - 1)) / 2
                                ck.eq("L_to_t.between", kt, lambda: life.L_to_t(mid, con()), t)
                            for x in ages[::2]:
                                if x + t < top:
                                    ck.eq("L_to_prob", dict(kt, x=x), lambda: life.L_to_prob(x, L(t), con()), w.surv(x, t), 1e-5, 1e-5)
                        for x in ages:
                            for p in PROBS[::2]:
                                if w.surv(x, top - x) >= p:
                                    continue
                                t = inverse(w, x, p, top)
                                kp = dict(k, x=x, p=p)
                                if not disc:
                                    if i * t < 5:
                                        ck.eq("L_from_prob", kp, lambda: life.L_from_prob(x, p, con()), L(t), 1e-4, 1e-4 * scale)
                                        ck.eq("L_prob.roundtrip", kp, lambda: life.L_to_prob(x, life.L_from_prob(x, p, con()), con()), p, 1e-5, 1e-5)
                                elif abs(t - round(t)) > 1e-4:
                                    m = max(h for h in range(int(top - x) + 1) if w.surv(x, h) >= p)
                                    ck.eq("L_from_prob", kp, lambda: life.L_from_prob(x, p, con()), L(m))
                                    # the chance of a loss no greater than the loss of year m is the chance of reaching year m
                                    if i * m < 5:
                                        ck.eq("L_prob.roundtrip", kp, lambda: life.L_to_prob(x, life.L_from_prob(x, p, con()), con()), w.surv(x, m), 1e-6, 1e-6)
        x = ages[0]
        if n in (0, 4):
            from .c11 import plot
            for disc in (True, False):
                con = Contract(discrete=disc, **TERMS[2])
                for t in (0, 2.5):
                    ck.eq("L_plot", dict(w=w, i=i, d=disc, t=t), lambda: plot(life.L_plot, x, stop=3, T=t, contract=con),
                          loss(v, TERMS[2], M.WHOLE, disc, True, 0)(math.floor(t) if disc else t))
                ck.ok("L_plot.no_time", dict(w=w, i=i, d=disc), lambda: plot(life.L_plot, x, stop=3, contract=con) is None)
            ck.eq("L.default", dict(w=w, i=i), lambda: [life.L_to_t(loss(v, dict(premium=1, benefit=1), M.WHOLE, True, True, 0)(3)),
                  life.L_to_prob(x, loss(v, dict(premium=1, benefit=1), M.WHOLE, True, True, 0)(3))], [3, w.surv(x, 3)], 1e-6, 1e-6)


def explore(ck):
    signatures(ck, "PolicyValues.L_from_t|L_from_prob|L_to_t|L_to_prob")
    chains = [(ch, "S") for ch in M.ultimates(False)[:4] + M.selects(ck.thorough)]
    chains.append((M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "table"))
    ck.each(chains, forward)
    ck.each(range(len(list(worlds(ck.thorough)))), inv)
