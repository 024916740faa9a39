"""C10: insurances payable at death and annuities payable continuously against integration over the time of death."""
import math
from actuarialmath import Insurance, Annuity, Reserves
from . import model as M
from . import contracts as C
from .sigs import signatures

ASSUMPTIONS = ["laws: piecewise uniform, piecewise constant-force, exponential, de Moivre; piecewise laws compared to 2e-4, smooth laws to 1e-6 (the library integrates numerically)"]
R = 1e-6
RC = 2e-4


def check(ck, it):
    ch, i = it
    v = 1 / (1 + i)
    dl = math.log1p(i)
    life = Reserves().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
    for x, s in ch.starts(1):
        room = ch.omega - x - s
        ts = sorted({t for t in (0, 1, room - 1, room, room + 2) if t >= 0}) if not ck.thorough else None
        us = sorted({u for u in (0, 1, room - 1, room + 1) if u >= 0}) if not ck.thorough else None
        for sp in C.ins_specs(v, room, bs=(3,), us=us, ts=ts):
            if sp.method != "E_x":
                C.compare(ck, "c", life, ch, x, s, i, sp, 1, False, RC, RC)
        for sp in C.ann_specs(v, room, bs=(3,), us=us, ts=ts):
            if sp.gT:
                for mom in sp.moments:
                    C.compare(ck, "c", life, ch, x, s, i, sp, mom, False, RC, RC)
        k = dict(ch=ch, i=i, x=x, s=s)
        for t in [M.WHOLE, 1, 2, room]:
            end = dict(t=t) if t != M.WHOLE else None
            A = (lambda: life.endowment_insurance(x, s=s, t=t, discrete=False)) if end else (lambda: life.whole_life_insurance(x, s=s, discrete=False))
            ck.eq("A=1-delta*a", dict(k, t=t), lambda: A() + dl * life.temporary_annuity(x, s=s, t=t, discrete=False), 1.0, RC, RC)
            if i > 0:
                ck.eq("twins", dict(k, t=t), lambda: [life.annuity_twin(A=A(), discrete=False),
                      life.insurance_twin(a=life.temporary_annuity(x, s=s, t=t, discrete=False), discrete=False)],
                      [ch.ET(x, s, M.annT(v, t)), ch.ET(x, s, M.insT(v, t, endow=1))], RC, RC)
        if ck.thorough or s == 0:
            g = lambda T: (x + s + 10 * T) * v ** T
            ck.eq("A_x.benefit_age", k, lambda: life.A_x(x, s=s, benefit=lambda a, n: a + 10 * n, discrete=False), ch.ET(x, s, g), RC, RC)
            for t, u in ((M.WHOLE, 0), (2, 0), (2, 1)):
                ck.eq("a_x.benefit_age", dict(k, t=t, u=u), lambda: life.a_x(x, s=s, t=t, u=u, benefit=lambda a, n: a + 10 * n, discrete=False),
                      ch.ET(x, s, M.annT(v, t, u, lambda r: x + s + 10 * r)), RC, RC)


def exponential(ck, c):
    for d in (0.0, 0.05, 0.1):
        life = Annuity().set_survival(mu=lambda x, t: c, S=lambda x, s, t: math.exp(-c * t), maxage=400).set_interest(delta=d)
        r = c + d
        for x, s in ((0, 0), (20, 3)):
            top = 400 - x - s
            for t in (M.WHOLE, 1, 10):
                for u in (0, 4):
                    n = top - u if t == M.WHOLE else t
                    ck.visit("exp", c, d, x, t, u)
                    ck.step()
                    a = math.exp(-r * u) * -math.expm1(-r * n) / r
                    ia = math.exp(-r * u) * ((1 - math.exp(-r * n) * (1 + r * n)) / r ** 2)
                    k = dict(c=c, d=d, x=x, s=s, t=t, u=u)
                    kw = dict(s=s, u=u, t=t, discrete=False)
                    ck.eq("exp.deferred_insurance", k, lambda: life.deferred_insurance(x, b=2, **kw), 2 * c * a, R, R)
                    ck.eq("exp.A_x", k, lambda: life.A_x(x, **kw), c * a, R, R)
                    ck.eq("exp.a_x", k, lambda: life.a_x(x, **kw), a, R, R)
                    ck.eq("exp.deferred_annuity", k, lambda: life.deferred_annuity(x, b=2, **kw), 2 * a, R, R)
                    if u == 0:
                        ck.eq("exp.increasing_insurance", k, lambda: life.increasing_insurance(x, s=s, t=t, b=2, discrete=False), 2 * c * ia, R, R)
                        ck.eq("exp.increasing_annuity", k, lambda: life.increasing_annuity(x, s=s, t=t, b=2, discrete=False), 2 * ia, R, R)
                        ck.eq("exp.A_x.growing", k, lambda: life.A_x(x, s=s, t=t, benefit=lambda a, n: math.exp(0.02 * n), discrete=False),
                              c * -math.expm1(-(r - 0.02) * n) / (r - 0.02) if abs(r - 0.02) > 1e-9 else c * n, R, R)


def demoivre(ck, om):
    """uniform lifetime and a force that depends on age at selection and duration"""
    from .c04 import laws
    for L in laws():
        if not L.name.startswith(("select", "weibull", "makeham")):
            continue
        for i in (0.0, 0.06):
            v = 1 / (1 + i)
            life = Insurance() if False else Reserves()
            life.set_survival(S=L.S, mu=L.mu, maxage=L.maxage).set_interest(i=i)
            for x in L.ages[:2]:
                for s in (0, 2):
                    for t, u in ((5, 0), (3, 2), (1, 1)):
                        pts = [(u + j + z, h) for j in range(t) for z, h in M.NODES]
                        A = math.fsum(h * v ** r * L.f(x, s, r) for r, h in pts)
                        a = math.fsum(h * v ** r * L.S(x, s, r) for r, h in pts)
                        ck.visit(L.name, i, x, s, t, u)
                        ck.step(t)
                        k = dict(law=L.name, i=i, x=x, s=s, t=t, u=u)
                        ck.eq("law.A_x", k, lambda: life.A_x(x, s=s, t=t, u=u, discrete=False), A, R, R)
                        ck.eq("law.a_x", k, lambda: life.a_x(x, s=s, t=t, u=u, discrete=False), a, R, R)
                        if L.name != "makeham" or True:
                            ck.eq("law.deferred_insurance", k, lambda: life.deferred_insurance(x, s=s, t=t, u=u, b=2, discrete=False), 2 * A, 1e-5, 1e-5)
                            ck.eq("law.deferred_annuity", k, lambda: life.deferred_annuity(x, s=s, t=t, u=u, b=2, discrete=False), 2 * a, 1e-4, 1e-4)
    vt = lambda t: (1 + 0.2 * t) ** -2
    life = Annuity().set_survival(f=lambda x, s, t: 1 / (om - x - s), S=lambda x, s, t: 1 - t / (om - x - s), maxage=om).set_interest(v_t=vt)
    for x, s in ((0, 0), (10, 0), (10, 5)):
        n = om - x - s
        F = lambda a, b: (1 / (1 + 0.2 * a) - 1 / (1 + 0.2 * b)) / 0.2
        ck.eq("v_t.A_x", dict(om=om, x=x, s=s), lambda: life.A_x(x, s=s, discrete=False), F(0, n) / n, R, R)
        ck.eq("v_t.A_x.benefit", dict(om=om, x=x, s=s), lambda: life.A_x(x, s=s, t=7, u=3, benefit=lambda a, t: 1 + .2 * t, discrete=False),
              math.log((1 + .2 * 10) / (1 + .2 * 3)) / .2 / n, R, R)


def explore(ck):
    signatures(ck, "Annuity.annuity_twin|insurance_twin|annuity_variance|a_x|immediate_annuity|whole_life_annuity|temporary_annuity|deferred_annuity|certain_life_annuity|increasing_annuity|decreasing_annuity")
    chains = M.ultimates(ck.thorough)[1:8:3] + M.selects(ck.thorough)[:2] + M.ultimates(ck.thorough, between="cfm")[2:5:2]
    items = [("c", (c, i)) for c in chains for i in M.RATES[:2] + ((0.06,) if ck.thorough else ())]
    items += [("e", c) for c in (0.02, 0.1, 0.5)] + [("d", om) for om in (40,)]
    ck.each(items, lambda c, it: {"c": check, "e": exponential, "d": demoivre}[it[0]](c, it[1]))
