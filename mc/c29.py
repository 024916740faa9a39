"""C29: constant-force shortcuts against enumeration of an exponential lifetime."""
import itertools, math
from actuarialmath import ConstantForce
from . import model as M
from . import contracts as C
from .c28 import LawChain
from .sigs import signatures

ASSUMPTIONS = ["lifetimes are enumerated until the surviving mass is below 1e-13; a force of zero is explored for limited terms only"]
R = 1e-7


def world(c):
    top = 60 if c == 0 else int(30 / c) + 2
    ch = LawChain(f"mu={c}", lambda a, t: math.exp(-c * t), lambda a, t: c * math.exp(-c * t), top)
    if c == 0:
        ch.rows[-1] = (0.0,)
    ch.c = c
    return ch


def contracts(ck, item):
    ch, i, discrete, x, s = item
    v = 1 / (1 + i)
    life = ConstantForce(mu=ch.c).set_interest(i=i)
    ts, us = [0, 1, 2, 7, 20], [0, 1, 5]
    for sp in itertools.chain(C.ins_specs(v, 99, bs=(1, 3) if discrete else (3,), us=us, ts=ts, general=discrete),
                              C.ann_specs(v, 99, bs=(1, 3) if discrete else (3,), us=us, ts=ts, general=discrete)):
        if not discrete and (sp.gT is None or sp.method == "E_x"):
            continue
        if ch.c == 0:
            # nobody dies: the whole life contract has no finite value unless it is an insurance
            whole = sp.kw.get("t", M.WHOLE) == M.WHOLE
            if whole:
                continue
        for mom in sp.moments:
            kw = dict(sp.kw)
            if sp.method not in ("E_x", "immediate_annuity"):
                kw["discrete"] = discrete
            if mom != 1:
                kw.update({"variance": True} if sp.group == "ann" else {"moment": mom})
            g = sp.gK if discrete else sp.gT
            if ch.c == 0:         # the one certain path: death never comes
                w = 0.0 if mom == -2 else g(10 ** 6 if discrete else 1e6) ** mom if sp.group != "ann" else g(59)
            else:
                w = C.value(ck, ch, 0, 0, sp, mom, discrete)
            ck.visit(ch.name, i, discrete)
            ck.eq(sp.method, (f"{ch},i={i},x={x},s={s},{sp.label()},mom={mom},{'d' if discrete else 'c'}",),
                  lambda: getattr(life, sp.method)(x, s=s, **kw), w, R, R)
    if not discrete and ch.c:
        k = dict(ch=ch, i=i, x=x, s=s)
        for t, u in ((M.WHOLE, 0), (M.WHOLE, 3), (4, 0), (6, 2)):
            pay = lambda r: 1 + r / 4
            ck.eq("A_x.smooth", dict(k, t=t, u=u), lambda: life.A_x(x, s=s, t=t, u=u, discrete=False, benefit=lambda a, r: pay(r)),
                  ch.ET(0, 0, M.insT(v, t, u, pay)), R, R)
            ck.eq("a_x.smooth", dict(k, t=t, u=u), lambda: life.a_x(x, s=s, t=t, u=u, discrete=False, benefit=lambda a, r: pay(r)),
                  ch.ET(0, 0, M.annT(v, t, u, pay)), R, R)
    k = dict(ch=ch, i=i, x=x, s=s, d=discrete)
    if ch.c and discrete:
        ck.eq("defaults", k, lambda: [life.whole_life_insurance(x, s), life.term_insurance(x, s), life.whole_life_annuity(x, s)],
              [ch.EK(0, 0, M.ins(v)), v * ch.q(0, 0), ch.EK(0, 0, M.ann(v))], R, R)


def lifetimes(ck, ch):
    c = ch.c
    life = ConstantForce(mu=c)
    for x in (0, 1, 30, 60):
        for s in (0, 1, 4):
            k0 = dict(mu=c, x=x, s=s)
            ck.eq("mu_x", k0, lambda: life.mu_x(x, s=s), c)
            ck.eq("l_x", k0, lambda: life.l_x(x, s=s) / life.l_x(0), math.exp(-c * (x + s)), R, R)
            for r in (0, 0.25, 1.5):
                ck.eq("l_r", dict(k0, r=r), lambda: life.l_r(x, s=s, r=r) / life.l_x(0), math.exp(-c * (x + s + r)), R, R)
                ck.eq("mu_r", dict(k0, r=r), lambda: life.mu_r(x, s=s, r=r), c)
                for t in (0, 0.5, 1, 2.25):
                    k = dict(k0, r=r, t=t)
                    ck.eq("p_r", k, lambda: life.p_r(x, s=s, r=r, t=t), math.exp(-c * t))
                    ck.eq("q_r", k, lambda: life.q_r(x, s=s, r=r, t=t, u=1.5), math.exp(-c * 1.5) - math.exp(-c * (t + 1.5)))
                    ck.eq("f_r", k, lambda: life.f_r(x, s=s, r=r, t=t), c * math.exp(-c * t))
                    ck.eq("e_r", k, lambda: life.e_r(x, s=s, r=r, t=t), -math.expm1(-c * t) / c if c else t, R, R)
            for t in (.25, .5, 1.5, 2.75):
                p = math.exp(-c * t)
                ck.eq("E_x.between", dict(k0, t=t), lambda: [life.set_interest(i=.25).E_x(x, s=s, t=t, endowment=3), life.E_x(x, s=s, t=t, endowment=3, moment=2), life.E_x(x, s=s, t=t, endowment=3, moment=-2), life.E_r(x, s=s, t=t)],
                      [3 * p * .8 ** t, 9 * p * .64 ** t, 9 * p * (1 - p) * .64 ** t, p * .8 ** t], R, R)
            for t in (0, 1, 2, 10):
                k = dict(k0, t=t)
                ck.step()
                ck.eq("p_x", k, lambda: life.p_x(x, s=s, t=t), math.exp(-c * t))
                ck.eq("f_x", k, lambda: life.f_x(x, s=s, t=t), c * math.exp(-c * t))
                for u in (0, 1, 3):
                    ck.eq("q_x", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u), math.exp(-c * u) - math.exp(-c * (u + t)))
            for t in [M.WHOLE, 0, 1, 2, 5, 30]:
                n = math.inf if t == M.WHOLE else t
                if c == 0 and t == M.WHOLE:
                    continue
                g = lambda T: min(T, n)
                for mom in (1, 2, -2):
                    k = dict(k0, t=t, mom=mom)
                    if c == 0:
                        w = u = 0.0 if mom == -2 else float(t) ** mom
                    else:
                        w = ch.VK(0, 0, g, ck) if mom == -2 else ch.EK(0, 0, lambda T: g(T) ** mom, ck)
                        u = ch.VT(0, 0, g) if mom == -2 else ch.ET(0, 0, lambda T: g(T) ** mom)
                    ck.eq("e_x.curtate", k, lambda: life.e_x(x, s=s, t=t, curtate=True, moment=mom), w, R, R)
                    ck.eq("e_x.complete", k, lambda: life.e_x(x, s=s, t=t, curtate=False, moment=mom), u, R, R)


def percentiles(ck, ch):
    c = ch.c
    for dl in (0.0, 0.05, 0.3):
        life = ConstantForce(mu=c).set_interest(delta=dl)
        v = math.exp(-dl)
        pv = lambda t: -math.expm1(-dl * t) / dl if dl else t
        for x in (0, 40):
            for p in (0.02, 0.11, 0.27, 0.43, 0.5, 0.61, 0.77, 0.9, 0.97):
                k = dict(mu=c, delta=dl, x=x, p=p)
                tz, ty = -math.log(p) / c, -math.log1p(-p) / c
                ck.step(2)
                mz = max(j for j in range(0, int(tz) + 2) if math.exp(-c * j) >= p)
                my = min(j for j in range(0, int(ty) + 3) if math.exp(-c * j) <= 1 - p)
                ck.eq("Z_t", k, lambda: [life.Z_t(x, p), life.Z_t(x, p, discrete=True), life.Z_t(x, p, discrete=False)], [mz, mz, tz])
                ck.eq("Y_t", k, lambda: [life.Y_t(x, p), life.Y_t(x, p, discrete=True), life.Y_t(x, p, discrete=False)], [my, my, ty])
                ck.eq("Z_from_prob", k, lambda: [life.Z_from_prob(x, p), life.Z_from_prob(x, p, discrete=False)], [v ** (mz + 1), v ** tz])
                ck.eq("Y_from_prob", k, lambda: [life.Y_from_prob(x, p), life.Y_from_prob(x, p, discrete=False)],
                      [math.fsum(v ** j for j in range(my + 1)), pv(ty)])
                if dl:
                    ck.eq("Z_to_prob", k, lambda: life.Z_to_prob(x, v ** tz), p)
                ck.eq("Y_to_prob", k, lambda: life.Y_to_prob(x, pv(ty)), p, 1e-6, 1e-6)


def explore(ck):
    signatures(ck, "ConstantForce")
    ws = [world(c) for c in (0.0, 0.25, 0.7) + ((0.1, 0.4, 1.5) if ck.thorough else ())]
    items = []
    for i in M.RATES if ck.thorough else (0.0, 0.25):
        for x, s in ((0, 0), (35, 2)):
            items += [("c", (w, i, d, x, s)) for w in ws for d in (False, True) if d or w.c != 0.25 or ck.thorough]
    items.sort(key=lambda it: it[1][2])
    items += [("l", w) for w in ws] + [("p", w) for w in ws if w.c] + [("p", world(0.04))]
    ck.each(items, lambda c, it: dict(c=contracts, l=lifetimes, p=percentiles)[it[0]](c, it[1]))
