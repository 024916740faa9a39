"""C28: special mortality laws against chains and integrals built from their survival functions."""
import itertools, math
from actuarialmath import Beta, Uniform, Makeham, Gompertz
from . import model as M
from . import contracts as C
from .sigs import signatures

ASSUMPTIONS = ["small limiting ages for beta and uniform laws, high-mortality parameters for Makeham and Gompertz laws",
               "integrals are compared to 1e-6; beta exponents below one only through survival, lifetimes and yearly contracts"]
R = 1e-6


class LawChain(M.Chain):
    """a chain whose yearly rates and density come from a survival law of attained age"""
    def __init__(self, name, surv, dens, top):
        self.surv, self.dens = surv, dens
        rows = [1 - surv(a, 1) for a in range(top)]
        rows[-1] = 1.0
        super().__init__(name, rows, 0)

    def S(self, x, s, t):
        return self.surv(x + s, t)

    def f(self, x, s, t):
        return self.dens(x + s, t)


def beta(om, al, cls=None):
    surv = lambda a, t: (max(0.0, om - a - t) / (om - a)) ** al if t else 1.0
    dens = lambda a, t: al * (om - a - t) ** (al - 1) / (om - a) ** al if a + t < om else 0.0
    ch = LawChain(f"{(cls or Beta).__name__}({om},{al})", surv, dens, om)
    ch.make = (lambda: Uniform(om)) if cls else (lambda: Beta(om, al))
    ch.hz = lambda a: al / (om - a)
    ch.al, ch.limit, ch.smooth, ch.H = al, om, al >= 1, None
    ch.radix = True
    return ch


def makeham(A, B, c, top, cls=Makeham):
    surv = lambda a, t: math.exp(-A * t - B * c ** a * (c ** t - 1) / math.log(c))
    dens = lambda a, t: surv(a, t) * (A + B * c ** (a + t))
    ch = LawChain(f"{cls.__name__}({A},{B},{c})", surv, dens, top)
    ch.make = (lambda: Gompertz(B=B, c=c)) if cls is Gompertz else (lambda: Makeham(A=A, B=B, c=c))
    ch.hz = lambda a: A + B * c ** a
    ch.limit, ch.smooth, ch.radix = top, True, False
    return ch


def laws(thorough):
    out = [beta(7, 0.5), beta(6, 2), beta(9, 1), beta(8, 3), beta(6, 1, Uniform), beta(11, 1, Uniform),
           makeham(0.02, 0.03, 1.7, 14), makeham(0.0, 0.05, 1.6, 14, Gompertz), makeham(-0.01, 0.08, 1.5, 16)]
    if thorough:
        out += [beta(14, 1, Uniform), beta(12, 1.5), beta(10, 0.25), makeham(0.3, 0.002, 2.0, 16), makeham(0.0, 0.3, 1.2, 24, Gompertz)]
    return out


def starts(ch, thorough):
    xs = range(0, ch.limit) if thorough else sorted({0, 2, ch.limit - 3, ch.limit - 1})
    bounded = ch.radix
    return [(x, s) for x in xs for s in (0, 1, 2) if x + s < (ch.limit if bounded else ch.limit - 8)]


def survival(ck, ch):
    life = ch.make()
    for x, s in starts(ch, True):
        a = x + s
        room = ch.limit - a
        ch.paths(x, s, ck)
        k0 = dict(law=ch, x=x, s=s)
        ck.eq("mu_x", k0, lambda: life.mu_x(x, s=s), ch.hz(a), R, R)
        ck.eq("l_x", k0, lambda: life.l_x(x, s=s) / life.l_x(0), ch.surv(0, a), R, R)
        for r in (0, 0.25, 0.5, 1, 1.75):
            if ch.radix and a + r >= ch.limit:
                continue
            k = dict(k0, r=r)
            ck.eq("l_r", k, lambda: life.l_r(x, s=s, r=r) / life.l_r(0), ch.surv(0, a + r), R, R)
            ck.eq("mu_r", k, lambda: life.mu_r(x, s=s, r=r), ch.hz(a + r), R, R)
            for t in (0, 0.5, 1, 1.25, 3, room + 1):
                ck.step()
                w = ch.surv(a + r, t)
                kt = dict(k, t=t)
                ck.eq("p_r", kt, lambda: life.p_r(x, s=s, r=r, t=t), w, R, R)
                ck.eq("q_r", kt, lambda: life.q_r(x, s=s, r=r, t=t), 1 - w, R, R)
                ck.eq("q_r.deferred", kt, lambda: life.q_r(x, s=s, r=r, t=t, u=0.75), ch.surv(a + r, 0.75) - ch.surv(a + r, t + .75), R, R)
                if a + r + t < ch.limit:
                    ck.eq("f_r", kt, lambda: life.f_r(x, s=s, r=r, t=t), ch.dens(a + r, t), R, R)
                pts = [j * min(t, room - r) / 8 for j in range(9)]
                want = math.fsum((hi - lo) * h * ch.surv(a + r, lo + (hi - lo) * z) for lo, hi in zip(pts, pts[1:]) for z, h in M.NODES)
                if ch.radix and a + r + t >= ch.limit and not ch.smooth:
                    continue
                if not (a + r + t > ch.limit and not ch.radix):
                    kw = dict(r=r) if r else {}
                    ck.eq("e_r", kt, lambda: life.e_r(x, s=s, t=t, **kw), want, R, R)
            if not ch.radix and r < 1:          # nobody of these laws lives to the limiting age
                kw = dict(r=r) if r else {}
                pts = [j / 4 for j in range(4 * 24 + 1)]
                want = math.fsum((hi - lo) * h * ch.surv(a + r, lo + (hi - lo) * z) for lo, hi in zip(pts, pts[1:]) for z, h in M.NODES)
                ck.eq("e_r.whole", k, lambda: [life.e_r(x, s=s, **kw), life.e_r(x, s=s, t=M.WHOLE, **kw)], [want] * 2, R, R)
            if ch.radix:
                g = room - r
                al = ch.al
                ck.eq("e_r.whole", k, lambda: life.e_r(x, s=s, r=r), g / (al + 1), R, R)
                for t in (0, 0.5, 1, 2.5, room + 1):
                    n = min(t, g)     # E[min(T, n)] in closed form for every alpha
                    w = g / (al + 1) - max(0, g - n) / (al + 1) * ch.surv(a + r, n)
                    ck.eq("e_r.term", dict(k, t=t), lambda: life.e_r(x, s=s, r=r, t=t), w, R, R)
        for t in range(0, room + 2):
            kt = dict(k0, t=t)
            ck.eq("p_x", kt, lambda: life.p_x(x, s=s, t=t), ch.surv(a, t), R, R)
            ck.eq("S", kt, lambda: life.S(x, s, t), ch.surv(a, t), R, R)
            if t < room:
                ck.eq("f_x", kt, lambda: life.f_x(x, s=s, t=t), ch.dens(a, t), R, R)
                ck.eq("mu_x.t", kt, lambda: life.mu_x(x, s=s, t=t), ch.hz(a + t), R, R)
            for u in (0, 1, 2, room):
                ck.eq("q_x", dict(kt, u=u), lambda: life.q_x(x, s=s, t=t, u=u), ch.surv(a, u) - ch.surv(a, u + t), R, R)


def lifetimes(ck, ch):
    life = ch.make()
    for x, s in starts(ch, ck.thorough):
        room = ch.limit - x - s
        whole = [M.WHOLE]
        for t in whole + list(range(0, room + (3 if ch.radix else -1))):
            n = math.inf if t == M.WHOLE else t
            g = lambda T: min(T, n)
            for mom in (1, 2, -2):
                k = dict(law=ch, x=x, s=s, t=t, mom=mom)
                w = ch.VK(x, s, g, ck) if mom == -2 else ch.EK(x, s, lambda T: g(T) ** mom, ck)
                ck.eq("e_x.curtate", k, lambda: life.e_x(x, s=s, t=t, curtate=True, moment=mom), w, R, R)
                if ch.smooth:
                    w = ch.VT(x, s, g) if mom == -2 else ch.ET(x, s, lambda T: g(T) ** mom)
                elif mom == 1 and t == M.WHOLE:
                    w = room / 1.5           # alpha = 1/2
                elif t == M.WHOLE and mom == -2:
                    w = room ** 2 * 0.5 / (1.5 ** 2 * 2.5)
                else:
                    continue
                if ch.name.startswith("Beta(10,0.25"):
                    continue
                ck.eq("e_x.complete", k, lambda: life.e_x(x, s=s, t=t, curtate=False, moment=mom), w, R, R)


def contracts(ck, item):
    ch, i, discrete = item
    v = 1 / (1 + i)
    life = ch.make().set_interest(i=i)
    for x, s in starts(ch, ck.thorough):
        room = ch.limit - x - s
        top = room + 2 if ch.radix else room - 2
        ts = sorted({t for t in (0, 1, 2, room - 1, room, room + 2) if 0 <= t <= top})
        us = sorted({u for u in (0, 1, room - 1, room + 1) if 0 <= u <= top})
        for sp in itertools.chain(C.ins_specs(v, room, bs=(3,), us=us, ts=ts, general=discrete), C.ann_specs(v, room, bs=(3,), us=us, ts=ts, general=discrete)):
            if not discrete and (sp.gT is None or sp.method == "E_x"):
                continue
            for mom in sp.moments:
                extra = dict(discrete=discrete) if sp.method not in ("E_x", "immediate_annuity") else {}
                C.compare(ck, "law", life, ch, x, s, i, sp, mom, discrete, R, R, extra)
        k = dict(law=ch, i=i, x=x, s=s, d=discrete)
        if discrete:             # a pure endowment due between birthdays
            for t in (0, .25, .5, 1.25, 2.5, 3.75):
                if t < room:
                    p = ch.surv(x + s, t)
                    ck.eq("E_x.between", dict(k, t=t), lambda: [life.E_x(x, s=s, t=t, endowment=3), life.E_x(x, s=s, t=t, endowment=3, moment=2), life.E_x(x, s=s, t=t, endowment=3, moment=-2), life.E_r(x, s=s, t=t), life.E_r(x, s=s, r=.125, t=t)],
                          [3 * p * v ** t, 9 * p * v ** (2 * t), 9 * p * (1 - p) * v ** (2 * t), p * v ** t, ch.surv(x + s + .125, t) * v ** t], R, R)
        if not discrete:         # a smooth benefit of any shape
            for t, u in ((M.WHOLE, 0), (2, 1), (1, 0), (room - 1, 1)):
                if u + t < room - (0 if ch.radix else 2) or t == M.WHOLE:
                    pay = lambda r: 1 + r * r / 4
                    ck.eq("A_x.smooth", dict(k, t=t, u=u), lambda: life.A_x(x, s=s, t=t, u=u, discrete=False, benefit=lambda a, r: pay(r)),
                          ch.ET(x, s, M.insT(v, t, u, pay)), R, R)
                    ck.eq("a_x.smooth", dict(k, t=t, u=u), lambda: life.a_x(x, s=s, t=t, u=u, discrete=False, benefit=lambda a, r: pay(r)),
                          ch.ET(x, s, M.annT(v, t, u, pay)), R, R)
        if not isinstance(life, Uniform) and discrete:
            ck.eq("defaults", k, lambda: [life.whole_life_insurance(x, s), life.term_insurance(x, s), life.whole_life_annuity(x, s)],
                  [ch.EK(x, s, M.ins(v)), v * ch.q(x, s), ch.EK(x, s, M.ann(v))], R, R)


def explore(ck):
    signatures(ck, "MortalityLaws", "Beta", "Uniform")
    L = laws(ck.thorough)
    items = [("s", c) for c in L] + [("e", c) for c in L]
    for i in M.RATES if ck.thorough else M.RATES[:2]:
        items += [("c", (c, i, True)) for c in L] + [("c", (c, i, False)) for c in L if c.smooth]
    items.sort(key=lambda it: 0 if it[0] == "c" and not it[1][2] else 1)
    ck.each(items, lambda c, it: dict(s=survival, e=lifetimes, c=contracts)[it[0]](c, it[1]))
