"""C23: every query of a life selected at [x], s years on, against enumeration of the chain with select and ultimate rates."""
import itertools, math
from actuarialmath import SelectLife, Contract
from . import long
from . import model as M
from . import contracts as C
from .c22 import Sel
from .c06 import RS, TS, US
from .sigs import signatures

ASSUMPTIONS = ["select periods of zero to three years, two or three ages of selection, tables that end with certain death or stop with lives remaining",
               "lookups are compared with entry by rates, lives, and by rates with one insurance, annuity or lifetime cell",
               "complete expectations and continuous contracts are compared for uniform deaths, to the tolerance of numerical integration"]
R = 1e-8


class SelChain(M.Chain):
    """a chain with the rates of a select table; rates that follow the table are hidden from the code"""
    def __init__(self, t, sel, ult, end, between="udd"):
        rates = list(ult) + list(end)
        super().__init__(t.name, [0.5] * t.P + rates, t.lo, between)
        self.t, self.sel, self.rates = t, sel, rates
        self.closed = not end
        self.last = t.hi + t.P + 1              # rates are known up to this attained age
        self.nsel = t.P

    def q(self, x, s=0):
        P = self.t.P
        if s < P and self.t.lo <= x <= self.t.hi:
            return self.sel[x][s]
        k = x + s - self.t.lo - P
        return self.rates[k] if k < len(self.rates) else 1.0

    def starts(self, smax=None):
        t = self.t
        return [(x, s) for x in range(t.lo, t.hi + 1) for s in range(0, t.P + 3) if x + s < self.last]


def build(lo, sel, ult, end, i, between="udd"):
    name = f"P{len(sel[lo]) if sel else 0}:{lo}:{','.join(str(q) for r in sel.values() for q in r)};{','.join(map(str, ult))};{len(end)}"
    return SelChain(Sel(name, lo, sel, ult, i, end), sel, ult, end, between)


WORLDS = [(3, {3: [.125], 4: [.25], 5: [.375]}, [.25, .5, 1], []),
          (2, {2: [.125, .0625], 3: [.25, .125], 4: [.5, .25]}, [.375, .25, 1], []),
          (5, {5: [.25, .125, .5], 6: [.125, .25, .75]}, [.5, 1], []),
          (0, {}, [.125, .5, .25, 1], []),
          (1, {1: [0.0, .25], 2: [.25, 0.0]}, [.5, 1], []),
          (3, {3: [.125], 4: [.25], 5: [.375]}, [.25, .5, .125], [.5, 1]),
          (0, {0: [.125, .0625], 1: [.25, .125]}, [.375, .25], [.5, .25, 1]),
          (4, {}, [.125, .5, .25], [.5, 1])]
MORE = [(10, {10: [.01, .02, .03], 11: [.02, .03, .05], 12: [.03, .05, .2]}, [.1, .2, 1], []),
        (0, {0: [.5], 1: [.25]}, [.5, 1], []),
        (7, {7: [.1, .2], 8: [.3, .1], 9: [.2, .4], 10: [.5, .5]}, [.6, .5, .4, .3], [.9, 1])]


def make(ch, how, i):
    t = Sel(ch.name, ch.t.lo, ch.sel, ch.rates[:ch.t.hi - ch.t.lo + 1], i, [] if ch.closed else ch.rates[ch.t.hi - ch.t.lo + 1:])
    life = SelectLife(periods=t.P, udd=ch.between == "udd").set_interest(i=i)
    col = lambda tab: {x: [t.T[x, s][tab] for s in range(t.P + 1)] for x in range(t.lo, t.hi + 1)}
    if how == "select":
        for s in range(t.P + 1):
            life.set_select(s=s, age_selected=s < t.P, q={(x if s < t.P else x + s): t.T[x, s]["q"] for x in range(t.lo, t.hi + 1)})
        return life.fill_table()
    if how == "early":          # ultimate rates also for ages before anyone selected can reach them
        for s in range(t.P):
            life.set_select(s=s, age_selected=True, q={x: t.T[x, s]["q"] for x in range(t.lo, t.hi + 1)})
        life.set_select(s=t.P, age_selected=False, q={x + t.P: t.T[x, t.P]["q"] for x in range(t.lo, t.hi + 1)})
        life.set_select(s=t.P, age_selected=False, q={x: .0625 * (1 + x - t.lo) for x in range(t.lo, t.lo + t.P)})
        return life.fill_table()
    if how == "l":
        kw = dict(l=col("l"), q={t.hi: [None] * t.P + [t.T[t.hi, t.P]["q"]]})
    elif how == "q":
        kw = dict(q=col("q"))
    else:         # rates and one value at the end of the table
        kw = {"q": col("q"), how: {t.hi: [None] * t.P + [t.T[t.hi, t.P][how]]}}
    return life.set_table(**kw)


def survival(ck, item):
    ch, how = item
    life = make(ch, how, 0.25)
    whole = ch.closed or how == "e"
    for x, s in ch.starts():
        room = ch.last - x - s
        k0 = dict(ch=ch, how=how, x=x, s=s)
        l0 = lambda: life.l_x(ch.t.lo)
        rel = ch.t.T[x, s]["l"] / ch.t.T[ch.t.lo, 0]["l"] if s <= ch.t.P else ch.t.T[x + s - ch.t.P, ch.t.P]["l"] / ch.t.T[ch.t.lo, 0]["l"]
        ck.eq("l_x", k0, lambda: life.l_x(x, s=s) / l0(), rel, R, R)
        ck.eq("mu_x", k0, lambda: life.mu_x(x, s=s), -math.log(max(1e-5, 1 - ch.q(x, s))), R, R)
        ck.eq("defaults", k0, lambda: [life.p_x(x, s), life.q_x(x, s), life.d_x(x, s) / life.l_x(x, s)], [1 - ch.q(x, s), ch.q(x, s), ch.q(x, s)], R, R)
        for t in range(0, room + 1 + 2 * ch.closed):
            k = dict(k0, t=t)
            w = math.fsum(p for j, p in ch.paths(x, s, ck) if j >= t)
            ck.eq("p_x", k, lambda: life.p_x(x, s=s, t=t), w, R, R)
            ck.eq("S", k, lambda: life.S(x, s, t), w, R, R)
            ck.eq("l_x.ratio", k, lambda: life.l_x(x, s=s + t) / life.l_x(x, s=s), w, R, R)
            ck.eq("d_x", k, lambda: life.d_x(x, s=s, t=t) / life.l_x(x, s=s), 1 - w, R, R)
            for u in range(0, room - t + 1 + 2 * ch.closed):
                ck.eq("q_x", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u), math.fsum(p for j, p in ch.paths(x, s) if u <= j < u + t), R, R)
        for t in ([M.WHOLE] if whole else []) + list(range(0, room + 1 + 2 * ch.closed)):
            n = math.inf if t == M.WHOLE else t
            g = lambda T: min(T, n)
            for mom in (1, 2, -2):
                if not ch.closed and t == M.WHOLE and mom != 1:
                    continue
                w = ch.VK(x, s, g) if mom == -2 else ch.EK(x, s, lambda T: g(T) ** mom)
                ck.eq("e_x", dict(k0, t=t, mom=mom), lambda: life.e_x(x, s=s, t=t, moment=mom), w, R, R)
                if mom == 1 and (ch.closed or t != M.WHOLE):
                    w = ch.ET(x, s, g)
                    ck.eq("e_x.complete", dict(k0, t=t, mom=mom), lambda: life.e_x(x, s=s, t=t, moment=mom, curtate=False), w, R, R)
            if t == M.WHOLE and how != "q":
                ck.eq("e_r.whole", k0, lambda: life.e_r(x, s=s), ch.ET(x, s, lambda T: T), R, R)
        if whole:
            ck.eq("e_x.default", k0, lambda: life.e_x(x, s), ch.EK(x, s, lambda j: j), R, R)


def fractional(ck, item):
    ch, how = item
    udd = ch.between == "udd"
    top = ch.last if udd or not ch.closed else ch.last - 1
    life = make(ch, how, 0.25)
    for x, s in ch.starts():
        for r in RS:
            if x + s + r >= top or ch.S(x, s, r) == 0:
                continue
            k0 = dict(ch=ch, how=how, x=x, s=s, r=r)
            ri, rf = int(math.floor(r)), r - math.floor(r)
            ck.visit(ch.name, "r", x, s, r)
            ck.eq("l_r", k0, lambda: life.l_r(x, s=s, r=r) / life.l_x(x, s=s), ch.S(x, s, r), R, R)
            q = ch.q(x, s + ri)
            if rf:
                ck.eq("l", k0, lambda: life.l(x, s + r) / life.l_x(x, s=s), ch.S(x, s, r), R, R)
                if q < 1:
                    ck.eq("mu", k0, lambda: life.mu(x, s + r), q / (1 - rf * q) if udd else -math.log(1 - q), R, R)
            elif x + s + r < top:
                ck.eq("l", k0, lambda: life.l(x, s + ri) / life.l_x(x, s=s), ch.S(x, s, r), R, R)
            if (not udd or rf) and q < 1:
                ck.eq("mu_r", k0, lambda: life.mu_r(x, s=s, r=r), q / (1 - rf * q) if udd else -math.log(1 - q), R, R)
            for t in TS:
                if x + s + r + t > top:
                    continue
                ck.step()
                k = dict(k0, t=t)
                pt = ch.S(x, s, r + t) / ch.S(x, s, r)
                ck.eq("p_r", k, lambda: life.p_r(x, s=s, r=r, t=t), pt, R, R)
                ck.eq("q_r", k, lambda: life.q_r(x, s=s, r=r, t=t), 1 - pt, R, R)
                ck.eq("E_r", k, lambda: life.E_r(x, s=s, r=r, t=t), pt * 1.25 ** -t, R, R)
                if r == 0:
                    ck.eq("S.r", k, lambda: life.S(x, s, t), pt, R, R)
                for u in US:
                    if x + s + r + t + u <= top:
                        ck.eq("q_r.deferred", dict(k, u=u), lambda: life.q_r(x, s=s, r=r, t=t, u=u),
                              (ch.S(x, s, r + u) - ch.S(x, s, r + u + t)) / ch.S(x, s, r), R, R)
                left = (r + t) == int(r + t) and t > 0
                if not left and x + s + r + t < top:
                    ck.eq("f_r", k, lambda: life.f_r(x, s=s, r=r, t=t), ch.f(x, s, r + t) / ch.S(x, s, r), R, R)
                    if r == 0 and t != int(t):
                        ck.eq("f", k, lambda: life.f(x, s, t), ch.f(x, s, t), R, R)
        for t in TS + (2.5,):
            if x + s + t <= top:
                pts = sorted({*range(int(t) + 1), t})
                want = math.fsum((b - a) * h * ch.S(x, s, a + (b - a) * z) for a, b in zip(pts, pts[1:]) for z, h in M.NODES)
                ck.eq("e_r", dict(ch=ch, how=how, x=x, s=s, t=t), lambda: life.e_r(x, s=s, t=t), want, R, R)


def values(ck, item):
    ch, how, i = item
    v = 1 / (1 + i)
    life = make(ch, how, i)
    for x, s in ch.starts():
        room = ch.last - x - s
        k = dict(ch=ch, how=how, i=i, x=x, s=s)
        for sp in itertools.chain(C.ins_specs(v, room, bs=(3,)), C.ann_specs(v, room, bs=(3,))):
            for mom in sp.moments:
                if not inside(ch, how, sp, mom, room):
                    continue
                C.compare(ck, how, life, ch, x, s, i, sp, mom, True, R, R)
        if ch.closed or how in ("A", "a"):
            ck.eq("defaults.value", k, lambda: [life.whole_life_insurance(x, s), life.whole_life_annuity(x, s), life.E_x(x, s)],
                  [ch.EK(x, s, M.ins(v)), ch.EK(x, s, M.ann(v)), v * (1 - ch.q(x, s))], R, R)
            if how == "a" or ch.closed:
                ck.eq("a_x", k, lambda: life.a_x(x, s=s), ch.EK(x, s, M.ann(v)), R, R)
            if how == "A" or ch.closed:
                ck.eq("A_x", k, lambda: life.A_x(x, s=s), ch.EK(x, s, M.ins(v)), R, R)
        ck.eq("E_x.0", k, lambda: life.E_x(x, s=s, t=0, endowment=5), 5.0)
        for n in range(1, room + 1):         # amounts that depend on the age attained
            ck.eq("benefit by age", dict(k, n=n), lambda: life.A_x(x, s=s, t=n, benefit=lambda y, t: y + 2 * t),
                  ch.EK(x, s, lambda j: (x + s + 2 * (j + 1)) * v ** (j + 1) if j < n else 0), R, R)
            ck.eq("payment by age", dict(k, n=n), lambda: life.a_x(x, s=s, t=n, benefit=lambda y, t: y + 2 * t),
                  ch.EK(x, s, lambda j: sum((x + s + 2 * h) * v ** h for h in range(min(j + 1, n)))), R, R)
        for t in range(1, room + 1):         # premiums and reserves
            kt = dict(k, t=t)
            for e in (0, 1):
                want = ch.EK(x, s, M.ins(v, t, endow=e)) / ch.EK(x, s, M.ann(v, t))
                ck.eq("net_premium", dict(kt, e=e), lambda: life.net_premium(x, s=s, t=t, endowment=e), want, R, R)
                A, a = ch.EK(x, s, M.ins(v, t, endow=e)), ch.EK(x, s, M.ann(v, t))
                G = (100 * A + 4 * a + 3) / (0.95 * a - 0.25)
                if 0.95 * a > 0.3:
                    ck.eq("gross_premium", dict(kt, e=e), lambda: life.gross_premium(
                        A=(life.endowment_insurance if e else life.term_insurance)(x, s=s, t=t), a=life.temporary_annuity(x, s=s, t=t),
                        benefit=100, initial_policy=7, renewal_policy=4, initial_premium=0.3, renewal_premium=0.05), G, R, R)
                for h in range(0, t):
                    if ch.p(x, s, h) == 0:
                        continue
                    P = want
                    V = ch.EK(x, s + h, M.ins(v, t - h, endow=e)) - P * ch.EK(x, s + h, M.ann(v, t - h))
                    if i > 0 or e == 0:
                        ck.eq("net_policy_value", dict(kt, e=e, h=h), lambda: life.net_policy_value(x, s=s, t=h, n=t, endowment=e), V, 1e-7, 1e-7)
                    con = Contract(premium=5, benefit=10, endowment=10 * e, initial_policy=2, renewal_policy=1, initial_premium=.25, renewal_premium=.0625, T=t)
                    G = (10 * ch.EK(x, s + h, M.ins(v, t - h, endow=e)) - (5 * .9375 - 1) * ch.EK(x, s + h, M.ann(v, t - h))
                         + ((1 + 5 * .1875) if h == 0 else 0))
                    ck.eq("gross_policy_value", dict(kt, e=e, h=h), lambda: life.gross_policy_value(x, s=s, t=h, n=t, contract=con), G, 1e-7, 1e-7)
            if t > 1 and ch.closed and i > 0:
                pass


def inside(ch, how, sp, mom, room):
    """does the value depend only on rates in the table (or on a whole life value that the table holds)"""
    if ch.closed:
        return True
    t, u = sp.kw.get("t"), sp.kw.get("u", 0)
    if sp.method == "immediate_annuity" and mom != 1:
        t = t + 1 if t != M.WHOLE else t
    if sp.method in ("whole_life_insurance", "whole_life_annuity"):
        t = M.WHOLE
    if t == M.WHOLE:
        return how in ("A", "a") and mom == 1 and u <= room - 1 and sp.method in (
            "whole_life_insurance", "whole_life_annuity", "term_insurance", "temporary_annuity", "deferred_insurance", "deferred_annuity", "certain_life_annuity")
    if how in ("A", "a") and mom == 1 and sp.method in ("term_insurance", "endowment_insurance", "temporary_annuity", "deferred_insurance", "deferred_annuity", "certain_life_annuity"):
        return u + t <= room - 1        # the later whole life value must be in the table
    return u + t <= room


def continuous(ck, item):
    ch, how, i = item
    v = 1 / (1 + i)
    life = make(ch, how, i)
    for x, s in ch.starts():
        room = ch.last - x - s
        us, ts = sorted({0, 1, room}), sorted({0, 1, room, room + 1})
        for sp in itertools.chain(C.ins_specs(v, room, bs=(3,), us=us, ts=ts, general=False), C.ann_specs(v, room, bs=(3,), us=us, ts=ts, general=False)):
            if sp.gT and sp.method != "E_x":
                C.compare(ck, "c", life, ch, x, s, i, sp, 1, False, 2e-4, 2e-4)


def explore(ck):
    long.select(ck)
    signatures(ck, "SelectLife")
    W = WORLDS + (MORE if ck.thorough else [])
    items = []
    for w in W:
        ch = build(*w, 0.25)
        for how in ("q", "l", "select", "early", "e", "A"):
            items.append(("s", (ch, how)))
        items.append(("f", (ch, "q")))
        items.append(("f", (build(*w, 0.25, between="cfm"), "l")))
        for how in ("q", "A", "a", "l", "select", "early", "e"):
            for i in M.RATES if how in ("q", "A", "a") or ck.thorough else (0.25,):
                if not (i == 0 and (how == "A" or how == "a" and not ch.closed)):
                    items.append(("v", (ch, how, i)))
        if ch.closed and (ck.thorough or w is W[0] or w is W[1]):
            items += [("c", (ch, how, .25)) for how in ("q", "A")]
    ck.each(items, lambda c, it: dict(s=survival, f=fractional, v=values, c=continuous)[it[0]](c, it[1]))
