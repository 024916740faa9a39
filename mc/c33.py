"""C33: Woolhouse values against yearly values enumerated on the chain, corrected by the stated terms."""
import itertools, math
from actuarialmath import LifeTable, Annuity, Woolhouse, SULT, Makeham, Gompertz, Recursion
from . import model as M
from . import c23, c28
from .sigs import signatures

ASSUMPTIONS = ["an annuity of b pays b/m at the start of each 1/m-year; m = 0 is continuous payment, the limit of the correction terms",
               "the force is approximated from the mortality of the years before and after an age, and only compared where both exist and are survived by some",
               "the exact force of a life table is that of its documentation, -log p"]
WHOLE = M.WHOLE
MS = (1, 2, 4, 12, 0)


class World:
    def __init__(self, ch, make, lo, hi, starts, mu=None, back=None, R=1e-6):
        self.ch, self.make, self.lo, self.hi, self.starts, self.mu, self.back, self.R = ch, make, lo, hi, starts, mu, back, R

    def exact(self, x, s):
        return self.mu(x, s) if self.mu else -math.log(1 - self.ch.q(x, s)) if self.ch.q(x, s) < 1 else None

    def approx(self, x, s):
        """-(log p_{x-1} + log p_x) / 2, or None where there is no year before"""
        if s == 0 and (self.back is None or x <= self.lo):
            return None
        q0 = self.ch.q(x, s - 1) if s > 0 else self.back(x)
        q1 = self.ch.q(x, s)
        return None if q0 == 1 or q1 == 1 else -(math.log(1 - q0) + math.log(1 - q1)) / 2


def worlds(thorough):
    out = []
    for ch in M.ultimates(thorough):
        st = [(x, s) for x, s in ch.starts(2) if ch.p(ch.minage, 0, x + s - ch.minage) > 0]
        out.append(World(ch, lambda ch=ch: LifeTable().set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}), ch.minage, ch.omega, st,
                         back=lambda x, ch=ch: ch.q(x - 1)))
    for ch in M.selects(thorough):
        st = [(x, s) for x, s in ch.starts(2) if ch.p(x, 0, s) > 0]
        out.append(World(ch, lambda ch=ch: Annuity().set_survival(S=ch.S, f=ch.f, mu=lambda x, s, ch=ch: ch.f(x, s, 0) / ch.S(x, s, 0), minage=ch.minage, maxage=ch.omega),
                         ch.minage, ch.omega, st, mu=lambda x, s, ch=ch: ch.q(x, s)))
    for w in (c23.WORLDS + (c23.MORE if thorough else []))[:5]:
        ch = c23.build(*w, 0.25)
        out.append(World(ch, lambda ch=ch: c23.make(ch, "q", 0.25), ch.t.lo, ch.last, [(x, s) for x, s in ch.starts() if ch.p(x, 0, s) > 0],
                         back=(lambda x, ch=ch: ch.q(x - 1)) if ch.t.P == 0 else None))
    for lw in c28.laws(thorough):
        if lw.radix and lw.smooth:
            st = [(x, s) for x in (0, 1, 3, lw.limit - 2) for s in (0, 1) if x + s < lw.limit]
            ch = M.Chain(lw.name, [r[0] for r in lw.rows], 0)
            out.append(World(ch, lw.make, 0, lw.limit, st, mu=lambda x, s, lw=lw: lw.hz(x + s), back=lambda x, lw=lw: lw.rows[x - 1][0]))
    rows = [1 - math.exp(-.00022 - .0000027 * 1.124 ** y * .124 / math.log(1.124)) for y in range(20, 130)] + [1.0]
    ch = M.Chain("sult", rows, 20)
    out.append(World(ch, lambda: SULT(), 20, 130, [(x, s) for x in (20, 21, 45, 60, 89) for s in (0, 1, 10)], back=lambda x: rows[x - 21], R=2e-6))
    return out


def mine(x, s):
    return 0.01 * x + 0.002 * s


def values(ck, item):
    w, m, i, three, how = item
    ch = w.ch
    v = 1 / (1 + i)
    h = 1 / m if m else 0.0
    d = (m * (1 - v ** h) if m else math.log(1 + i))
    delta = math.log(1 + i)
    force = dict(true=w.approx, false=w.exact, fn=mine)[how]
    life = w.make().set_interest(i=i)
    kw = dict(true={}, false=dict(approximate_mu=False), fn=dict(approximate_mu=mine))[how]
    pay = Woolhouse(m=m, life=life, three_term=three, **kw) if three or how != "true" else Woolhouse(m=m, life=life)

    def whole(x, s, mu=None):
        """None where the stated force is not defined"""
        a = ch.EK(x, s, M.ann(v)) - (1 - h) / 2
        if three:
            f = force(x, s) if mu is None else mu
            if f is None:
                return None
            a -= (f + delta) * (1 - h * h) / 12
        return a

    def temp(x, s, t, mu=None, mu1=None):
        a = whole(x, s, mu)
        e = ch.p(x, s, t) * v ** t if t != WHOLE else 0.0
        if a is None or e == 0:
            return a
        b = whole(x, s + t, mu1)
        return None if b is None else a - e * b

    def term(x, s, t, mu=None, mu1=None):
        a = whole(x, s, mu)
        if a is None:
            return None
        e = ch.p(x, s, t) * v ** t if t != WHOLE else 0.0
        if e == 0:
            return 1 - d * a
        b = whole(x, s + t, mu1)
        return None if b is None else 1 - d * a - e * (1 - d * b)

    R = w.R
    for x, s in w.starts:
        room = w.hi - x - s
        k = dict(ch=ch, m=m, i=i, three=three, how=how, x=x, s=s)
        ck.visit(ch.name, m, three, how, x, s)
        ch.paths(x, s, ck)
        f = force(x, s)
        if f is not None:
            ck.eq("mu_x", k, lambda: pay.mu_x(x, s), f, R, R)
        for b in (1, 3) if ck.thorough else (3,):
            mus = ((None, 0.0, 0.3) if ck.thorough or how == "true" else (None,)) if three else (None, .3) if ck.thorough else (None,)
            for mu in mus:
                kb = dict(k, b=b, mu=mu)
                km = {} if mu is None else dict(mu=mu)
                a = whole(x, s, mu)
                if a is not None:
                    ck.eq("whole_life_annuity", kb, lambda: pay.whole_life_annuity(x, s=s, b=b, **km), b * a, R, R)
                    ck.eq("whole_life_insurance", kb, lambda: pay.whole_life_insurance(x, s=s, b=b, **km), b * (1 - d * a), R, R)
                ts = [WHOLE] + (list(range(0, room + 2)) if room < 8 else [t for t in (1, 2, 10, 20) if t <= room])
                for t in ts if ck.thorough else ts[:7] + ts[7:][-2:]:
                    for mu1 in ((None, 0.0, .2) if ck.thorough else (.2,) if mu == 0 else (None, 0.0)) if mu is not None and three else (None,):
                        ck.step()
                        kt = dict(kb, t=t, mu1=mu1)
                        kn = dict(km) if mu1 is None else dict(km, mu1=mu1)
                        a, A = temp(x, s, t, mu, mu1), term(x, s, t, mu, mu1)
                        E = ch.p(x, s, t) * v ** t if t != WHOLE else 0.0
                        if a is not None:
                            ck.eq("temporary_annuity", kt, lambda: pay.temporary_annuity(x, s=s, t=t, b=b, **kn), b * a, R, R)
                            ck.eq("term_insurance", kt, lambda: pay.term_insurance(x, s=s, t=t, b=b, **kn), b * A, R, R)
                            if mu is None:
                                ck.eq("immediate_annuity", kt, lambda: pay.immediate_annuity(x, s=s, t=t, b=b), b * (a - h * (1 - E)), R, R)
                                for e in (None, 0, 2) if t != WHOLE else ():
                                    ck.eq("endowment_insurance", dict(kt, e=e), lambda: pay.endowment_insurance(x, s=s, t=t, b=b, **({} if e is None else dict(endowment=e))),
                                          b * A + E * (b if e is None else e), R, R)
                        for u in sorted({0, 1, 2, room, room + 1} if ck.thorough else {0, 1, room}) if room < 8 else (1, 5, 15):
                            Eu = ch.p(x, s, u) * v ** u
                            if Eu == 0:
                                a = A = 0.0
                            else:
                                a, A = temp(x, s + u, t, mu, mu1), term(x, s + u, t, mu, mu1)
                            if a is not None and x + s + u + max(t, 0) <= w.hi + 1:
                                ck.eq("deferred_annuity", dict(kt, u=u), lambda: pay.deferred_annuity(x, s=s, u=u, t=t, b=b, **kn), b * Eu * a, R, R)
                                ck.eq("deferred_insurance", dict(kt, u=u), lambda: pay.deferred_insurance(x, s=s, u=u, t=t, b=b, **kn), b * Eu * A, R, R)
        a = whole(x, s)
        if a is not None:
            ck.eq("twins", k, lambda: [pay.insurance_twin(a), pay.annuity_twin(1 - d * a) if d else a], [1 - d * a, a], R, R)
            for t in range(1, min(room, 4)):
                u, tmp = whole(x, s + t), temp(x, s, t)
                if tmp is not None and ch.p(x, s, t) > 0:
                    ck.eq("sum", dict(k, t=t), lambda: pay.temporary_annuity(x, s=s, t=t) + pay.deferred_annuity(x, s=s, u=t) - pay.whole_life_annuity(x, s=s), 0.0, R, R)


def lookups(ck, item):
    """on facts alone: a recursion life that knows one annuity, one insurance and one survival probability"""
    m, i, three = item
    v = 1 / (1 + i)
    h = 1 / m if m else 0.0
    d, dy, delta = (m * (1 - v ** h) if m else math.log(1 + i)), i / (1 + i), math.log(1 + i)
    cut = lambda mu: (1 - h) / 2 + ((mu + delta) * (1 - h * h) / 12 if three else 0)
    life = Recursion().set_interest(i=i).set_a(9.5, x=30).set_a(6.25, x=40).set_p(.8, x=30, t=10)
    pay = Woolhouse(m=m, life=life, three_term=three, approximate_mu=mine)
    a, b, E = 9.5 - cut(mine(30, 0)), 6.25 - cut(mine(30, 10)), .8 * v ** 10
    k = dict(m=m, i=i, three=three)
    ck.visit("facts", m, i, three)
    ck.eq("facts.annuity", k, lambda: [pay.whole_life_annuity(30), pay.temporary_annuity(30, t=10), pay.deferred_annuity(30, u=10)], [a, a - E * b, E * b])
    ck.eq("facts.insurance", k, lambda: [pay.whole_life_insurance(30), pay.term_insurance(30, t=10), pay.endowment_insurance(30, t=10), pay.deferred_insurance(30, u=10)],
          [1 - d * a, 1 - d * a - E * (1 - d * b), 1 - d * (a - E * b), E * (1 - d * b)])
    life.set_interest(i=.5)         # the rate last set
    v, h2 = 1 / 1.5, h
    delta = math.log(1.5)
    a = 9.5 - cut(mine(30, 0))
    ck.eq("facts.rerate", k, lambda: pay.whole_life_annuity(30), a)


def explore(ck):
    signatures(ck, "Woolhouse")
    items = []
    for n, w in enumerate(worlds(ck.thorough)):
        for m in MS + ((3, 6, 365) if ck.thorough else ()):
            for i in M.RATES:
                if not ck.thorough and (i == .06 and m in (1, 4) or i == .25 and n % 2 and m in (4, 12)):
                    continue
                for three, how in ((False, "true"), (True, "true"), (True, "false"), (True, "fn")):
                    items.append(("v", (w, m, i, three, how)))
    items += [("l", (m, i, three)) for m in MS for i in (.05, .25) for three in (False, True)]
    ck.each(items, lambda c, it: dict(v=values, l=lookups)[it[0]](c, it[1]))
