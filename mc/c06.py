"""C06: fractional-age functions against interpolated chains, for every split of an age into age, duration and fraction."""
import math
from actuarialmath import Fractional, Insurance, Reserves, LifeTable
from . import model as M
from . import long
from .sigs import signatures

ASSUMPTIONS = ["constant force is only explored over years in which death is not certain",
               "densities exactly at an integer age reached from below are not compared (left and right limits differ)"]
RS = (0, 0.25, 0.5, 0.75, 1, 1.25, 2, 2.5)
TS = (0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.25, 3)
US = (0, 0.25, 0.5, 1, 1.75)


def check_chain(ck, ch):
    udd = ch.between == "udd"
    top = ch.omega if udd else ch.omega - 1          # constant force: stay below the year of certain death
    if not udd and ch.name.startswith("u1"):
        return
    full = dict(S=ch.S, l=ch.l, f=ch.f, mu=ch.mu)
    lives = [("all", Fractional(udd=udd).set_survival(minage=ch.minage, maxage=ch.omega, **full)),
             ("S", Insurance(udd=udd).set_survival(S=ch.S, minage=ch.minage, maxage=ch.omega)),
             ("l", Reserves(udd=udd).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega))]
    for how, life in lives:
        life.set_interest(i=0.25)
        for x, s in ch.starts(2):
            if ch.p(ch.minage, 0, x - ch.minage) == 0 or ch.p(x, 0, s) == 0:
                continue          # nobody reaches this age
            ch.paths(x, s, ck)
            for r in RS:
                if x + s + r >= top or ch.S(x, s, r) == 0:
                    continue
                k0 = dict(ch=ch, how=how, x=x, s=s, r=r)
                ri, rf = int(math.floor(r)), r - math.floor(r)
                ck.visit(ch.name, x, s, r)
                want = ch.S(x, s, r)
                ck.eq("l_r", k0, lambda: life.l_r(x, s=s, r=r) / life.l_x(x, s=s), want)
                if rf and not (udd and ch.q(x, s + ri) == 1 and False):
                    ck.eq("mu_r", k0, lambda: life.mu_r(x, s=s, r=r), ch.f(x, s, r) / ch.S(x, s, r))
                elif how == "all":
                    ck.eq("mu_r", k0, lambda: life.mu_r(x, s=s, r=r), ch.mu(x, s + ri))
                for t in TS:
                    if x + s + r + t > top:
                        continue
                    ck.step()
                    k = dict(k0, t=t)
                    pt = ch.S(x, s, r + t) / ch.S(x, s, r)
                    ck.eq("p_r", k, lambda: life.p_r(x, s=s, r=r, t=t), pt)
                    ck.eq("E_r", k, lambda: life.E_r(x, s=s, r=r, t=t), pt * 1.25 ** -t)
                    ck.eq("q_r", k, lambda: life.q_r(x, s=s, r=r, t=t), 1 - pt)
                    if rf == 0 and t == int(t):
                        ck.eq("p_r.integer", k, lambda: life.p_r(x, s=s, r=r, t=t) - life.p_x(x, s=s + ri, t=int(t)), 0.0)
                        ck.eq("q_r.integer", k, lambda: life.q_r(x, s=s, r=r, t=t) - life.q_x(x, s=s + ri, t=int(t)), 0.0)
                    for u in US:
                        if x + s + r + t + u > top:
                            continue
                        ck.eq("q_r.deferred", dict(k, u=u), lambda: life.q_r(x, s=s, r=r, t=t, u=u),
                              (ch.S(x, s, r + u) - ch.S(x, s, r + u + t)) / ch.S(x, s, r))
                    left = (r + t) == int(r + t) and t > 0
                    if not left and x + s + r + t < top:
                        if t == 0 and rf == 0 and how != "all" and not udd:
                            continue
                        ck.eq("f_r", k, lambda: life.f_r(x, s=s, r=r, t=t), ch.f(x, s, r + t) / ch.S(x, s, r))
                    # the split of the age between duration and fraction does not matter
                    if ri and ch.p(x, s, ri):
                        ck.eq("p_r.split", k, lambda: life.p_r(x, s=s, r=r, t=t) - life.p_r(x, s=s + ri, r=rf, t=t), 0.0)
                        ck.eq("q_r.split", k, lambda: life.q_r(x, s=s, r=r, t=t, u=0) - life.q_r(x, s=s + ri, r=rf, t=t), 0.0)
            if x + s >= top:
                continue
            ck.eq("defaults", dict(ch=ch, how=how, x=x, s=s), lambda: [life.p_r(x, s), life.q_r(x, s), life.E_r(x, s)],
                  [ch.p(x, s, 1), ch.q(x, s), ch.p(x, s, 1) / 1.25])
            for t in TS + (2.5,):
                if x + s + t > top:
                    continue
                pts = sorted({*[j for j in range(int(t) + 1)], t})
                want = math.fsum((b - a) * h * ch.S(x, s, a + (b - a) * z) for a, b in zip(pts, pts[1:]) for z, h in M.NODES)
                ck.eq("e_r", dict(ch=ch, how=how, x=x, s=s, t=t), lambda: life.e_r(x, s=s, t=t), want)
            if udd:
                ck.eq("e_r.whole", dict(ch=ch, how=how, x=x, s=s), lambda: life.e_r(x, s=s), ch.ET(x, s, lambda T: T))
                for n in range(1, top - x - s):
                    ck.eq("e_r.recursion", dict(ch=ch, how=how, x=x, s=s, n=n), lambda: life.e_r(x, s=s, t=n)
                          + life.p_x(x, s=s, t=n) * life.e_r(x, s=s + n), ch.ET(x, s, lambda T: T))


def exponential(ck, c):
    """constant force over every year: the exact law at every fraction"""
    life = Fractional(udd=False).set_survival(mu=lambda x, t: c, S=lambda x, s, t: math.exp(-c * t), maxage=60)
    for x in (0, 20, 45):
        for s in (0, 3):
            n = 60 - x - s
            ck.visit("exp", c, x, s)
            ck.eq("exp.e_r", dict(c=c, x=x, s=s), lambda: life.e_r(x, s=s), -math.expm1(-c * n) / c if c else n)
            for r in RS:
                for t in TS:
                    ck.step()
                    k = dict(c=c, x=x, s=s, r=r, t=t)
                    ck.eq("exp.p_r", k, lambda: life.p_r(x, s=s, r=r, t=t), math.exp(-c * t))
                    ck.eq("exp.f_r", k, lambda: life.f_r(x, s=s, r=r, t=t), c * math.exp(-c * t), 1e-8, 1e-8)
                    ck.eq("exp.mu_r", k, lambda: life.mu_r(x, s=s, r=r), c, 1e-8, 1e-8)
            for t in TS:
                ck.eq("exp.e_r.term", dict(c=c, x=x, s=s, t=t), lambda: life.e_r(x, s=s, t=t), -math.expm1(-c * t) / c if c else t)


def explore(ck):
    long.fractions(ck)
    signatures(ck, "Fractional")
    chains = []
    for b in ("udd", "cfm"):
        chains += M.ultimates(ck.thorough, between=b) + M.selects(ck.thorough, between=b) + M.selects(ck.thorough, minage=0, between=b)
    items = [("c", c) for c in chains] + [("e", c) for c in (0.0, 0.02, 0.3)]
    ck.each(items, lambda c, it: (check_chain if it[0] == "c" else exponential)(c, it[1]))
    for e in (0.0, 0.5, 15.0, 40.25):
        for var in (False, True):
            d = 1 / 12 if var else 0.5
            k = dict(e=e, var=var)
            ck.eq("e_approximate.curtate", k, lambda: Fractional.e_approximate(e_complete=e, variance=var), e - d)
            ck.eq("e_approximate.complete", k, lambda: Fractional.e_approximate(e_curtate=e, variance=var), e + d)
