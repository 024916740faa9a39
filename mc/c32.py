"""C32: UDD-adjusted contracts against enumeration of the chain with uniform deaths refined to 1/m-years, or continuous."""
import itertools, math
from actuarialmath import LifeTable, Annuity, UDD, Interest, SULT, Recursion
from . import model as M
from . import c23, c28, c31
from .sigs import signatures

ASSUMPTIONS = ["an annuity of b pays b/m at the start of each 1/m-year; continuous contracts (m = 0) to 1e-6",
               "the yearly values adjusted are those of life tables, select tables, survival functions and mortality laws",
               "second moments and variances as offered by the UDD class; inherited generic m-thly functions belong to C31"]
WHOLE, VAR = M.WHOLE, -2


def worlds(thorough):
    """(chain with uniform deaths, how to make the life): the life's own fractional assumption does not matter"""
    out = []
    for n, ch in enumerate(M.ultimates(thorough)):
        out.append((ch, lambda ch=ch, n=n: LifeTable(udd=n % 2 == 0).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)})))
    for n, ch in enumerate(M.selects(thorough)):
        out.append((ch, lambda ch=ch: Annuity(udd=True).set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega)))
    for w in (c23.WORLDS + (c23.MORE if thorough else []))[:5]:
        ch = c23.build(*w, 0.25)
        out.append((ch, lambda ch=ch: c23.make(ch, "q", 0.25)))
    for lw in c28.laws(thorough):
        if lw.radix:
            ch = M.Chain("udd" + lw.name, [r[0] for r in lw.rows], 0)
            ch.limit = lw.limit
            out.append((ch, lw.make))
    return out


def factors(ck, i):
    for m in (1, 2, 3, 4, 6, 12, 52, 365, 0):
        d, v = i / (1 + i), 1 / (1 + i)
        im = (m * ((1 + i) ** (1 / m) - 1) if m else math.log(1 + i))
        dm = (m * (1 - v ** (1 / m)) if m else math.log(1 + i))
        ck.visit("factor", m, i)
        if i:
            # values of one year paid m-thly: s(m) * a(m), and (s(m) - 1) / d(m)
            al, be = (i / im) * (d / dm), (i / im - 1) / dm
        else:
            al, be = 1.0, (m - 1) / (2 * m) if m else .5
        k = dict(m=m, i=i)
        ck.eq("alpha", k, lambda: UDD.alpha(m=m, i=i), al, 1e-7, 1e-7)
        ck.eq("beta", k, lambda: UDD.beta(m=m, i=i), be, 1e-6, 1e-6)
        life = LifeTable().set_table(q={3: .5, 4: 1}).set_interest(i=.5)
        pay = UDD(m=m, life=life)
        a0 = ck.call(lambda: (pay.alpha_m, pay.beta_m, pay.whole_life_annuity(3), pay.whole_life_insurance(3)))
        life.set_interest(i=i)               # the rate last set applies
        ck.eq("alpha_m", k, lambda: [pay.alpha_m, pay.beta_m], [al, be], 1e-6, 1e-6)
        ck.eq("rerate", k, lambda: [pay.whole_life_annuity(3), pay.whole_life_insurance(3)],
              [al * (1 + v / 2) - be, (v / 2 + v * v / 2) * (i / im if i else 1)], 1e-6, 1e-6)
    tab = ck.call(lambda: UDD.interest_frame(i=i))
    rows = []
    for m in (1, 2, 4, 12, 0):
        d, v = i / (1 + i), 1 / (1 + i)
        im = (m * ((1 + i) ** (1 / m) - 1) if m else math.log(1 + i))
        dm = (m * (1 - v ** (1 / m)) if m else math.log(1 + i))
        rows.append([im, dm, i / im, d / dm, i * d / (im * dm), (i - im) / (im * dm)] if i else [0, 0, 1, 1, 1, (m - 1) / (2 * m) if m else .5])
    ck.eq("interest_frame", dict(i=i), lambda: [list(map(int, tab[1].index)), list(tab[1].columns)] + [list(map(float, tab[1].loc[m])) for m in (1, 2, 4, 12, 0)] if tab[0] == "ok" else tab,
          [[1, 2, 4, 12, 0], ["i(m)", "d(m)", "i/i(m)", "d/d(m)", "alpha(m)", "beta(m)"]] + rows, 0, 5.1e-6)


def sult(ck, item):
    """the default standard table: yearly values of the code adjusted by the definitions"""
    i, m = item
    life = SULT(i=i)
    pay = UDD(m=m, life=life)
    v, d = 1 / (1 + i), i / (1 + i)
    im = (m * ((1 + i) ** (1 / m) - 1) if m else math.log(1 + i))
    for x in range(20, 120, 1 if ck.thorough else 9):
        q = [1 - math.exp(-.00022 - .0000027 * 1.124 ** (x + k) * .124 / math.log(1.124)) for k in range(129 - x)] + [1.0]
        ch = M.Chain(f"sult{x}", q, x)
        pr = ch.paths(x, 0, ck)
        for t in (1, 5, 10, 20, WHOLE):
            if t > 120 - x:
                continue
            k = dict(i=i, m=m, x=x, t=t)
            A = math.fsum(p * v ** (j + 1) for j, p in pr if t == WHOLE or j < t) * i / im
            E = 0.0 if t == WHOLE else ch.p(x, 0, t) * v ** t
            dm = (m * (1 - v ** (1 / m)) if m else math.log(1 + i))
            ck.eq("sult.term", k, lambda: pay.term_insurance(x, t=t), A, 1e-6, 1e-6)
            ck.eq("sult.annuity", k, lambda: pay.temporary_annuity(x, t=t), (1 - A - E) / dm, 1e-6, 1e-6)


def explore(ck):
    signatures(ck, "UDD")
    items = [("f", i) for i in (0.0, 0.01, 0.05, 0.06, 0.1, 0.25, 1.0)]
    items += [("s", (i, m)) for i in (.05, .1) for m in (1, 2, 12, 0)]
    W = worlds(ck.thorough)
    for n, (ch, make) in enumerate(W):
        for m in (1, 2, 4, 12, 0) + ((3, 6, 52) if ck.thorough else ()):
            for i in M.RATES:
                if not ck.thorough and (m == 12 and (i == .06 or n % 3) or m == 4 and i == .06 or m == 1 and i == .25 or m == 0 and (i == .06 or n % 2 and i == 0)):
                    continue
                items.append(("c", (ch, make, m, i, UDD, "")))
            if m:
                items.append(("t", (ch, make, m, .06, UDD)))
    items.sort(key=lambda it: -it[1][2] if it[0] == "c" else 0)
    ck.each(items, lambda c, it: dict(c=c31.contracts, t=c31.twins, f=factors, s=sult)[it[0]](c, it[1]))
