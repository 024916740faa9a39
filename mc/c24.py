"""C24: the standard ultimate table at every age, against the chain of its Makeham law."""
import math
from actuarialmath import SULT
from . import model as M
from .sigs import signatures

ASSUMPTIONS = ["values that run to the end of life may differ from the unlimited law by no more than the survivors at the table's last age are worth",
               "displayed cells are compared to the displayed digits"]
DEF = (0.00022, 0.0000027, 1.124)


def law(A, B, c):
    return lambda x, t: math.exp(-A * t - B * c ** x * (c ** t - 1) / math.log(c))


class Law(M.Chain):
    def __init__(self, p, lo, hi, radix, default):
        self.surv, self.lo, self.hi, self.radix, self.p_, self.default = law(*p), lo, hi, radix, p, default
        rows = []
        a, alive = lo, 1.0
        while a < hi + 5 or alive > 1e-14 and a < hi + 60:
            q = 1 - self.surv(a, 1)
            rows.append(q)
            alive *= 1 - q
            a += 1
        rows[-1] = 1.0
        super().__init__(f"makeham{p},{lo}-{hi},{radix}", rows, lo)

    def make(self, i):
        if self.default:
            return SULT() if i == 0.05 else SULT(i=i)
        return SULT(i=i, S=self.surv, minage=self.lo, maxage=self.hi, radix=self.radix)


def laws(thorough):
    out = [Law(DEF, 20, 130, 100000, True), Law((0.0003, 0.0000035, 1.15), 20, 130, 1000, False), Law((0.01, 0.002, 1.3), 0, 30, 100000, False),
           Law((0.0, 0.00005, 1.25), 40, 70, 50000, False), Law((0.002, 0.0003, 1.11), 20, 130, 100000, False)]
    if thorough:
        out += [Law((0.00022, 0.0000027, 1.124), 0, 120, 100, False), Law((0.1, 0.0001, 1.5), 5, 25, 1, False), Law((0.00022, 0.0000027, 1.124), 20, 110, 100000, False)]
    return out


TERMS = (1, 2, 5, 10, 20, 35)


def tol(ch, x, life=1.0):
    """what the lives remaining at the last age of the table can be worth"""
    return 1e-9 + life * ch.surv(x, ch.hi - x)


def ages(ck, item):
    ch, i, part, parts = item
    v = 1 / (1 + i)
    life = ch.make(i)
    for x0 in range(ch.lo + part, ch.hi, parts):
        for s in (0, 2):
            x = x0 - s
            if x < ch.lo and s:
                continue
            left = ch.hi - x0
            if ch.surv(ch.lo, x0 - ch.lo) < 1e-280:      # no representable lives
                continue
            k0 = dict(law=ch, i=i, x=x, s=s)
            ch.paths(x0, 0, ck)
            ck.eq("l_x", k0, lambda: life.l_x(x, s=s) / ch.radix, ch.surv(ch.lo, x0 - ch.lo), 1e-9, 0)
            ck.eq("q_x", k0, lambda: [life.q_x(x, s=s), life.p_x(x, s=s), life.d_x(x, s=s) / life.l_x(x, s=s)],
                  [1 - ch.surv(x0, 1), ch.surv(x0, 1), 1 - ch.surv(x0, 1)])
            W = tol(ch, x0)
            WA = tol(ch, x0, ch.EK(ch.hi, 0, M.ann(v)) + 1)
            for b in (1, 1000):
                kb = dict(k0, b=b)
                ck.eq("whole_life_insurance", kb, lambda: life.whole_life_insurance(x, s=s, b=b), b * ch.EK(x0, 0, M.ins(v)), 1e-9, b * W)
                ck.eq("2A_x", kb, lambda: life.whole_life_insurance(x, s=s, b=b, moment=2), b * b * ch.EK(x0, 0, lambda k: M.ins(v)(k) ** 2), 1e-9, b * b * W)
                ck.eq("whole_life_annuity", kb, lambda: life.whole_life_annuity(x, s=s, b=b), b * ch.EK(x0, 0, M.ann(v)), 1e-8, b * WA * (1 + 1 / max(i, .03)))
            ck.eq("e_x", k0, lambda: life.e_x(x, s=s), ch.EK(x0, 0, lambda k: k), 1e-9, tol(ch, x0, ch.EK(ch.hi, 0, lambda k: k) + 1))
            for t in TERMS:
                if t > left:
                    # the term reaches past the table: as if it had no limit
                    ck.eq("past.term", dict(k0, t=t), lambda: life.term_insurance(x, s=s, t=t), ch.EK(x0, 0, M.ins(v)), 1e-9, W)
                    continue
                k = dict(k0, t=t)
                ck.step()
                n = dict(t=t)
                ck.eq("p_x.t", k, lambda: life.p_x(x, s=s, t=t), ch.surv(x0, t))
                ck.eq("q_x.t", k, lambda: life.q_x(x, s=s, t=t), 1 - ch.surv(x0, t))
                ck.eq("e_x.t", k, lambda: life.e_x(x, s=s, t=t), ch.EK(x0, 0, lambda j: min(j, t)))
                if left > t + 1:
                    ck.eq("q_x.u", k, lambda: life.q_x(x, s=s, u=t), ch.surv(x0, t) - ch.surv(x0, t + 1))
                for mom in (1, 2):
                    km = dict(k, mom=mom)
                    P = lambda g: ch.EK(x0, 0, lambda j: g(j) ** mom)
                    ck.eq("E_x", km, lambda: life.E_x(x, s=s, t=t, moment=mom), P(M.pure(v, t)))
                    ck.eq("term_insurance", km, lambda: life.term_insurance(x, s=s, t=t, moment=mom, b=7), P(M.ins(v, t, b=lambda j: 7)))
                    ck.eq("endowment_insurance", km, lambda: life.endowment_insurance(x, s=s, t=t, moment=mom), P(M.ins(v, t, endow=1)))
                ck.eq("temporary_annuity", k, lambda: life.temporary_annuity(x, s=s, t=t, b=7), 7 * ch.EK(x0, 0, M.ann(v, t)), 1e-8, 1e-8)
                ck.eq("deferred_annuity", k, lambda: life.deferred_annuity(x, s=s, u=t), ch.EK(x0, 0, M.ann(v, u=t)), 1e-8, WA * (1 + 1 / max(i, .03)))
                ck.eq("deferred_insurance", k, lambda: life.deferred_insurance(x, s=s, u=t), ch.EK(x0, 0, M.ins(v, u=t)), 1e-8, W)


COLS = [("l_x", 1), ("q_x", 6), ("a_x", 4), ("A_x", 5), ("2A_x", 5), ("a_x:10", 4), ("A_x:10", 5), ("a_x:20", 4), ("A_x:20", 5),
        ("5_E_x", 5), ("10_E_x", 5), ("20_E_x", 5)]


def cell(ch, x, col, v):
    E = lambda g: ch.EK(x, 0, g)
    n = int(col.split(":")[1]) if ":" in col else 0
    if col == "l_x": return ch.radix * ch.surv(ch.lo, x - ch.lo)
    if col == "q_x": return 1 - ch.surv(x, 1)
    if col == "a_x": return E(M.ann(v))
    if col == "A_x": return E(M.ins(v))
    if col == "2A_x": return E(lambda k: M.ins(v)(k) ** 2)
    if col.startswith("a_x:"): return E(M.ann(v, n))
    if col.startswith("A_x:"): return E(M.ins(v, n, endow=1))
    return E(M.pure(v, int(col.split("_")[0])))


def shown(ck, item):
    ch, i = item
    v = 1 / (1 + i)
    start = 0.05 if i != 0.05 else 0.03
    life = ch.make(start)              # interest replaced after construction
    life.set_interest(i=i)
    lo, hi = ch.lo, ch.hi - 1
    ck.visit(ch.name, "frame", i)
    tab = life.frame(minage=lo, maxage=hi)
    ck.eq("frame.rows", dict(law=ch, i=i), lambda: [int(tab.index[0]), int(tab.index[-1]), len(tab)], [lo, hi, hi - lo + 1])
    ck.eq("frame.columns", dict(law=ch, i=i), lambda: list(tab.columns), [c for c, _ in COLS])
    for x in range(lo, hi + 1):
        for col, dig in COLS:
            n = int(col.split(":")[1]) if ":" in col else int(col.split("_")[0]) if "_E_" in col else 0
            if n > ch.hi - x:
                continue
            slack = tol(ch, x, (ch.EK(ch.hi, 0, M.ann(v)) + 1) * (1 + 1 / max(i, .03))) if n == 0 and col[0] != "l" and col != "q_x" else 0
            if ch.surv(ch.lo, x - ch.lo) < 1e-280:
                continue
            ck.step()
            ck.eq("frame.cell", dict(law=ch, i=i, x=x, col=col), lambda: float(tab.loc[x, col]), cell(ch, x, col, v), 0, 0.5000001 * 10 ** -dig + slack)
    sub = life.frame(minage=lo + 3, maxage=lo + 7)
    ck.eq("frame.part", dict(law=ch, i=i), lambda: [list(map(int, sub.index)), sub.equals(tab.loc[lo + 3:lo + 7])], [list(range(lo + 3, lo + 8)), True])
    for col in "qpaA":
        got = life[col]
        ck.eq("column.ages", dict(law=ch, i=i, col=col), lambda: sorted(got), list(range(lo, hi + 1)))
        for x in range(lo, hi + 1):
            if ch.surv(ch.lo, x - ch.lo) < 1e-280:
                continue
            c = {"q": "q_x", "a": "a_x", "A": "A_x"}.get(col)
            want = ch.surv(x, 1) if col == "p" else cell(ch, x, c, v)
            slack = tol(ch, x, (ch.EK(ch.hi, 0, M.ann(v)) + 1) * (1 + 1 / max(i, .03))) if col in "aA" else 1e-9
            ck.eq("column", dict(law=ch, i=i, col=col, x=x), lambda: got[x], want, 1e-8, slack)


def explore(ck):
    signatures(ck, "SULT")
    items = []
    for ch in laws(ck.thorough):
        for i in (0.05, 0.0, 0.03) + ((0.1, 0.01, 0.25) if ck.thorough else ()):
            items += [("a", (ch, i, k, 6)) for k in range(6)]
            items.append(("f", (ch, i)))
    # the published defaults
    life = SULT()
    for x, l, q, a, A in ((20, 100000.0, .000250, 19.9664, .04922), (50, 98576.4, .001209, 17.0245, .18931), (80, 75657.2, .032658, 8.5484, .59293)):
        ck.eq("published", dict(x=x), lambda: [round(life.l_x(x), 1), round(life.q_x(x), 6), round(life.whole_life_annuity(x), 4),
                                               round(life.whole_life_insurance(x), 5)], [l, q, a, A])
    ck.each(items, lambda c, it: dict(a=ages, f=shown)[it[0]](c, it[1]))
