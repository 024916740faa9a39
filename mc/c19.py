"""C19: interim reserves against the year's recursion, full preliminary term against the policy issued one year later."""
import math
from actuarialmath import Reserves, LifeTable, Recursion, Contract
from . import model as M
from . import long
from .c15 import make as make15
from .sigs import signatures

ASSUMPTIONS = ["death benefits are paid at the end of the policy year; mortality within the year follows the stated between-ages assumption",
               "full preliminary term: level insurance with at least two premium years"]
FRACS = (0.0, 0.125, 0.25, 0.5, 0.75, 0.875)


def make(ch, how, i):
    return make15(ch, "reserves" if how == "S" else how, i)


def interim(ck, item):
    ch, how, udd = item
    for i in M.RATES:
        v = 1 / (1 + i)
        if how == "table":
            mk = lambda: LifeTable(udd=udd).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}).set_interest(i=i)
            tol = (2e-6, 2e-6)
        elif how == "recursion":
            def mk():
                life = Recursion(udd=udd, verbose=False).set_interest(i=i)
                for a in range(ch.minage, ch.omega):
                    life.set_q(ch.q(a), x=a)
                return life
            tol = (1e-9, 1e-9)
        else:
            mk = lambda: Reserves(udd=udd).set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
            tol = (1e-9, 1e-9)
        for x in range(ch.minage, ch.omega):
            for s in range(0, 3):
                if x + s >= ch.omega or ch.p(x, 0, s) == 0:
                    continue
                q = ch.q(x, s)
                if q == 1 and not udd:
                    continue
                for r in FRACS:
                    rp = ch.S(x, s, r)              # survives to s + r
                    rest = ch.S(x, s + r, 1 - r) if rp else 0.0
                    for V in (0, 40, -3.5):
                        for P in (0, 12.5):
                            for b in (0, 100):
                                ck.step()
                                ck.visit(ch.name, x, s, r, V, P, b)
                                k = dict(ch=ch, how=how, i=i, x=x, s=s, r=r, V=V, P=P, b=b)
                                at = lambda t, val: mk().set_reserves(T=9, V={t: val})
                                # within the year: (V + P)(1+i)^r = r_p V_r + r_q b v^(1-r);   V_r = v^(1-r) (p V' + q b)
                                fwd = ((V + P) * (1 + i) ** r - (1 - rp) * b * v ** (1 - r)) / rp
                                if True:
                                    ck.eq("r_V_forward", k, lambda: at(s, V).r_V_forward(x, s=s, r=r, premium=P, benefit=b), fwd, *tol)
                                    for j in range(s):
                                        ck.eq("r_V_forward.shifted", dict(k, j=j), lambda: at(s, V).r_V_forward(x, s=j, r=s - j + r, premium=P, benefit=b), fwd, *tol)
                                if P == 0:
                                    bwd = v ** (1 - r) * (rest * V + (1 - rest) * b)
                                    ck.eq("r_V_backward", k, lambda: at(s + 1, V).r_V_backward(x, s=s, r=r, benefit=b), bwd, *tol)
                                    for j in range(s):
                                        ck.eq("r_V_backward.shifted", dict(k, j=j), lambda: at(s + 1, V).r_V_backward(x, s=j, r=s - j + r, benefit=b), bwd, *tol)
                                if q < 1:
                                    # the two projections of one policy year meet
                                    nxt = ((V + P) * (1 + i) - q * b) / (1 - q)

                                    def gap():
                                        life = mk().set_reserves(T=9, V={s: V})
                                        f = life.r_V_forward(x, s=s, r=r, premium=P, benefit=b)
                                        w = life.t_V_forward(x, s=s, t=s + 1, premium=P, benefit=lambda t: b) if 0 else nxt
                                        return f - life.set_reserves(V={s + 1: w}).r_V_backward(x, s=s, r=r, benefit=b)
                                    ck.eq("forward=backward", k, gap, 0.0, 1e-6, 1e-4 if how == "table" else 1e-7)
                k = dict(ch=ch, how=how, i=i, x=x, s=s)
                ck.eq("r_V.unknown", k, lambda: [mk().set_reserves(T=9).r_V_backward(x, s=s, r=.5),
                                                 mk().set_reserves(T=9).r_V_forward(x, s=s + 3, r=.5)], [None, None])


def fpt(ck, item):
    ch, how = item
    for i in M.RATES:
        v = 1 / (1 + i)
        life = make(ch, how, i)
        tol = (1e-9, 1e-9) if how != "table" else (1e-5, 1e-5)
        for x, s in ch.starts(1):
            room = ch.omega - x - s
            if ch.q(x, s) == 1:
                continue
            for b in (1, 250):
                ck.eq("FPT_premium.first", dict(ch=ch, how=how, i=i, x=x, s=s, b=b), lambda: life.FPT_premium(x, s=s, b=b, first=True), b * v * ch.q(x, s), *tol)
                for n in (M.WHOLE, 2, 3, room, room + 2):
                    if n != M.WHOLE and n < 2:
                        continue
                    m = n if n == M.WHOLE else n - 1
                    k = dict(ch=ch, how=how, i=i, x=x, s=s, n=n, b=b)
                    P = ch.EK(x, s + 1, M.ins(v, m, 0, lambda j: b), ck) / ch.EK(x, s + 1, M.ann(v, m), ck)
                    kw = {} if n == M.WHOLE else dict(n=n)
                    ck.eq("FPT_premium.renewal", k, lambda: life.FPT_premium(x, s=s, b=b, **kw), P, *tol)
                    ck.eq("FPT_premium.first.term", k, lambda: life.FPT_premium(x, s=s, b=b, first=True, **kw), b * v * ch.q(x, s), *tol)
                    for e in (0,) if n == M.WHOLE else (0, b, 2 * b):
                        for disc in (True, False):
                            if not disc and (how != "S" or b != 1 or s or i == 0.06 or (ch.name[0] == "u" and not ck.thorough)):
                                continue
                            E = ch.EK if disc else ch.ET
                            ins, ann = (M.ins, M.ann) if disc else (M.insT, M.annT)
                            Pe = E(x, s + 1, ins(v, m, 0, lambda j: b, e)) / E(x, s + 1, ann(v, m))
                            for t in range(0, room):
                                if (n != M.WHOLE and t > n) or ch.p(x, s, t) == 0:
                                    break
                                h = n if n == M.WHOLE else n - t
                                want = 0.0 if t <= 1 else E(x, s + t, lambda kk: ins(v, h, 0, lambda j: b, e)(kk) - Pe * ann(v, h)(kk))
                                ke = dict(k, e=e, t=t, d=disc)
                                ck.visit(ch.name, x, s, n, t)
                                ck.step()
                                kk = dict(kw, b=b, endowment=e) if e else dict(kw, b=b)
                                if n == M.WHOLE:
                                    kk["endowment"] = b
                                if not disc:
                                    kk["discrete"] = False
                                ck.eq("FPT_policy_value", ke, lambda: life.FPT_policy_value(x, s=s, t=t, **kk), want, *(tol if disc else (3e-4, 1e-3)))
                                if t >= 1 and disc:
                                    ck.eq("FPT=later_issue", ke, lambda: life.FPT_policy_value(x, s=s, t=t, **kk)
                                          - life.net_policy_value(x, s=s + 1, t=t - 1, **dict(kk, n=m)), 0.0, 1e-9, 1e-8 * b if how != "table" else 1e-4 * b)


def explore(ck):
    long.modified(ck)
    signatures(ck, "Reserves.r_V_backward|r_V_forward|FPT_premium|FPT_policy_value")
    tables = [M.Chain("t", [.25, .125, .5, .0625, 1.], 3), M.Chain("t0", [.5, .125, .25, 1.], 0)]
    work = []
    for between, udd in (("udd", True), ("cfm", False)):
        for ch in tables + (M.ultimates(True)[20:30] if ck.thorough else []):
            if not ck.thorough or ch in tables:
                work.append((M.Chain(ch.name, ch.rows, ch.minage, between), "table", udd))
                work.append((M.Chain(ch.name, ch.rows, ch.minage, between), "recursion", udd))
            work.append((M.Chain(ch.name, ch.rows, ch.minage, between), "S", udd))
        work += [(ch, "S", udd) for ch in M.selects(ck.thorough, between=between)]
    ck.each(work, interim)
    ck.each([(ch, "S") for ch in M.ultimates(ck.thorough) + M.selects(ck.thorough) + M.selects(ck.thorough, minage=0)]
            + [(t, "table") for t in tables] + [(t, "reserves") for t in tables], fpt)
