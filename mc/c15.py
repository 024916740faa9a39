"""C15: gross policy values and variances against the gross future loss enumerated over every later time of death."""
import itertools, math
from actuarialmath import PolicyValues, Reserves, LifeTable, Contract, Uniform, ConstantForce
from . import model as M
from .c28 import beta, makeham
from .sigs import signatures

ASSUMPTIONS = ["the policy is in force: the insured is below the limiting age at the duration asked for",
               "variances are asked for whole life and for endowment insurance paying the full claim cost at maturity (the documented cases)",
               "expenses of continuous contracts run continuously at the renewal rate; initial expenses in excess of them are paid at issue"]

TERMS = [dict(premium=1.5, benefit=10),
         dict(premium=1.5, benefit=10, settlement_policy=2),
         dict(premium=1.75, benefit=8, settlement_policy=2, initial_policy=3, initial_premium=.5, renewal_policy=1, renewal_premium=.1),
         dict(premium=1.25, benefit=10, initial_policy=2),
         dict(premium=1.25, benefit=10, initial_premium=.25),
         dict(premium=2.0, benefit=10, renewal_premium=.125),
         dict(premium=2.0, benefit=10, renewal_policy=.5, settlement_policy=1),
         dict(premium=0.0, benefit=5, renewal_policy=.5)]


def loss(v, c, m, disc, first, endow):
    """loss on a path from now: claims and endowment plus expenses less premiums; first = policy just issued"""
    ins, ann = (M.ins, M.ann) if disc else (M.insT, M.annT)
    g = lambda key: c.get(key, 0)
    P = c["premium"]
    out = ins(v, m, 0, lambda j: c["benefit"] + g("settlement_policy"), endow)
    pays = ann(v, m)

    def L(k):
        n = pays(k)
        tot = out(k) - P * n + (g("renewal_policy") + g("renewal_premium") * P) * n
        if first:
            tot += g("initial_policy") + g("initial_premium") * P - g("renewal_policy") - g("renewal_premium") * P
        return tot
    return L


def worlds(thorough):
    for ch in M.ultimates(thorough) + M.selects(thorough) + M.selects(thorough, minage=0):
        yield ch, "S"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "table"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "l"
    yield M.Chain("z", [.125, .25, .25, .5, .5, .25, 1.], 0), "reserves"


def make(ch, how, i):
    if how == "table":
        return LifeTable(udd=True).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}).set_interest(i=i)
    if how == "l":
        return Reserves().set_interest(i=i).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)
    cls = Reserves if how == "reserves" else PolicyValues
    return cls().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)


def policy(ck, life, ch, how, i, x, s, n, j, e, disc, rel, abs_, durations=None):
    v = 1 / (1 + i)
    c = dict(TERMS[j])
    claim = c["benefit"] + c.get("settlement_policy", 0)
    E, V = (ch.EK, ch.VK) if disc else (ch.ET, ch.VT)
    for t in durations or range(0, ch.omega - x - s):
        if n != M.WHOLE and t > n or ch.p(x, s, t) == 0:
            break
        m = n if n == M.WHOLE else n - t
        L = loss(v, c, m, disc, t == 0, e)
        con = lambda: Contract(endowment=e, T=n, discrete=disc, **c)
        k = dict(ch=ch, how=how, i=i, x=x, s=s, t=t, d=disc, n=n, c=j, e=e)
        ck.visit(ch.name, x, s, t, n)
        kw = {} if t == 0 and j % 2 else dict(t=t)
        ck.eq("gross_policy_value", k, lambda: life.gross_policy_value(x, s=s, n=n, contract=con(), **kw), E(x, s + t, L, ck), rel, abs_)
        if n != M.WHOLE and t == n:
            ck.eq("gross_policy_value.maturity", k, lambda: life.gross_policy_value(x, s=s, t=t, n=n, contract=con()), float(e), rel, abs_)
        var = V(x, s + t, L, ck)
        if n == M.WHOLE or e == claim:
            ck.eq("gross_policy_variance", k, lambda: life.gross_policy_variance(x, s=s, n=n, contract=con(), **kw), var, rel, abs_)
        else:       # refused, or right
            st, got = ck.call(lambda: life.gross_policy_variance(x, s=s, n=n, contract=con(), **kw))
            ck.eq("gross_policy_variance.other", k, lambda: got if st == "ok" else var, var, rel, abs_)


def check(ck, item):
    ch, how = item
    for i in M.RATES:
        life = make(ch, how, i)
        v = 1 / (1 + i)
        for x, s in ch.starts(2):
            room = ch.omega - x - s
            for disc in (True, False):
                if not disc and (how != "S" or (ch.name[0] == "u" and not ck.thorough and i != 0.25) or s > 1):
                    continue
                tol = (1e-9, 1e-9) if disc and how != "table" else (1e-5, 1e-5) if disc else (3e-4, 1e-3)
                for n in [M.WHOLE] + (list(range(1, room + 3)) if disc else [2, room + 1]):
                    for j in range(len(TERMS)) if disc else (0, 2, 6):
                        claim = TERMS[j]["benefit"] + TERMS[j].get("settlement_policy", 0)
                        for e in (0,) if n == M.WHOLE else (0, claim, 4) + ((TERMS[j]["benefit"],) if claim != TERMS[j]["benefit"] else ()):
                            policy(ck, life, ch, how, i, x, s, n, j, e, disc, *tol)
                k = dict(ch=ch, how=how, i=i, x=x, s=s, d=disc)
                E = ch.EK if disc else ch.ET
                ins, ann = (M.ins, M.ann) if disc else (M.insT, M.annT)
                for n in (M.WHOLE, 2):
                    A = E(x, s, ins(v, n, endow=1.))
                    a = E(x, s, ann(v, n))
                    A2 = E(x, s, lambda z: ins(v, n, endow=1.)(z) ** 2)
                    for j, c in enumerate(TERMS):
                        claim = c["benefit"] + c.get("settlement_policy", 0)
                        L = loss(v, c, n, disc, True, 0 if n == M.WHOLE else claim)
                        want = E(x, s, L)
                        con = lambda: Contract(discrete=disc, **c)
                        kj = dict(k, n=n, c=j)
                        ck.eq("gross_future_loss", kj, lambda: life.gross_future_loss(A=A, a=a, contract=con()), want)
                        ck.eq("gross_future_loss.a", kj, lambda: life.gross_future_loss(a=a, contract=con()), want)
                        if i > 0:
                            ck.eq("gross_future_loss.A", kj, lambda: life.gross_future_loss(A, contract=con()), want)
                            ck.eq("gross_variance_loss", kj, lambda: life.gross_variance_loss(A1=A, A2=A2, contract=con()),
                                  (ch.VK if disc else ch.VT)(x, s, L), 1e-8, 1e-8)
                # no contract: unit benefit, unit premium, no expenses
                if disc and room > 1:
                    unit = loss(v, dict(premium=1, benefit=1), M.WHOLE, True, False, 0)
                    tol2 = tol if how == "table" else (1e-9, 1e-9)
                    ck.eq("gross_policy_value.default", k, lambda: life.gross_policy_value(x, s), E(x, s, unit), *tol2)
                    ck.eq("gross_policy_variance.default", k, lambda: life.gross_policy_variance(x, s), ch.VK(x, s, unit), *tol2)


def laws(ck, i):
    for ch in (beta(80, 1, Uniform), makeham(0.0002, 3e-5, 1.1, 120)):
        life = ch.make().set_interest(i=i)
        for x, s in ((20, 0), (45, 2)):
            for n, ts in ((M.WHOLE, (0, 1, 7)), (15, (0, 6, 14, 15)), (60, (0, 12)), (200, (0, 5))):
                for j in (0, 2, 6):
                    claim = TERMS[j]["benefit"] + TERMS[j].get("settlement_policy", 0)
                    for e in (0,) if n == M.WHOLE else (0, claim, 4):
                        for t in ts:
                            policy(ck, life, ch, "law", i, x, s, n, j, e, True, 1e-6, 1e-6, (t,))


def explore(ck):
    signatures(ck, "PolicyValues.gross_future_loss|gross_variance_loss|gross_policy_variance|gross_policy_value")
    ck.each(worlds(ck.thorough), check)
    ck.each(M.RATES, laws)
