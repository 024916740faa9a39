"""C14: net policy values and variances against the future net loss enumerated over every later time of death."""
import math
from actuarialmath import PolicyValues, Reserves, LifeTable, ConstantForce, SelectLife, Uniform
from . import model as M
from .c28 import beta, makeham
from .sigs import signatures

ASSUMPTIONS = ["the policy is in force: the insured is below the limiting age at the duration asked for",
               "variances are asked for whole life and for endowment insurance paying the same amount on death and survival (the documented cases)"]


def worlds(thorough):
    for ch in M.ultimates(thorough) + M.selects(thorough) + M.selects(thorough, minage=0):
        yield ch, "S"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "table"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "l"
    yield M.Chain("z", [.125, .25, .25, .5, .5, .25, 1.], 0), "reserves"


def make(ch, how, i):
    if how == "table":
        return LifeTable(udd=True).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}).set_interest(i=i)
    if how == "l":
        return Reserves().set_interest(i=i).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)
    cls = Reserves if how == "reserves" else PolicyValues
    return cls().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)


def policy(ck, life, ch, how, i, x, s, n, b, e, disc, rel, abs_):
    v = 1 / (1 + i)
    ins, ann = (M.ins, M.ann) if disc else (M.insT, M.annT)
    E = ch.EK if disc else ch.ET
    V = ch.VK if disc else ch.VT
    kw = dict(b=b, n=n, endowment=e) if n != M.WHOLE else dict(b=b)
    if n == M.WHOLE and e:
        kw["endowment"] = e          # a whole life policy never matures
    if not disc:
        kw["discrete"] = False
    P = E(x, s, ins(v, n, 0, lambda j: b, e), ck) / E(x, s, ann(v, n), ck)
    for t in range(0, ch.omega - x - s):
        if n != M.WHOLE and t > n:
            break
        if ch.p(x, s, t) == 0:
            break
        m = n if n == M.WHOLE else n - t

        def loss(k):
            return ins(v, m, 0, lambda j: b, e)(k) - P * ann(v, m)(k)
        k = dict(ch=ch, how=how, i=i, x=x, s=s, t=t, d=disc, n=n, b=b, e=e)
        want = E(x, s + t, loss, ck)
        ck.visit(ch.name, x, s, t, n)
        ck.eq("net_policy_value", k, lambda: life.net_policy_value(x, s=s, t=t, **kw), want, rel, abs_)
        if t == 0:
            ck.eq("net_policy_value.issue", k, lambda: life.net_policy_value(x, s=s, **kw), 0.0, rel, max(abs_, 1e-9))
        if n != M.WHOLE and t == n:
            ck.eq("net_policy_value.maturity", k, lambda: life.net_policy_value(x, s=s, t=t, **kw), float(e), rel, abs_)
        var = V(x, s + t, loss, ck)
        if n == M.WHOLE or e == b:
            ck.eq("net_policy_variance", k, lambda: life.net_policy_variance(x, s=s, t=t, **kw), var, rel, abs_)
        else:       # refused, or right
            st, got = ck.call(lambda: life.net_policy_variance(x, s=s, t=t, **kw))
            ck.eq("net_policy_variance.other", k, lambda: got if st == "ok" else var, var, rel, abs_)


def check(ck, item):
    ch, how = item
    for i in M.RATES:
        life = make(ch, how, i)
        v = 1 / (1 + i)
        for x, s in ch.starts(2):
            room = ch.omega - x - s
            for disc in (True, False):
                if not disc and (how != "S" or (ch.name[0] == "u" and not ck.thorough and i != 0.25) or s > 1):
                    continue
                tol = (1e-9, 1e-9) if disc and how != "table" else (2e-6, 2e-6) if disc else (3e-4, 1e-4)
                for n in [M.WHOLE] + (list(range(1, room + 3)) if disc else [2, room + 1]):
                    for b, e in ((1, 1), (3, 3), (3, 0), (2, 5)) + (((1, 0), (4, 1)) if disc else ()):
                        if not disc and n == M.WHOLE and e != b:
                            continue
                        policy(ck, life, ch, how, i, x, s, n, b, e, disc, *tol)
            if i > 0:                # shortcuts from insurance values
                for n in (M.WHOLE, 3):
                    for t in range(0, room):
                        if ch.p(x, s, t) == 0 or (n > 0 and t > n):
                            continue
                        m = n if n < 0 else n - t
                        A = ch.EK(x, s, M.ins(v, n, endow=1.))
                        A1 = ch.EK(x, s + t, M.ins(v, m, endow=1.))
                        A2 = ch.EK(x, s + t, lambda j: M.ins(v, m, endow=1.)(j) ** 2)
                        P = 5 * A / ch.EK(x, s, M.ann(v, n))
                        loss = lambda j: 5 * M.ins(v, m, endow=1.)(j) - P * M.ann(v, m)(j)
                        k = dict(ch=ch, how=how, i=i, x=x, s=s, t=t, n=n)
                        ck.eq("net_future_loss", k, lambda: [life.net_future_loss(A=A, A1=A1, b=5), life.net_future_loss(A, A1) * 5],
                              [ch.EK(x, s + t, loss)] * 2)
                        ck.eq("net_variance_loss", k, lambda: life.net_variance_loss(A=A, A1=A1, A2=A2, b=5), ch.VK(x, s + t, loss))
                        if t == 0:
                            ck.eq("net_variance_loss.issue", k, lambda: life.net_variance_loss(A1=A1, A2=A2, b=5), ch.VK(x, s, loss))


def laws(ck, i):
    for ch in (beta(80, 1, Uniform), makeham(0.0002, 3e-5, 1.1, 120)):
        life = ch.make().set_interest(i=i)
        v = 1 / (1 + i)
        for x, s in ((20, 0), (45, 2)):
            for n, t in ((M.WHOLE, 0), (M.WHOLE, 7), (15, 6), (15, 14), (15, 15), (60, 12), (200, 5)):
                for b, e in ((1, 1), (3, 0), (2, 5)):
                    if n == M.WHOLE and e != b:
                        continue
                    m = n if n == M.WHOLE else n - t
                    ck.step()
                    P = ch.EK(x, s, M.ins(v, n, 0, lambda j: b, e), ck) / ch.EK(x, s, M.ann(v, n), ck)
                    loss = lambda k: M.ins(v, m, 0, lambda j: b, e)(k) - P * M.ann(v, m)(k)
                    k = dict(ch=ch, i=i, x=x, s=s, n=n, t=t, b=b, e=e)
                    ck.eq("law.value", k, lambda: life.net_policy_value(x, s=s, t=t, n=n, b=b, endowment=e),
                          ch.EK(x, s + t, loss), 1e-6, 1e-6)
                    if e == b:
                        ck.eq("law.variance", k, lambda: life.net_policy_variance(x, s=s, t=t, n=n, b=b, endowment=e),
                              ch.VK(x, s + t, loss), 1e-6, 1e-6)
    for c in (0.04, 0.3):
        life = ConstantForce(mu=c).set_interest(i=i)
        for x, s, t in ((40, 0, 0), (40, 0, 5), (30, 3, 2)):
            for disc in (True, False):      # an exponential life renews itself: whole life reserves stay zero
                ck.visit("cf", c, t)
                ck.eq("exponential.value", dict(c=c, i=i, x=x, s=s, t=t, d=disc),
                      lambda: life.net_policy_value(x, s=s, t=t, b=7, discrete=disc), 0.0, 1e-6, 1e-6)
                q, v, dl = -math.expm1(-c), 1 / (1 + i), math.log1p(i)
                if disc:        # L = 7v^(K+1) - P (1-v^(K+1))/d, P = 7vq; at zero interest 7 - 7q(K+1)
                    A1, A2 = v * q / (1 - v * (1 - q)), v * v * q / (1 - v * v * (1 - q))
                    var = 49 * (A2 - A1 ** 2) / (1 - A1) ** 2 if i else 49 * q ** 2 * (1 - q) / q ** 2
                else:           # L = 7v^T - 7c abar_T
                    A1, A2 = c / (c + dl), c / (c + 2 * dl)
                    var = 49 * (A2 - A1 ** 2) / (1 - A1) ** 2 if i else 49.0
                ck.eq("exponential.variance", dict(c=c, i=i, x=x, s=s, t=t, d=disc),
                      lambda: life.net_policy_variance(x, s=s, t=t, b=7, discrete=disc), var, 1e-6, 1e-6)


def explore(ck):
    signatures(ck, "PolicyValues.net_future_loss|net_variance_loss|net_policy_variance|net_policy_value")
    ck.each(worlds(ck.thorough), check)
    ck.each(M.RATES, laws)
