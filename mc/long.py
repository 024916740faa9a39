"""Long horizons: the shapes of the small worlds at terms, deferrals, durations and tables of tens of years."""
import math
from actuarialmath import Annuity, LifeTable, Mthly, SelectLife
from . import model as M

W, VAR = M.WHOLE, -2
RATE = lambda a: round(.004 + .0003 * a + .00002 * (a % 7), 6)
LONG = M.Chain("long", [RATE(a) for a in range(99)] + [1.0], minage=0)
I = .04
V = 1 / (1 + I)
AGES, TERMS = ((1, 0), (30, 0), (20, 11)), (12, 24, 37, 58)


def table():
    return LifeTable(udd=True).set_table(q={a: LONG.q(a) for a in range(100)}, radix=10 ** 9).set_interest(i=I)


def lives():
    return [("S", Annuity().set_survival(S=LONG.S, minage=0, maxage=LONG.omega).set_interest(i=I)), ("table", table())]


def E(x, s, g, mom=1):
    return LONG.VK(x, s, g) if mom == VAR else LONG.EK(x, s, lambda k: g(k) ** mom)


def horizons():
    """(age, duration, term, deferral) for a quick and yet long walk"""
    return [(x, s, t, u) for x, s in AGES for t in TERMS for u in (0, 13, 31) if x + s + t + u < 99]


def cases(ck, how, o, x, s, t, u):
    k = dict(world="long", how=how, x=x, s=s, t=t, u=u)
    ck.visit("long", how, x, s, t, u)
    ck.step(LONG.omega - x - s)
    T = (1e-7, 1e-7)
    return k, lambda site, f, want: ck.eq("long." + site, k, f, want, *T)


def expectations(ck, how):
    for h, o in lives():
        for x, s, t, u in horizons():
            if u or (how and h != how):
                continue
            k, eq = cases(ck, h, o, x, s, t, u)
            for m in (1, 2, VAR):
                eq(f"e_x{m}", lambda: o.e_x(x, s=s, t=t, curtate=True, moment=m), E(x, s, lambda j: min(j, t), m))
                eq(f"e_x{m}.whole", lambda: o.e_x(x, s=s, curtate=True, moment=m), E(x, s, lambda j: j, m))


def fractions(ck):
    o = table()
    for x, s, t, u in horizons():
        k, eq = cases(ck, "table", o, x, s, t, u)
        S = LONG.S
        b = S(x, s, .5)
        eq("p_r", lambda: o.p_r(x, s=s, r=.5, t=t + .25), S(x, s, t + .75) / b)
        eq("q_r", lambda: o.q_r(x, s=s, r=.5, t=t, u=u + .75), (S(x, s, u + 1.25) - S(x, s, t + u + 1.25)) / b)
        eq("l_r", lambda: o.l_r(x, s=s + t, r=.25) / o.l_r(x, s=s), S(x, s, t + .25))
        eq("f_r", lambda: o.f_r(x, s=s, r=.5, t=t), (S(x, s, t) - S(x, s, t + 1)) / b)


def insurances(ck):
    for h, o in lives():
        for x, s, t, u in horizons():
            k, eq = cases(ck, h, o, x, s, t, u)
            for m in (1, 2):
                eq(f"deferred{m}", lambda: o.deferred_insurance(x, s=s, u=u, t=t, b=3, moment=m), E(x, s, M.ins(V, t, u, lambda j: 3), m))
                eq(f"A_x{m}", lambda: o.A_x(x, s=s, t=t, u=u, benefit=lambda a, n: 1 + n % 3, endowment=2, moment=m), E(x, s, M.ins(V, t, u, lambda j: 1 + j % 3, 2), m))
            if u:
                continue
            for m in (1, 2, VAR):
                eq(f"term{m}", lambda: o.term_insurance(x, s=s, t=t, b=3, moment=m), E(x, s, M.ins(V, t, 0, lambda j: 3), m))
                eq(f"endowment{m}", lambda: o.endowment_insurance(x, s=s, t=t, b=3, endowment=2, moment=m), E(x, s, M.ins(V, t, 0, lambda j: 3, 2), m))
                eq(f"E_x{m}", lambda: o.E_x(x, s=s, t=t, endowment=2, moment=m), E(x, s, M.pure(V, t, 2), m))
                eq(f"whole{m}", lambda: o.whole_life_insurance(x, s=s, b=3, moment=m), E(x, s, M.ins(V, b=lambda j: 3), m))
            eq("increasing", lambda: o.increasing_insurance(x, s=s, t=t, b=3), E(x, s, M.ins(V, t, 0, lambda j: 3 * j)))
            eq("increasing.whole", lambda: o.increasing_insurance(x, s=s, b=3), E(x, s, M.ins(V, b=lambda j: 3 * j)))
            eq("decreasing", lambda: o.decreasing_insurance(x, s=s, t=t, b=3), E(x, s, M.ins(V, t, 0, lambda j: 3 * (t + 1 - j))))


def annuities(ck):
    for h, o in lives():
        for x, s, t, u in horizons():
            k, eq = cases(ck, h, o, x, s, t, u)
            eq("deferred", lambda: o.deferred_annuity(x, s=s, u=u, t=t, b=3), E(x, s, M.ann(V, t, u, lambda j: 3)))
            eq("a_x", lambda: o.a_x(x, s=s, t=t, u=u, benefit=lambda a, n: 1 + n % 3), E(x, s, M.ann(V, t, u, lambda j: 1 + j % 3)))
            if u:
                eq("certain", lambda: o.certain_life_annuity(x, s=s, u=u, b=3), E(x, s, M.ann(V, W, u, lambda j: 3, certain=u)))
                continue
            for var in (False, True):
                m = VAR if var else 1
                eq(f"temporary{m}", lambda: o.temporary_annuity(x, s=s, t=t, b=3, variance=var), E(x, s, M.ann(V, t, 0, lambda j: 3), m))
                eq(f"whole{m}", lambda: o.whole_life_annuity(x, s=s, b=3, variance=var), E(x, s, M.ann(V, b=lambda j: 3), m))
            eq("immediate", lambda: o.immediate_annuity(x, s=s, t=t, b=3), E(x, s, lambda j: M.ann(V, t + 1, 1 - 1)(j) - 1) * 3)
            eq("increasing", lambda: o.increasing_annuity(x, s=s, t=t, b=3), E(x, s, M.ann(V, t, 0, lambda j: 3 * (j + 1))))
            eq("decreasing", lambda: o.decreasing_annuity(x, s=s, t=t, b=3), E(x, s, M.ann(V, t, 0, lambda j: 3 * (t - j))))


def premiums(ck):
    o = table()
    for x, s, t, u in horizons():
        if u:
            continue
        k, eq = cases(ck, "table", o, x, s, t, u)
        A, a = E(x, s, M.ins(V, t, 0, lambda j: 3)), E(x, s, M.ann(V, t))
        eq("term", lambda: o.net_premium(x, s=s, t=t, b=3), A / a)
        eq("limited", lambda: o.net_premium(x, s=s, n=11, b=3), E(x, s, M.ins(V, b=lambda j: 3)) / E(x, s, M.ann(V, 11)))
        eq("long limited", lambda: o.net_premium(x, s=s, n=t, b=3), E(x, s, M.ins(V, b=lambda j: 3)) / a)
        eq("endowment", lambda: o.net_premium(x, s=s, t=t, b=3, endowment=3), E(x, s, M.ins(V, t, 0, lambda j: 3, 3)) / a)


def net(x, s, n, P, t):
    return E(x, s + t, M.ins(V, n - t, 0, lambda j: 3, 2)) - P * E(x, s + t, M.ann(V, n - t))


def reserves(ck):
    from actuarialmath import Contract
    for x, s, n, u in horizons():
        if u:
            continue
        o = table()
        k, eq = cases(ck, "table", o, x, s, n, u)
        P = E(x, s, M.ins(V, n, 0, lambda j: 3, 2)) / E(x, s, M.ann(V, n))
        c = Contract(premium=P, benefit=3, endowment=2, T=n)
        want = [net(x, s, n, P, t) for t in range(n)] + [2.0]
        eq("fill", lambda: [float(r) for r in o.set_reserves(T=n, endowment=2).fill_reserves(x, s=s, contract=c).reserves_frame()["V_t"].sort_index()], want)
        for t in (11, n - 1):
            eq(f"forward{t - n if t != 11 else t}", lambda: table().set_reserves(T=n, V={t - 1: want[t - 1]}).t_V_forward(x, s=s, t=t, premium=P, benefit=lambda j: 3), want[t])
            eq(f"backward{t - n if t != 11 else t}", lambda: table().set_reserves(T=n, V={t: want[t]}).t_V_backward(x, s=s, t=t - 1, premium=P, benefit=lambda j: 3), want[t - 1])


def modified(ck):
    o = table()
    A, a = (lambda y: E(y, 0, M.ins(V, b=lambda j: 3))), (lambda y: E(y, 0, M.ann(V)))
    for x, s, t, u in horizons():
        if u or x + s + t > 97:
            continue
        k, eq = cases(ck, "table", o, x, s, t, u)
        y = x + s
        eq("FPT", lambda: o.FPT_policy_value(x, s=s, t=t, b=3), A(y + t) - A(y + 1) / a(y + 1) * a(y + t))


def entries(ck):
    """tables of 40 ages from sparse data, filled forwards, backwards and from the middle"""
    lo, hi = 30, 70
    l = {lo: 10.0 ** 9}
    for a in range(lo, hi):
        l[a + 1] = l[a] * (1 - RATE(a))
    q, d = {a: RATE(a) for a in range(lo, hi)}, {a: l[a] - l[a + 1] for a in range(lo, hi)}
    p = {a: 1 - r for a, r in q.items()}
    for at in (lo, lo + 1, 50, hi - 1, hi):
        for name, given in (("q", dict(q=q)), ("p", dict(p=p)), ("d", dict(d=d)), ("mixed", dict(q={a: r for a, r in q.items() if a % 3 == 0}, p={a: r for a, r in p.items() if a % 3 == 1}, d={a: r for a, r in d.items() if a % 3 == 2}))):
            ck.visit("long table", at, name)
            ck.step(hi - lo)
            made = lambda: LifeTable().set_table(l={at: l[at]}, **given)
            ck.eq("long.table.l", dict(at=at, given=name), lambda: [made().l_x(a) for a in range(lo, hi)], [l[a] for a in range(lo, hi)], 1e-6, 1e-6)
            ck.eq("long.table.d", dict(at=at, given=name), lambda: [made().d_x(a) for a in range(lo, hi)], [d[a] for a in range(lo, hi)], 1e-4, 1e-4)
            ck.eq("long.table.p", dict(at=at, given=name), lambda: [made().p_x(a) for a in range(lo, hi)], [p[a] for a in range(lo, hi)], 1e-6, 1e-6)


def lookups(ck):
    o = table()
    for x, s, t, u in horizons():
        k, eq = cases(ck, "table", o, x, s, t, u)
        eq("p_x", lambda: o.p_x(x, s=s, t=t), LONG.p(x, s, t))
        eq("q_x", lambda: o.q_x(x, s=s, t=t, u=u), LONG.p(x, s, u) - LONG.p(x, s, t + u))
        eq("l_x", lambda: o.l_x(x, s=s + t) / o.l_x(x, s=s), LONG.p(x, s, t))
        eq("d_x", lambda: o.d_x(x, s=s, t=t) / o.l_x(x, s=s), 1 - LONG.p(x, s, t))
        eq("E_x", lambda: o.E_x(x, s=s, t=t, endowment=2), 2 * V ** t * LONG.p(x, s, t))
        eq("f_x", lambda: o.mu_x(x, s=s, t=t), -math.log(1 - LONG.q(x, s + t)))
        if not u:
            for m in (1, 2, VAR):
                eq(f"e_x{m}", lambda: o.e_x(x, s=s, t=t, curtate=True, moment=m), E(x, s, lambda j: min(j, t), m))


def select(ck):
    """a select period of twelve years, thirty ages of selection"""
    N, lo, hi = 12, 30, 60
    q = lambda x, s: round(RATE(x + s) * (1 - .05 * (N - min(s, N))), 6)
    rows = {x: [q(x, s) for s in range(N + 1)] for x in range(lo, hi + 1)}
    l, last = {}, 10.0 ** 6
    for age in range(hi + N, lo + N - 1, -1):          # ultimate lives, from the last age back
        l[age] = last
        last = last / (1 - q(age - 1 - N, N)) if age > lo + N else last
    def lives_at(x, s):
        r = l[x + N]
        for j in range(N - 1, s - 1, -1):
            r /= 1 - q(x, j)
        return r
    o = SelectLife().set_interest(i=I).set_table(q=rows, l={hi: [None] * N + [10.0 ** 6]})
    for x in (lo, lo + 1, 44, hi - 1):
        for s in (0, 7, 11, 12, 15):
            ck.visit("long select", x, s)
            y, r = (x, s) if s <= N else (x + s - N, N)
            if y > hi:
                continue
            k = dict(world="long", x=x, s=s)
            ck.eq("long.select.l", k, lambda: o.l_x(x, s=s), lives_at(y, r), 1e-7, 1e-7)
            n = min(hi + N - x - s, 25)
            surv = [1.0]
            for j in range(n):
                surv.append(surv[-1] * (1 - (q(x, s + j) if s + j <= N else q(x + s + j - N, N))))
            ck.step(n)
            ck.eq("long.select.p", k, lambda: [o.p_x(x, s=s, t=t) for t in range(n + 1)], surv, 1e-7, 1e-7)
            ck.eq("long.select.term", k, lambda: o.term_insurance(x, s=s, t=n), math.fsum((surv[j] - surv[j + 1]) * V ** (j + 1) for j in range(n)), 1e-7, 1e-7)
            ck.eq("long.select.annuity", k, lambda: o.temporary_annuity(x, s=s, t=n), math.fsum(surv[j] * V ** j for j in range(n)), 1e-7, 1e-7)


def mthly(ck):
    o = table()
    for m in (2, 12):
        w = Mthly(m=m, life=o)
        for x, s, t, u in horizons():
            if t > 37 or (m == 12 and t > 12):
                continue
            k, eq = cases(ck, f"m={m}", o, x, s, t, u)
            em = lambda g: LONG.Em(x, s, g, m)
            paid = lambda j, b, e: V ** ((j + 1) / m) * b if u * m <= j < (u + t) * m else e * V ** (u + t) if j >= (u + t) * m else 0.0
            eq("A_x", lambda: w.A_x(x, s=s, t=t, u=u, benefit=lambda a, r: 1 + int(r) % 3), em(lambda j: paid(j, 1 + (j // m) % 3, 0)) if not u else em(lambda j: paid(j, 1 + ((j - 0) // m) % 3, 0)))
            eq("deferred", lambda: w.deferred_insurance(x, s=s, u=u, t=t, b=3), em(lambda j: paid(j, 3, 0)))
            due = [math.fsum(V ** (h / m) for h in range(j + 1)) / m for j in range((t + u) * m)]
            upto = lambda j, n: 0.0 if n == 0 else due[min(j, n * m - 1)]
            eq("deferred annuity", lambda: w.deferred_annuity(x, s=s, u=u, t=t, b=3), 3 * em(lambda j: upto(j, t + u) - upto(j, u)))
            if not u:
                eq("term", lambda: w.term_insurance(x, s=s, t=t, b=3), em(lambda j: paid(j, 3, 0)))
                eq("endowment", lambda: w.endowment_insurance(x, s=s, t=t, b=3), em(lambda j: paid(j, 3, 3)))
                eq("temporary", lambda: w.temporary_annuity(x, s=s, t=t, b=3), 3 * em(lambda j: upto(j, t)))
