"""C02: annuity-certain factors against explicit payment schedules."""
import math
from actuarialmath import Interest, Life
from .sigs import signatures

ASSUMPTIONS = ["rates, frequencies and terms come from fixed alphabets; perpetuities only at positive rates"]


def schedule(i, t, m, due):
    """every payment date of an m-thly annuity of 1 per year for t years, discounted one by one"""
    v = 1 / (1 + i)
    dates = range(t * m) if due else range(1, t * m + 1)
    return math.fsum(v ** (k / m) / m for k in dates), len(dates)


def explore(ck):
    signatures(ck, "Interest.annuity")
    rates = [0.0, 0.005, 0.03, 0.05, 0.1, 0.25, 1.0] + ([0.01 * k for k in range(1, 60)] if ck.thorough else [])
    terms = list(range(0, 13)) + [20, 35, 60]
    for i in rates:
        for how, make in (("Interest", lambda: Interest(i=i)), ("delta", lambda: Interest(delta=math.log1p(i))),
                          ("Life", lambda: Life().set_interest(v=1 / (1 + i)).interest)):
            for m in (1, 2, 3, 4, 12, 52):
                for due in (True, False):
                    for t in terms:
                        want, n = schedule(i, t, m, due)
                        ck.visit(i, m, due, t)
                        ck.step(n)
                        ck.eq(how + ".annuity", dict(i=i, t=t, m=m, due=due),
                              lambda: make().annuity(t=t, m=m, due=due), want, 1e-9, 1e-9)
                    if i > 0:
                        v = 1 / (1 + i)
                        n = int(45 / math.log1p(i) * m) + 1      # remaining payments are below 1e-18
                        if n < 20000:
                            want = math.fsum(v ** (k / m) / m for k in range(0 if due else 1, n))
                            ck.step(n)
                            ck.visit(i, m, due, "perpetuity")
                            ck.eq(how + ".perpetuity", dict(i=i, m=m, due=due),
                                  lambda: make().annuity(m=m, due=due), want, 1e-9)
            for due in (True, False):
                for t in terms:
                    want = t if i == 0 else -math.expm1(-t * math.log1p(i)) / math.log1p(i)
                    ck.visit(i, 0, due, t)
                    ck.step()
                    ck.eq(how + ".continuous", dict(i=i, t=t, due=due),
                          lambda: make().annuity(t=t, m=0, due=due), want, 1e-9, 1e-9)
                if i > 0:
                    ck.eq(how + ".continuous_perpetuity", dict(i=i, due=due),
                          lambda: make().annuity(m=0, due=due), 1 / math.log1p(i))
            for t in (1, 2, 5, 12):
                want, n = schedule(i, t, 1, True)
                ck.eq(how + ".default", dict(i=i, t=t), lambda: make().annuity(t=t), want)
                ck.eq(how + ".positional", dict(i=i, t=t), lambda: make().annuity(t, 2, False), schedule(i, t, 2, False)[0])
