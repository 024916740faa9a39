"""C01: every input form of interest, every rate of the alphabet, every output form and conversion."""
import math
from actuarialmath import Interest, Life, Survival, LifeTable, Actuarial
from .sigs import signatures

RATES = [0.0, 1e-4, 0.005, 0.03, 0.05, 0.1, 0.25, 0.5, 1.0, 3.0]
MS = [1, 2, 3, 4, 6, 12, 52, 365]
TIMES = [0, 0.25, 1, 2, 2.5, 7, 30]
ASSUMPTIONS = ["rates, frequencies and times come from fixed alphabets"]


def forms(i):
    """every way of stating annual rate i"""
    v = 1 / (1 + i)
    out = [("i", dict(i=i)), ("d", dict(d=i / (1 + i))), ("v", dict(v=v)), ("delta", dict(delta=math.log1p(i)))]
    for m in MS:
        im = m * math.expm1(math.log1p(i) / m)
        dm = -m * math.expm1(-math.log1p(i) / m)
        out.append((f"i_m{m}", dict(i_m=im, m=m)))
        out.append((f"d_m{m}", dict(d_m=dm, m=m)))
    out.append(("v_t", dict(v_t=lambda t, v=v: v ** t)))
    return out


def explore(ck):
    signatures(ck, "Interest.mthly|double_force")
    rates = RATES + ([0.001 * k for k in range(1, 200)] if ck.thorough else [])
    for i in rates:
        v, d, delta = 1 / (1 + i), i / (1 + i), math.log1p(i)
        for name, kw in forms(i):
            ck.visit("form", i, name)
            for how, make in (("Interest", lambda: Interest(**kw)),
                              ("Life", lambda: Life().set_interest(**kw).interest),
                              ("Relife", lambda: Life().set_interest(i=0.07).set_interest(**kw).interest)):
                a = dict(form=name, i=i)
                if name != "v_t":
                    ck.eq(how + ".i", a, lambda: make().i, i, 1e-8, 1e-11)
                    ck.eq(how + ".d", a, lambda: make().d, d, 1e-8, 1e-11)
                    ck.eq(how + ".v", a, lambda: make().v, v)
                    ck.eq(how + ".delta", a, lambda: make().delta, delta, 1e-8, 1e-11)
                for t in TIMES:
                    ck.step()
                    ck.eq(how + ".v_t", dict(a, t=t), lambda: make().v_t(t), (1 + i) ** -t, 1e-9)
                    for u in (0, 1, 3.5):
                        ck.eq(how + ".v_t.split", dict(a, t=t, u=u),
                              lambda: make().v_t(t) * make().v_t(u), (1 + i) ** -(t + u), 1e-9)
            if how == "Life" and name != "v_t":
                ck.eq("set_interest.returns", a, lambda: isinstance(Life().set_interest(**kw), Life), True)
        for m in MS + [0]:
            ck.visit("m", i, m)
            im = m * math.expm1(math.log1p(i) / m) if m else delta
            dm = -m * math.expm1(-math.log1p(i) / m) if m else delta
            a = dict(m=m, i=i)
            ck.step(4)
            ck.eq("mthly.i", a, lambda: Interest.mthly(m=m, i=i), im, 1e-8, 1e-11)
            ck.eq("mthly.d", a, lambda: Interest.mthly(m=m, d=d), dm, 1e-8, 1e-11)
            if m:
                ck.eq("mthly.i_m", a, lambda: Interest.mthly(m=m, i_m=im), i, 1e-8, 1e-11)
                ck.eq("mthly.d_m", a, lambda: Interest.mthly(m=m, d_m=dm), d, 1e-8, 1e-11)
                ck.eq("mthly.i.roundtrip", a, lambda: Interest.mthly(m=m, i_m=Interest.mthly(m=m, i=i)), i, 1e-8, 1e-11)
                ck.eq("mthly.d.roundtrip", a, lambda: Interest.mthly(m=m, d_m=Interest.mthly(m=m, d=d)), d, 1e-8, 1e-11)
                ck.eq("mthly.instance", a, lambda: Interest(i=i).mthly(m=m, i=i), im, 1e-8, 1e-11)
        i2 = (1 + i) ** 2 - 1
        ck.step(4)
        ck.eq("double_force.i", dict(i=i), lambda: Interest.double_force(i=i), i2, 1e-9, 1e-12)
        ck.eq("double_force.d", dict(i=i), lambda: Interest.double_force(d=d), i2 / (1 + i2), 1e-9, 1e-12)
        ck.eq("double_force.v", dict(i=i), lambda: Interest.double_force(v=v), v * v, 1e-9, 1e-12)
        ck.eq("double_force.delta", dict(i=i), lambda: Interest.double_force(delta=delta), 2 * delta, 1e-9, 1e-12)
        ck.eq("double_force.life", dict(i=i), lambda: Life().set_interest(i=i).interest.double_force(i=i), i2, 1e-9, 1e-12)
    # separate Interest objects do not share rates, and a discount function need not be exponential
    for i in rates:
        for j in (0.0, 0.05, 0.2):
            def two():
                a, b = Interest(i=i), Interest(i=j)
                return [a.i, a.v_t(2), b.i, b.v_t(2), a.i, a.v_t(3)]
            ck.eq("two_rates", dict(i=i, j=j), two, [i, (1 + i) ** -2, j, (1 + j) ** -2, i, (1 + i) ** -3])
    for a in (0.0, 0.02, 0.1):
        f = lambda t: 1 / (1 + a * t)
        for t in TIMES:
            ck.eq("v_t.simple", dict(a=a, t=t), lambda: Interest(v_t=f).v_t(t), f(t))
    ck.eq("default_rate", dict(), lambda: [Life().interest.i, Life().interest.v_t(5)], [0.0, 1.0])
