"""C35: solver, derivative, integral and term helpers over a family of functions with known answers."""
import math
from actuarialmath import Actuarial, Life, LifeTable
from .sigs import signatures

ASSUMPTIONS = ["functions come from a fixed family of monotone functions with closed-form inverses"]
# name, function, inverse, derivative, domain of arguments
FAM = [
    ("linear", lambda x: 3 * x - 2, lambda y: (y + 2) / 3, lambda x: 3.0, (-5, 20)),
    ("falling", lambda x: 7 - x / 4, lambda y: 4 * (7 - y), lambda x: -0.25, (-5, 40)),
    ("exp", lambda x: math.exp(x / 10), lambda y: 10 * math.log(y), lambda x: math.exp(x / 10) / 10, (-5, 20)),
    ("decay", lambda x: math.exp(-x / 20), lambda y: -20 * math.log(y), lambda x: -math.exp(-x / 20) / 20, (0, 40)),
    ("log", lambda x: math.log(x + 20), lambda y: math.exp(y) - 20, lambda x: 1 / (x + 20), (0, 60)),
    ("cubic", lambda x: x ** 3 + 5 * x, None, lambda x: 3 * x * x + 5, (-3, 6)),
    ("branch", lambda x: x if x < 8 else 8 + 2 * (x - 8), None, lambda x: 1.0 if x < 8 else 2.0, (0, 20)),
    ("recip", lambda x: 1 / x, lambda y: 1 / y, lambda x: -1 / x ** 2, (20, 60)),
    ("annuity", lambda t: (1 - 1.05 ** -t) / (0.05 / 1.05), None, lambda t: math.log(1.05) * 1.05 ** -t / (0.05 / 1.05), (0, 40)),
]
# curves that level off: only guesses near the solution converge, which a range of guesses must find
LEVEL = [
    ("sigmoid", lambda x: 1 / (1 + math.exp(10 - x)), (0, 20), (3, 17)),
    ("error", lambda x: math.erf((x - 10) / 5), (0, 20), (3, 17)),
    ("falling away", lambda x: -math.tanh((x - 10) / 3), (0, 20), (3, 17)),
    ("survival", lambda t: math.exp(-.0001 * 1.1 ** 30 * (1.1 ** min(t, 90) - 1) / math.log(1.1)), (0, 60), (10, 45)),
]


def level(ck):
    for name, f, (lo, hi), (a, b) in LEVEL:
        n = 29 if ck.thorough else 9
        for k in range(n):
            x = a + (b - a) * k / (n - 1)
            for g, grid in (("list", [lo, hi]), ("tuple", (lo, hi)), ("wide3", [lo, (lo + hi) / 2, hi]), ("reversed", [hi, lo])):
                ck.visit(name, x, g)
                ck.step()
                ck.eq("solve.level", dict(f=name, x=x, guess=g), lambda: Actuarial.solve(f, f(x), grid), x, 1e-5, 1e-5)
            ck.eq("solve.level.at", dict(f=name, x=x), lambda: Life().solve(f, target=f(x), grid=x), x, 1e-5, 1e-5)


def explore(ck):
    level(ck)
    signatures(ck, "Actuarial")
    steps = 21 if ck.thorough else 9
    for name, f, inv, df, (lo, hi) in FAM:
        xs = [lo + (hi - lo) * k / (steps - 1) for k in range(steps)]
        for x in xs:
            target = f(x)
            width = (hi - lo) / 4
            guesses = [("at", x), ("near", x + 0.1 * width), ("below", max(lo, x - width)), ("above", min(hi, x + width)),
                       ("list", [lo, hi]), ("tuple", (lo, hi)), ("wide3", [lo, (lo + hi) / 2, hi]), ("reversed", [hi, lo])]
            for g, grid in guesses:
                ck.visit(name, x, g)
                ck.step()
                k = dict(f=name, x=x, guess=g)
                ck.eq("solve", k, lambda: Actuarial.solve(f, target, grid), x, 1e-5, 1e-5)
                ck.eq("solve.value", k, lambda: f(Life().solve(fun=f, target=target, grid=grid)), target, 1e-6, 1e-6)
                def last():
                    seen = []
                    def g_(y):
                        seen.append(float(y))
                        return f(y)
                    r = Actuarial.solve(fun=g_, target=target, grid=grid)
                    return float(r) - seen[-1]
                ck.eq("solve.last", k, last, 0.0, 0, 1e-12)
            for g, grid in (("list", [lo, hi]), ("tuple", (lo, hi))) if name != "log" else ():
                k = dict(f=name, x=x, guess=g)
                ck.visit(name, x, "mad", g)
                ck.eq("solve.mad", k, lambda: Actuarial.solve(f, target, grid, mad=True), x, 1e-4, 1e-4)
        for x in xs[1:-1]:
            if name == "branch" and abs(x - 8) <= 1:
                continue
            ck.eq("derivative", dict(f=name, x=x), lambda: Actuarial.derivative(f, x), df(x), 1e-5, 1e-6)
            ck.eq("derivative.instance", dict(f=name, x=x), lambda: Life().derivative(fun=f, x=x), df(x), 1e-5, 1e-6)
            ck.eq("derivative.float", dict(f=name, x=x), lambda: type(Actuarial.derivative(f, x)) is float, True)
            for y in xs:
                # integral of the derivative is the difference of the function
                ck.step()
                ck.eq("integral", dict(f=name, a=x, b=y), lambda: Actuarial.integral(df, x, y), f(y) - f(x), 1e-6, 1e-6)
    for a in (0.0, 1.0, -2.5, 100.0):
        for e in (0.0, 1e-8, -1e-8, 1e-3, -0.5):
            ck.eq("isclose", dict(a=a, e=e), lambda: Actuarial.isclose(a + e, a), abs(e) < 1e-6)
            ck.eq("isclose.tol", dict(a=a, e=e), lambda: Actuarial.isclose(a + e, a, abs_tol=0.01), abs(e) < 0.01)
            if a == 0:
                ck.eq("isclose.zero", dict(e=e), lambda: Life.isclose(e), abs(e) < 1e-6)
    W = Actuarial.WHOLE
    for t in [W] + list(range(-4, 8)):
        for n in [W] + list(range(-4, 8)):
            ck.visit("add", t, n)
            ck.eq("add_term", dict(t=t, n=n), lambda: Actuarial().add_term(t, n), W if W in (t, n) else t + n)
    for top in (3, 6):
        life = LifeTable().set_table(q={a: 0.5 if a < top else 1.0 for a in range(top + 1)}, minage=0, maxage=top + 1)
        for x in range(top + 2):
            for u in range(0, top + 2 - x):
                for t in [W] + list(range(0, top + 4)):
                    ck.visit("max", top, x, u, t)
                    room = top + 1 - x - u
                    ck.eq("max_term", dict(top=top, x=x, u=u, t=t), lambda: life.max_term(x, t, u), room if t == W else min(t, room))
    ck.eq("constants", (), lambda: Actuarial.VARIANCE < 0 and Actuarial.WHOLE < 0 and Actuarial.VARIANCE not in (1, 2), True)
