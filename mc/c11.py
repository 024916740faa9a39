"""C11: maps between time of death, present value and probability against enumeration of the time of death."""
import math
from actuarialmath import Insurance, Annuity, Reserves, LifeTable, Uniform, Beta, Makeham, Gompertz, SULT
from . import model as M
from .c28 import beta, makeham, LawChain
from .sigs import signatures

ASSUMPTIONS = ["survival is strictly decreasing at the probabilities asked for; those reached at a whole year are compared up to the documented year",
               "the yearly annuity percentile is taken at the documented year ceil(T); times of death are recovered from positive-interest values"]
PROBS = (0.02, 0.11, 0.27, 0.43, 0.5, 0.61, 0.77, 0.9, 0.97)
TIMES = (0, 0.25, 0.999, 1, 1.5, 2, 3.75, 7, 12.5)


class Exp:
    """exponential lifetimes"""
    def __init__(self, c, top):
        self.c, self.top, self.name = c, top, f"exp{c},{top}"
    def __repr__(self): return self.name
    def surv(self, a, t): return math.exp(-self.c * t)
    def dens(self, a, t): return self.c * math.exp(-self.c * t)


class Table:
    """uniform deaths between the ages of a chain"""
    def __init__(self, ch):
        self.ch, self.name = ch, f"table:{ch}"
    def __repr__(self): return self.name
    def surv(self, a, t): return self.ch.S(a, 0, t)
    def dens(self, a, t): return self.ch.f(a, 0, t)


def worlds(thorough):
    def base(cls, w, top, **kw):
        return lambda w=w: cls().set_survival(S=lambda x, s, t: w.surv(x + s, t), f=lambda x, s, t: w.dens(x + s, t), maxage=top, **kw)
    for c, top in ((0.04, 1000), (0.04, 130), (0.3, 100)) + (((0.01, 700), (1.0, 60)) if thorough else ()):
        w = Exp(c, top)
        yield w, base(Insurance, w, top), base(Annuity, w, top), (0, 20, 45), top
    for ch in (beta(80, 1, Uniform), beta(60, 2), makeham(0.0002, 3e-5, 1.1, 120), makeham(0.0, 5e-4, 1.09, 120, Gompertz)):
        yield ch, ch.make, ch.make, (0, 20, 45), ch.limit
    for ch in [M.Chain("z3", [.25, .5, .125, .375, 1.], 2), M.Chain("z4", [.125, .0625, .25, .5, 1.], 40)]:
        w = Table(ch)
        mk = lambda ch=ch: LifeTable(udd=True).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)})
        yield w, mk, mk, tuple(range(ch.minage, ch.omega - 1)), ch.omega
        mk2 = lambda ch=ch: Reserves().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega)
        yield w, mk2, mk2, tuple(range(ch.minage, ch.omega - 1)), ch.omega


def inverse(w, x, prob, top):
    """the time at which survival from x equals prob, by bisection on the law itself"""
    lo, hi = 0.0, float(top - x)
    for _ in range(200):
        mid = (lo + hi) / 2
        if w.surv(x, mid) > prob:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def check(ck, n):
    w, mkz, mky, ages, top = list(worlds(ck.thorough))[n]
    for i in (0.0, 0.05, 0.25):
        v, dl, d = 1 / (1 + i), math.log1p(i), i / (1 + i)
        zl, yl = mkz().set_interest(i=i), mky().set_interest(i=i)
        pvY = lambda t: -math.expm1(-dl * t) / dl if i else t
        pvYd = lambda n: math.fsum(v ** j for j in range(n))
        for t in TIMES:
            k = dict(w=w, i=i, t=t)
            ck.step()
            kk = math.floor(t)
            ck.eq("Z_from_t", k, lambda: [zl.Z_from_t(t), zl.Z_from_t(t, discrete=True), zl.Z_from_t(t, discrete=False)],
                  [v ** (kk + 1), v ** (kk + 1), v ** t])
            ck.eq("Y_from_t", k, lambda: [yl.Y_from_t(t), yl.Y_from_t(t, discrete=True), yl.Y_from_t(t, discrete=False)],
                  [pvYd(kk + 1), pvYd(kk + 1), pvY(t)])
            ck.eq("Y_to_t", k, lambda: yl.Y_to_t(yl.Y_from_t(t, discrete=False)), t)
            ck.eq("Y_to_t.value", k, lambda: yl.Y_to_t(pvY(t)), t)
            if i > 0:
                ck.eq("Z_to_t", k, lambda: zl.Z_to_t(zl.Z_from_t(t, discrete=False)), t)
                ck.eq("Z_to_t.value", k, lambda: zl.Z_to_t(v ** t), t)
        for x in ages:
            for t in TIMES:
                if x + t >= top:
                    continue
                k = dict(w=w, i=i, x=x, t=t)
                S = w.surv(x, t)
                ck.visit(w.name, x, t)
                if i > 0:
                    ck.eq("Z_to_prob", k, lambda: zl.Z_to_prob(x, v ** t), S, 1e-8, 1e-8)
                ck.eq("Y_to_prob", k, lambda: yl.Y_to_prob(x, pvY(t)), 1 - S, 1e-8, 1e-8)
                for s in (0, 1):
                    a = x + s
                    if a + t >= top:
                        continue
                    ks = dict(k, s=s)
                    kk = math.floor(t)
                    ck.eq("Z_x", ks, lambda: zl.Z_x(x, s=s, t=t), (w.surv(a, kk) - w.surv(a, kk + 1)) * v ** (kk + 1), 1e-7, 1e-7)
                    ck.eq("Y_x", ks, lambda: yl.Y_x(x, s=s, t=t), w.surv(a, kk) * v ** kk, 1e-7, 1e-7)
                    ck.eq("Y_x.continuous", ks, lambda: yl.Y_x(x, s=s, t=t, discrete=False) / v ** t,
                          w.surv(a, t) if not isinstance(w, Exp) else frac(w, a, t), 1e-7, 1e-7)
                    if not (t and t == kk):
                        ck.eq("Z_x.continuous", ks, lambda: zl.Z_x(x, s=s, t=t, discrete=False) / v ** t,
                              w.dens(a, t) if not isinstance(w, Exp) else fdens(w, a, t), 1e-6, 1e-6)
            for k in range(1, int(min(top - x, 12))):
                p = w.surv(x, k)          # probabilities reached exactly at a whole year
                if 0.001 < p < 0.999:
                    ck.eq("Z_t.whole_year", dict(w=w, i=i, x=x, k=k), lambda: zl.Z_t(x, p), k)
                    ck.eq("Y_t.whole_year", dict(w=w, i=i, x=x, k=k), lambda: yl.Y_t(x, 1 - p), k)
            for p in PROBS:
                k = dict(w=w, i=i, x=x, p=p)
                if w.surv(x, top - x) >= min(p, 1 - p):
                    continue
                tz = inverse(w, x, p, top)
                ty = inverse(w, x, 1 - p, top)
                ck.step(2)
                # flat survival within the tolerance of the solver gives an ill-conditioned time: compare survival instead
                ck.eq("Z_t.continuous", k, lambda: zl.S(x, 0, zl.Z_t(x, p, discrete=False)), p, 1e-6, 1e-7)
                ck.eq("Y_t.continuous", k, lambda: yl.S(x, 0, yl.Y_t(x, p, discrete=False)), 1 - p, 1e-6, 1e-7)
                ck.eq("Z_t.time", k, lambda: zl.Z_t(x, p, discrete=False), tz, 1e-5, 1e-5)
                ck.eq("Y_t.time", k, lambda: yl.Y_t(x, p, discrete=False), ty, 1e-5, 1e-5)
                ck.eq("Z_from_prob.continuous", k, lambda: zl.Z_from_prob(x, p, discrete=False), v ** tz, 1e-5, 1e-5)
                ck.eq("Y_from_prob.continuous", k, lambda: yl.Y_from_prob(x, p, discrete=False), pvY(ty), 1e-5, 1e-5)
                if i > 0:
                    ck.eq("Z.roundtrip", k, lambda: zl.Z_to_prob(x, zl.Z_from_prob(x, p, discrete=False)), p, 1e-6, 1e-6)
                ck.eq("Y.roundtrip", k, lambda: yl.Y_to_prob(x, yl.Y_from_prob(x, p, discrete=False)), p, 1e-6, 1e-6)
                if abs(tz - round(tz)) > 1e-4:
                    # yearly percentile by enumeration: smallest value not exceeded with probability at least p
                    m = max(j for j in range(int(top - x) + 1) if w.surv(x, j) >= p)
                    ck.eq("Z_t", k, lambda: zl.Z_t(x, p), m)
                    ck.eq("Z_from_prob", k, lambda: zl.Z_from_prob(x, p), v ** (m + 1))
                if abs(ty - round(ty)) > 1e-4:
                    m = min(j for j in range(int(top - x) + 1) if w.surv(x, j) <= 1 - p)
                    ck.eq("Y_t", k, lambda: yl.Y_t(x, p), m)
                    ck.eq("Y_from_prob", k, lambda: yl.Y_from_prob(x, p), pvYd(m + 1))
            if i == 0.05 and x == ages[0] and n in (0, 3, 8):
                for t in (0, 1, 2.5):
                    for disc in (True, False) if t == 2.5 else (True,):
                        k = dict(w=w, i=i, x=x, t=t, d=disc)
                        b = lambda a, r: 3 + r
                        z = v ** (math.floor(t) + 1) if disc else v ** t
                        y = pvYd(math.floor(t) + 1) if disc else pvY(t)
                        ck.eq("Z_plot", k, lambda: plot(zl.Z_plot, x, stop=3, T=t, discrete=disc, benefit=b), (3 + t) * z)
                        ck.eq("Y_plot", k, lambda: plot(yl.Y_plot, x, stop=3, T=t, discrete=disc, benefit=b), (3 + t) * y)


def plot(fn, *a, **kw):
    import matplotlib.pyplot as plt
    try:
        fig, ax = plt.subplots(1, 1)
        return fn(*a, ax=ax, **kw)
    finally:
        plt.close("all")


def frac(w, a, t):
    """a life without its own fractional-age law interpolates survival linearly within each year of age"""
    k, r = int(math.floor(t)), t - math.floor(t)
    return w.surv(a, k) * (1 - r * (1 - w.surv(a, 1)))


def fdens(w, a, t):
    k = int(math.floor(t))
    return w.surv(a, k) * (1 - w.surv(a, 1))


def explore(ck):
    signatures(ck, "Insurance.Z_x|Z_t|Z_from_t|Z_from_prob", "Annuity.Y_t|Y_x|Y_from_t|Y_from_prob")
    ck.each(range(len(list(worlds(ck.thorough)))), check)
