"""C04: one lifetime law specified through each form; every derived function against the law's closed forms."""
import itertools, math
from actuarialmath import Survival, Lifetime, Fractional, Insurance, Reserves
from . import model as M
from .sigs import signatures

ASSUMPTIONS = ["laws come from a fixed family (smooth laws for densities and forces; stepwise chains for probabilities)",
               "forces and densities derived numerically are compared to 1e-4, closed or integrated forms to 1e-7"]


class Law:
    """cumulative hazard H(x, w): hazard accumulated by duration w since selection at x"""
    def __init__(self, name, H, h, ages, smax, tmax, maxage, ultimate):
        self.name, self.H, self.h, self.ages, self.smax, self.tmax = name, H, h, ages, smax, tmax
        self.maxage, self.ultimate = maxage, ultimate

    def S(self, x, s, t):
        return math.exp(self.H(x, s) - self.H(x, s + t))

    def f(self, x, s, t):
        return self.S(x, s, t) * self.h(x, s + t)

    def l(self, x, s):
        # lives of the cohort selected at x; for ultimate laws it depends on x+s only
        return 1e4 * math.exp(-(self.H(0, x + s) if self.ultimate else self.H(x, s)))

    def mu(self, x, t):
        return self.h(x, t)


def laws():
    out = []
    for c in (0.01, 0.05, 0.2):
        out.append(Law(f"exp{c}", lambda x, w, c=c: c * w, lambda x, w, c=c: c, (0, 3, 40), 3, 12, 200, True))
    A, B, c = 0.0003, 0.0005, 1.08
    mk = lambda a: A * a + B / math.log(c) * (c ** a - 1)
    out.append(Law("makeham", lambda x, w: mk(x + w), lambda x, w: A + B * c ** (x + w), (1, 30, 60), 3, 20, 130, True))
    for om, al in ((50, 1), (90, 2), (70, 3)):
        out.append(Law(f"beta{om},{al}", lambda x, w, om=om, al=al: -al * math.log1p(-(x + w) / om),
                       lambda x, w, om=om, al=al: al / (om - x - w), (1, 10, 30), 3, 8, om, True))
    out.append(Law("weibull", lambda x, w: 0.0005 * (x + w) ** 2, lambda x, w: 0.001 * (x + w), (2, 20, 40), 3, 12, 150, True))
    # select laws: force depends on age at selection and duration separately
    out.append(Law("select1", lambda x, w: 0.002 * x * w + 0.004 * w * w, lambda x, w: 0.002 * x + 0.008 * w, (1, 5, 20), 3, 8, 120, False))
    out.append(Law("select2", lambda x, w: 0.05 * w - 0.02 * (1 - math.exp(-w)), lambda x, w: 0.05 - 0.02 * math.exp(-w), (0, 7), 4, 8, 120, False))
    return out


def check_law(ck, L):
    forms = {"S": dict(S=L.S), "f": dict(f=L.f), "l": dict(l=L.l), "mu": dict(mu=L.mu)}
    forms["S+mu"] = dict(S=L.S, mu=L.mu)
    forms["S+f"] = dict(S=L.S, f=L.f)
    forms["l+mu"] = dict(l=L.l, mu=L.mu)
    forms["all"] = dict(S=L.S, f=L.f, l=L.l, mu=L.mu)
    for form, kw in forms.items():
        for cls in (Survival, Insurance) if form in ("S", "mu") else (Survival,):
            life = cls().set_survival(maxage=L.maxage, **kw)
            for x in L.ages:
                for s in range(L.smax + 1):
                    for t in (0, 1, 2, 2.5, L.tmax):
                        ck.visit(L.name, x, s, t)
                        ck.step()
                        k = dict(law=L.name, form=form, cls=cls.__name__, x=x, s=s, t=t)
                        ck.eq("p_x", k, lambda: life.p_x(x, s=s, t=t), L.S(x, s, t), 1e-7, 1e-7)
                        ck.eq("S", k, lambda: life.S(x, s, t), L.S(x, s, t), 1e-7, 1e-7)
                        for u in (0, 1, 3.5):
                            ck.eq("q_x", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u),
                                  L.S(x, s, u) - L.S(x, s, u + t), 1e-6, 1e-7)
                            ck.eq("p_x.chain", dict(k, u=u), lambda: life.p_x(x, s=s, t=t + u),
                                  L.S(x, s, u) * L.S(x, s + u, t), 1e-6, 1e-7)
                        # numerical derivatives look one year to each side
                        ok_x = x + s + t >= 1 or L.name.startswith(("exp", "select"))
                        if t <= L.tmax and ok_x:
                            ck.eq("f_x", k, lambda: life.f_x(x, s=s, t=t), L.f(x, s, t), 1e-4, 2e-6)
                            ck.eq("mu_x", k, lambda: life.mu_x(x, s=s, t=t), L.mu(x, s + t), 1e-4, 2e-6)
                    k = dict(law=L.name, form=form, cls=cls.__name__, x=x, s=s)
                    ck.eq("p_x.default", k, lambda: life.p_x(x, s), L.S(x, s, 1), 1e-7, 1e-7)
                    ck.eq("q_x.default", k, lambda: life.q_x(x, s), 1 - L.S(x, s, 1), 1e-6, 1e-7)
                    ck.eq("q_x.deferred", k, lambda: life.q_x(x, s, u=2), L.S(x, s, 2) - L.S(x, s, 3), 1e-6, 1e-7)
                    if L.ultimate:
                        given = "l" in kw
                        radix = L.l(0, 0) if given else life.l_x(0)
                        ck.eq("radix", dict(law=L.name, form=form), lambda: life.l_x(0) > 0, True)
                        for n in (0, 1, 4):
                            want = radix * math.exp(-L.H(0, x + s + n)) if L.H(0, 0) == 0 else None
                            ck.eq("l_x", dict(k, n=n), lambda: life.l_x(x, s + n), want, 1e-6, 1e-7)
                            ck.eq("d_x", dict(k, n=n), lambda: life.d_x(x, s + n),
                                  want * (1 - L.S(x, s + n, 1)), 1e-5, 1e-6)
                    elif "l" in kw:
                        ck.eq("l_x", k, lambda: life.l_x(x, s), L.l(x, s), 1e-9)
                        ck.eq("d_x", k, lambda: life.d_x(x, s), L.l(x, s) - L.l(x, s + 1), 1e-7)


def check_chain(ck, ch):
    """stepwise chains, including certain death and certain survival: probabilities only"""
    for form in ("S", "l", "S+l"):
        if form != "S" and ch.nsel:
            kw = dict(l=ch.l, **({"S": ch.S} if "S" in form else {}))
        else:
            kw = {"S": dict(S=ch.S), "l": dict(l=ch.l), "S+l": dict(S=ch.S, l=ch.l)}[form]
        life = Survival().set_survival(minage=ch.minage, maxage=ch.omega, **kw)
        for x, s in ch.starts(2):
            if form != "S" and ch.p(x, 0, s) == 0:
                continue
            for t in range(0, ch.omega - x - s + 2):
                want = math.fsum(w for k, w in ch.paths(x, s, ck) if k >= t)
                k = dict(ch=ch, form=form, x=x, s=s, t=t)
                ck.eq("chain.p_x", k, lambda: life.p_x(x, s=s, t=t), want)
                for u in range(0, 4):
                    want = math.fsum(w for j, w in ch.paths(x, s) if u <= j < u + t)
                    ck.eq("chain.q_x", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u), want)
            if form == "S" and not ch.nsel and ch.p(ch.minage, 0, x + s - ch.minage) > 0:
                r = lambda: life.l_x(ch.minage)
                ck.eq("chain.l_x", dict(ch=ch, x=x, s=s), lambda: life.l_x(x, s) / r(), ch.p(ch.minage, 0, x + s - ch.minage))
                ck.eq("chain.d_x", dict(ch=ch, x=x, s=s), lambda: life.d_x(x, s) / life.l_x(x, s), ch.q(x, s))


def explore(ck):
    signatures(ck, "Survival")
    items = [("law", L) for L in laws()] + [("chain", c) for c in M.ultimates(ck.thorough) + M.selects(ck.thorough)
             + M.ultimates(ck.thorough, between="cfm")[:4]]
    ck.each(items, lambda c, it: (check_law if it[0] == "law" else check_chain)(c, it[1]))
