"""C12: net premiums against the loss enumerated over every time of death."""
import math
from actuarialmath import Premiums, Reserves, LifeTable, PolicyValues, ConstantForce, Uniform
from . import model as M
from . import long
from .c28 import beta, makeham
from .sigs import signatures

ASSUMPTIONS = ["the premium term is at least one year and some premium is paid with positive probability beyond the refund of premiums",
               "a deferred contract without a stated premium term is paid for during deferral, any other during its own term",
               "refunded premiums are those paid so far, on death within the premium term"]


def worlds(thorough):
    for ch in M.ultimates(thorough) + M.selects(thorough) + M.selects(thorough, minage=0):
        yield ch, "Premiums"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "LifeTable"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "l"


def make(ch, how, i):
    if how == "LifeTable":
        return LifeTable(udd=True).set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}).set_interest(i=i)
    if how == "l":
        return Reserves().set_interest(i=i).set_survival(l=ch.l, minage=ch.minage, maxage=ch.omega)
    return Premiums().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)


def premium(v, ch, x, s, t, u, n, b, e, ret, annuity, cost, disc, ck):
    """(benefits + costs) / premium payments, both enumerated over the time of death; None if no premium pays for it"""
    E = (lambda g: ch.EK(x, s, g, ck)) if disc else (lambda g: ch.ET(x, s, g, ck))
    ann, ins = (M.ann, M.ins) if disc else (M.annT, M.insT)
    n = n or u or t
    if annuity:
        A = E(ann(v, t, u, lambda j: b))
    else:
        A = E(ins(v, t, u, lambda j: b, e))
    a = E(ann(v, n))
    if ret:
        a -= E(ins(v, n, 0, lambda j: j))
    return (A + cost) / a if a > 0.05 else None


def compare(ck, life, ch, how, i, x, s, disc, rel, abs_, **kw):
    full = dict(t=M.WHOLE, u=0, n=0, b=1, endowment=0, return_premium=False, annuity=False, initial_cost=0.0)
    full.update(kw)
    want = premium(1 / (1 + i), ch, x, s, full["t"], full["u"], full["n"], full["b"], full["endowment"],
                   full["return_premium"], full["annuity"], full["initial_cost"], disc, ck)
    if want is None:
        return
    call = dict(kw) if disc else dict(kw, discrete=False)
    args = f"{ch},{how},i={i},x={x},s={s},{'d' if disc else 'c'}," + ",".join(f"{k}={v}" for k, v in kw.items())
    ck.eq("net_premium", (args,), lambda: life.net_premium(x, s=s, **call), want, rel, abs_)
    if disc and (full["n"] < 2 or i == .25):      # semi-discrete: as fully discrete
        ck.eq("net_premium.semi", (args,), lambda: life.net_premium(x, s=s, **dict(call, discrete=None)), want, rel, abs_)


def check(ck, item):
    ch, how = item
    for i in M.RATES:
        life = make(ch, how, i)
        for x, s in ch.starts(2):
            room = ch.omega - x - s
            for disc in (True, False):
                if not disc and (how != "Premiums" or (ch.name[0] == "u" and not ck.thorough and i != 0.25) or s > 1):
                    continue
                tol = (1e-9, 1e-9) if disc and how != "LifeTable" else (2e-6, 2e-6) if disc else (2e-4, 2e-5)
                C = lambda **kw: compare(ck, life, ch, how, i, x, s, disc, *tol, **kw)
                C()
                C(b=3)
                ts = (M.WHOLE, 1, 2, room, room + 1) if disc else (M.WHOLE, 2)
                for t in ts:
                    for u in ((0, 1, 2, room) if disc else (0, 1)):
                        for n in ((0, 1, 2, room + 2) if disc else (0, 2)):
                            C(t=t, u=u, n=n)
                            C(t=t, u=u, n=n, b=3, initial_cost=0.75, return_premium=True)
                            C(t=t, u=u, n=n, b=2, annuity=True, initial_cost=0.5)
                            if t != M.WHOLE:
                                C(t=t, u=u, n=n, b=3, endowment=2)
                                C(t=t, u=u, n=n, b=2, endowment=2, initial_cost=0.25)
                            if disc:
                                C(t=t, u=u, n=n, return_premium=True)
                                C(t=t, u=u, n=n, b=2, annuity=True, return_premium=True)
                                if t != M.WHOLE:
                                    C(t=t, u=u, n=n, b=3, endowment=1, return_premium=True, initial_cost=1.5)
                # level premiums of the twins
                if i > 0 and disc:
                    d = i / (1 + i)
                    k = dict(ch=ch, how=how, i=i, x=x, s=s)
                    A = ch.EK(x, s, M.ins(1 / (1 + i)))
                    ck.eq("whole.identity", k, lambda: life.net_premium(x, s=s) * life.whole_life_annuity(x, s=s), A, *tol)


def laws(ck, i):
    """one-piece laws: the premium must equal the ratio of integrals for continuous payment"""
    for c in (0.04, 0.3):
        life = ConstantForce(mu=c).set_interest(i=i)
        v = 1 / (1 + i)
        dl = math.log1p(i)
        q = -math.expm1(-c)
        for t in (M.WHOLE, 3, 20):
            for n in (0, 2, 5):
                for b in (1, 3):
                    ends = (0,) if t == M.WHOLE else (0, b, 2)
                    for e in ends:
                        for u in (0, 2):
                            m = n or u or t
                            ck.visit("cf", c, t, n, u, b, e)
                            ck.step()
                            z = lambda k: math.exp(-(c + dl) * k) if k != math.inf else 0.0
                            T = math.inf if t == M.WHOLE else t
                            N = math.inf if m == M.WHOLE else m
                            A = b * c / (c + dl) * (z(u) - z(u + T))
                            a = (1 - z(N)) / (c + dl)
                            ck.eq("net_premium.constant_force.continuous", dict(c=c, i=i, t=t, n=n, b=b, e=e, u=u),
                                  lambda: life.net_premium(40, t=t, u=u, n=n, b=b, endowment=e, discrete=False),
                                  (A + e * z(u + T)) / a, 1e-6, 1e-6)
                            A = b * v * q / (1 - v * (1 - q)) * (z(u) - z(u + T))
                            a = (1 - z(N)) / (1 - v * (1 - q))
                            ck.eq("net_premium.constant_force", dict(c=c, i=i, t=t, n=n, b=b, e=e, u=u),
                                  lambda: life.net_premium(40, t=t, u=u, n=n, b=b, endowment=e),
                                  (A + e * z(u + T)) / a, 1e-6, 1e-6)
    for ch in (beta(80, 1, Uniform), makeham(0.0002, 3e-5, 1.1, 120)):
        life = ch.make().set_interest(i=i)
        for x, s in ((20, 0), (45, 2)):
            for kw in (dict(), dict(t=10), dict(t=10, u=5), dict(t=15, n=5, b=3, endowment=2, initial_cost=1),
                       dict(t=15, endowment=1), dict(t=10, n=6, return_premium=True), dict(u=10, annuity=True)):
                for disc in (True, False):
                    compare(ck, life, ch, "law", i, x, s, disc, 1e-6, 1e-6, **kw)


def explore(ck):
    long.premiums(ck)
    signatures(ck, "Premiums.net_premium")
    ck.each(worlds(ck.thorough), check)
    ck.each(M.RATES, laws)
