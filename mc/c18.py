"""C18: reserve tables filled by recursion, for every order in which reserves are given, against the prospective value."""
import itertools, math
from actuarialmath import Reserves, LifeTable, Recursion, Contract, SelectLife
from . import model as M
from . import long
from .c15 import loss, make as make15
from .sigs import signatures

ASSUMPTIONS = ["the reserves given are consistent with the contract, and the reserve at issue is zero unless it is given",
               "the insured can survive every policy year but the last"]
TERMS = [dict(benefit=10),
         dict(benefit=8, settlement_policy=2),
         dict(benefit=8, initial_policy=2, initial_premium=.25, renewal_policy=.5, renewal_premium=.125),
         dict(benefit=12, settlement_policy=1, initial_policy=1, renewal_premium=.0625)]


def worlds(thorough):
    for ch in M.ultimates(thorough) + M.selects(thorough) + M.selects(thorough, minage=0):
        yield ch, "S"
    yield M.Chain("t", [.25, .125, .5, .0625, 1.], 3), "table"
    yield M.Chain("z", [.125, .25, .25, .5, .5, .25, 1.], 0), "reserves"
    yield M.Chain("r", [.125, .25, .25, .5, .5, .25, 1.], 0), "recursion"


def make(ch, how, i):
    return make15(ch, "reserves" if how == "S" else how, i)


def build(ch, how, i):
    if how == "recursion":
        life = Recursion(verbose=False).set_interest(i=i)
        for a in range(ch.minage, ch.omega):
            life.set_q(ch.q(a), x=a)
        return life
    return make(ch, how, i)


def premium(v, ch, x, s, c, n, e, ck):
    """premium for which the enumerated loss at issue is zero (the loss is linear in the premium)"""
    at = lambda P: ch.EK(x, s, loss(v, dict(c, premium=P), n, True, True, e), ck)
    return at(0.0) / (at(0.0) - at(1.0))


def table(life, n):
    held = getattr(life, "_reserves", None)        # the frame shows the same (fill.frame), but building it is slow
    if isinstance(held, dict) and "V" in held:
        return [held["V"].get(t) for t in range(n + 1)]
    f = life.reserves_frame()["V_t"]
    return [float(f[t]) if t in f.index and f[t] == f[t] else None for t in range(n + 1)]


def check(ck, item):
    ch, how = item
    tol = (1e-9, 1e-9) if how != "table" else (1e-5, 1e-5)
    for i in M.RATES:
        v = 1 / (1 + i)
        for x, s in ch.starts(1):
            if how == "recursion" and s:
                continue
            for n in range(1, ch.omega - x - s + 1):
                if any(ch.q(x, s + k) == 1 for k in range(n - 1)):
                    continue
                last = ch.q(x, s + n - 1) == 1
                for j, c in enumerate(TERMS):
                    for e in (0, 10, 5):
                        P = premium(v, ch, x, s, c, n, e, ck)
                        V = [0.0] + [ch.EK(x, s + t, loss(v, dict(c, premium=P), n - t, True, False, e)) for t in range(1, n)] + [float(e)]
                        con = lambda: Contract(premium=P, endowment=e, T=n, **c)
                        k = dict(ch=ch, how=how, i=i, x=x, s=s, n=n, c=j, e=e)
                        ck.visit(ch.name, x, s, n, j, e)
                        ck.step(n)

                        def fill(*calls, con=con):
                            life = build(ch, how, i)
                            for kw in calls:
                                life.set_reserves(**kw)
                            return table(life.fill_reserves(x, s=s, contract=con()), n)
                        ck.eq("fill", k, lambda: fill(dict(T=n, endowment=e)), V, *tol)
                        ck.eq("fill.no_term", k, lambda: fill(dict(T=n, endowment=e), con=lambda: Contract(premium=P, **c)), V, *tol)
                        if e:
                            ck.eq("fill.reserves_only", k, lambda: fill(dict(V={0: 0, n: V[n]})), V, *tol)
                        if j == 0:
                            U = [ch.EK(x, s + t, loss(v, dict(premium=1, benefit=1), n - t, True, t == 0, e)) for t in range(n)] + [float(e)]
                            ck.eq("fill.no_contract", k, lambda: table(build(ch, how, i).set_reserves(T=n, endowment=e, V={0: U[0]}).fill_reserves(x, s=s), n), U, *tol)
                        if not (i and how in ("S", "recursion", "reserves") and (j in (1, 2) or ck.thorough) and e != 10):
                            continue
                        given = [dict(T=n, endowment=e)] + [dict(V={t: V[t]}) for t in range(1, n)]
                        for size in range(1, min(len(given), 3) + 1):
                            for calls in itertools.permutations(given, size):
                                if given[0] in calls:
                                    ck.eq("fill.order", dict(k, calls=str([sorted(q) if "T" in q else list(q["V"]) for q in calls]).replace(" ", "")),
                                          lambda: fill(*calls), V, *tol)
                        ck.eq("fill.all_given", k, lambda: fill(dict(T=n, endowment=e, V={t: V[t] for t in range(1, n)})), V, *tol)
                        ck.eq("fill.reversed", k, lambda: fill(dict(V={t: V[t] for t in range(n, -1, -1)})), V, *tol)
                        ck.eq("fill.terminal_given", k, lambda: fill(dict(V={n: V[n]}), dict(T=n)), V, *tol)
                        ck.eq("fill.endowment_then_reserve", k, lambda: fill(dict(T=n, endowment=e), dict(V={0: 0})), V, *tol)
                        ck.eq("fill.endowment_later", k, lambda: fill(dict(T=n), dict(endowment=e)), V, *tol)
                        ck.eq("fill.twice", k, lambda: table(refill(build(ch, how, i), x, s, n, e, con), n), V, *tol)
                        # a premium off the equivalence principle: the reserve at issue is given
                        P2 = P + 0.5
                        W = [ch.EK(x, s + t, loss(v, dict(c, premium=P2), n - t, True, t == 0, e)) for t in range(n)] + [float(e)]
                        ck.eq("fill.first_given", k, lambda: fill(dict(T=n, endowment=e, V={0: W[0]}), con=lambda: Contract(premium=P2, endowment=e, T=n, **c)), W, *tol)
                        ck.eq("fill.frame", k, lambda: list(framed(build(ch, how, i), x, s, n, e, con)), V, *tol)
                        if not last and how == "S":
                            ck.eq("agrees.gross_policy_value", k, lambda: [a - life_value(ch, how, i, x, s, t, n, con) for t, a in
                                  enumerate(fill(dict(T=n, endowment=e)))][:n], [0.0] * n, 1e-8, 1e-8)
                # reserve paid in addition to the benefit: (V + P - E)(1+i) = q b + next V
                if last or not i:
                    continue
                for j in (0, 2, 3):
                    c = TERMS[j]
                    for e in (0, 7):
                        def roll(P):
                            W = [0.0]
                            for t in range(n):
                                pol, pre = (("initial_policy", "initial_premium") if t == 0 else ("renewal_policy", "renewal_premium"))
                                out = c.get(pol, 0) + c.get(pre, 0) * P
                                W.append((W[-1] + P - out) * (1 + i) - ch.q(x, s + t) * (c["benefit"] + c.get("settlement_policy", 0)))
                            return W
                        P = (e - roll(0.0)[-1]) / (roll(1.0)[-1] - roll(0.0)[-1])
                        W = roll(P)
                        ck.eq("fill.reserve_benefit", dict(ch=ch, how=how, i=i, x=x, s=s, n=n, c=j, e=e), lambda: table(
                            build(ch, how, i).set_reserves(T=n, endowment=e).fill_reserves(x, s=s, reserve_benefit=True, contract=Contract(premium=P, endowment=e, T=n, **c)), n), W, *tol)
            steps(ck, ch, how, i, x, s, tol)


def refill(life, x, s, n, e, con):
    life.set_reserves(T=n, endowment=e).fill_reserves(x, s=s, contract=con())
    return life.fill_reserves(x, s=s, contract=con())


def framed(life, x, s, n, e, con):
    f = life.set_reserves(T=n, endowment=e).fill_reserves(x, s=s, contract=con()).reserves_frame()
    return [float(f["V_t"][t]) for t in range(n + 1)]


def life_value(ch, how, i, x, s, t, n, con):
    return 0.0 if t == 0 else make(ch, how, i).gross_policy_value(x, s=s, t=t, n=n, contract=con())


def steps(ck, ch, how, i, x, s, tol):
    """one year forward and backward from an arbitrary reserve: the recursion of that year holds"""
    v = 1 / (1 + i)
    bens = {"flat": lambda t: 9, "rising": lambda t: 4 * t, "falling": lambda t: 11 - 2 * t, "none": lambda t: 0}
    for t in range(0, min(3, ch.omega - x - s)):
        q = ch.q(x, s + t)
        if ch.p(x, s, t) == 0:
            continue
        for name, ben in bens.items():
            for V in (0, 2.5, 9, -1.25):
                for P, pe, po in ((0, 0, 0), (1.5, 0, 0), (2, .25, .5), (2, .25, 0), (2, 0, .5), (0, 0, .5)):
                    for rb in (False, True):
                        kw = dict(premium=P, benefit=ben, per_premium=pe, per_policy=po, reserve_benefit=rb)
                        k = dict(ch=ch, how=how, i=i, x=x, s=s, t=t, b=name, V=V, P=P, pe=pe, po=po, rb=rb)
                        if not ck.thorough and (how == "table" or name == "falling") and V != 2.5:
                            continue
                        net = P - pe * P - po
                        b = ben(t + 1)

                        def at(tt, val):
                            life = build(ch, how, i)
                            life.set_reserves(T=9, V={tt: val})
                            return life
                        fwd = None
                        if rb:
                            fwd = (V + net) / v - q * b
                        elif q < 1:
                            fwd = ((V + net) / v - q * b) / (1 - q)
                        if fwd is not None:
                            ck.eq("forward", k, lambda: at(t, V).t_V_forward(x, s=s, t=t + 1, **kw), fwd, *tol)
                            ck.eq("t_V.forward", k, lambda: at(t, V).t_V(x, s=s, t=t + 1, **kw), fwd, *tol)
                        bwd = v * (q * (b + (V if rb else 0)) + (1 - q) * V) - net
                        ck.eq("backward", k, lambda: at(t + 1, V).t_V_backward(x, s=s, t=t, **kw), bwd, *tol)
                        if t >= 2:
                            ck.eq("t_V.backward", k, lambda: at(t + 1, V).t_V(x, s=s, t=t, **kw), bwd, *tol)
                        if fwd is not None and t > 0:
                            ck.eq("forward.backward", k, lambda: back_and_forth(at(t, V), x, s, t, kw), V, max(tol[0], 1e-8), max(tol[1], 1e-8))
    ck.eq("t_V.stored", dict(ch=ch, how=how, i=i, x=x, s=s), lambda: build(ch, how, i).set_reserves(T=4, V={2: 3.5}).t_V(x, s=s, t=2, premium=99), 3.5)
    ck.eq("t_V.unknown", dict(ch=ch, how=how, i=i, x=x, s=s), lambda: build(ch, how, i).set_reserves(T=9).t_V(x, s=s, t=4, premium=99), None)


def back_and_forth(life, x, s, t, kw):
    W = life.t_V_forward(x, s=s, t=t + 1, **kw)
    life.set_reserves(V={t + 1: W})
    return life.t_V_backward(x, s=s, t=t, **kw)


def explore(ck):
    long.reserves(ck)
    signatures(ck, "Reserves.t_V_backward|t_V_forward|t_V")
    ck.each(worlds(ck.thorough), check)
