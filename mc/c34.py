"""C34: every history of queries and changed assumptions, on one object and across objects, against fresh objects holding the assumptions last set."""
import itertools, math, os
os.environ.setdefault("MPLBACKEND", "Agg")
import matplotlib.pyplot as plt
import pandas as pd
from actuarialmath import (Annuity, Beta, ConstantForce, Contract, ExtraRisk, Gompertz, Interest, LifeTable, Makeham, Mthly, PolicyValues, Recursion, Reserves,
                           SelectLife, SULT, UDD, Uniform, Woolhouse)
from .core import close, plain

ASSUMPTIONS = ["an answer of a fresh object given the same assumptions is the reference; what it must be is the other properties",
               "replacing assumptions means setting the same column at the same ages, or the same kind of function; select tables are given as rates",
               "an exception is an answer like any other, compared by its type"]
VAR, W = -2, -999
T5 = Contract(premium=.3, benefit=2, initial_policy=.1, initial_premium=.2, renewal_policy=.05, renewal_premium=.1, settlement_policy=.02)
T5B = Contract(premium=.3, benefit=2, endowment=2, T=3, initial_policy=.1)
IRR = lambda x, t: 1 + (t % 3)


def FAIL():
    """a benefit that cannot be worked out the second time it is asked for"""
    asked = []

    def benefit(x, t):
        asked.append(t)
        if len(asked) > 1:
            raise RuntimeError("no benefit")
        return 1
    return benefit


# ---- queries: name -> function of the object
def shapes(x, s, n, d=True):
    k = dict(s=s, discrete=d)
    tag = f"[{x}+{s}]{'' if d else 'c'}"
    Q = {}
    for m in (1, 2, VAR):
        Q[f"wl{m}"] = lambda o, m=m: o.whole_life_insurance(x, moment=m, b=2, **k)
        Q[f"term{m}"] = lambda o, m=m: o.term_insurance(x, t=n, moment=m, b=2, **k)
        Q[f"endow{m}"] = lambda o, m=m: o.endowment_insurance(x, t=n, moment=m, b=2, endowment=3, **k)
        Q[f"def{m}"] = lambda o, m=m: o.deferred_insurance(x, u=1, t=n, moment=m, b=2, **k)
    for v in (False, True):
        Q[f"wa{v}"] = lambda o, v=v: o.whole_life_annuity(x, variance=v, b=2, **k)
        Q[f"ta{v}"] = lambda o, v=v: o.temporary_annuity(x, t=n, variance=v, b=2, **k)
    Q["da"] = lambda o: o.deferred_annuity(x, u=1, t=n, b=2, **k)
    Q["IA"] = lambda o: o.increasing_insurance(x, t=n, b=2, **k)
    Q["DA"] = lambda o: o.decreasing_insurance(x, t=n, b=2, **k)
    Q["Ia"] = lambda o: o.increasing_annuity(x, t=n, b=2, **k)
    Q["Da"] = lambda o: o.decreasing_annuity(x, t=n, b=2, **k)
    Q["cert"] = lambda o: o.certain_life_annuity(x, u=1, t=n, b=2, **k)
    Q["A_x"] = lambda o: [o.A_x(x, t=n, u=1, benefit=IRR, endowment=2, moment=m, **k) for m in (1, 2)]
    Q["fails"] = lambda o: o.A_x(x, t=n, benefit=FAIL(), moment=2, **k)
    Q["a_x"] = lambda o: o.a_x(x, t=n, u=1, benefit=IRR, **k)
    Q["premium"] = lambda o: [o.net_premium(x, t=n, b=2, **k), o.net_premium(x, t=n, u=1, endowment=1, initial_cost=.1, **k)]
    Q["value"] = lambda o: [o.net_policy_value(x, t=1, n=n, b=2, endowment=2, **k), o.net_policy_value(x, t=1, b=2, **k)]
    Q["value variance"] = lambda o: [o.net_policy_variance(x, t=1, n=n, b=2, endowment=2, **k), o.net_policy_variance(x, t=1, b=2, **k)]
    if not s:
        Q["Z"] = lambda o: [o.Z_t(x, .4, discrete=d), o.Z_from_prob(x, .4, discrete=d), o.Y_t(x, .4, discrete=d), o.Y_from_prob(x, .4, discrete=d)]
    return {tag + a: f for a, f in Q.items()}


def lifetimes(x, s, n):
    tag = f"[{x}+{s}]"
    Q = {"p": lambda o: [o.p_x(x, s=s, t=t) for t in range(n + 1)], "q": lambda o: [o.q_x(x, s=s, t=t, u=u) for t in range(n + 1) for u in (0, 1)],
         "l": lambda o: [o.l_x(x, s=s), o.d_x(x, s=s)], "mu": lambda o: [o.mu_x(x, s=s, t=0), o.f_x(x, s=s, t=0)],
         "E": lambda o: [o.E_x(x, s=s, t=t, endowment=2, moment=m) for t in (1, n) for m in (1, 2, VAR)],
         "r": lambda o: [o.l_r(x, s=s, r=.5), o.p_r(x, s=s, r=.5, t=.7), o.q_r(x, s=s, r=.25, t=.5, u=1), o.mu_r(x, s=s, r=.5), o.f_r(x, s=s, r=.5, t=.25)],
         "Er": lambda o: o.E_r(x, s=s, r=.5, t=1)}
    for c in (True, False):
        for m in (1, 2, VAR):
            Q[f"e{c}{m}"] = lambda o, c=c, m=m: [o.e_x(x, s=s, t=t, curtate=c, moment=m) for t in (n, W)]
    Q["e default"] = lambda o: [o.e_x(x, s=s), o.e_r(x, s=s, t=1.5)]
    return {tag + a: f for a, f in Q.items()}


def policy(x, n):
    return {"gross": lambda o: o.gross_premium(a=4.5, A=.3, benefit=2, initial_policy=.1, initial_premium=.2, renewal_policy=.05, renewal_premium=.1, settlement_policy=.02),
            "gross value": lambda o: [o.gross_policy_value(x, t=1, n=n, contract=T5), o.gross_policy_value(x, t=1, contract=T5), o.gross_policy_value(x, t=1)],
            "gross value T": lambda o: [o.gross_policy_value(x, t=1, n=3, contract=T5B), o.gross_policy_value(x, contract=T5B.renewals())],
            "gross variance": lambda o: [o.gross_policy_variance(x, t=1, contract=T5), o.gross_policy_variance(x, t=1), o.gross_policy_variance(x, t=1, n=3, contract=T5B), o.gross_variance_loss(A1=.3, A2=.2, contract=T5), o.gross_variance_loss(A1=.3, A2=.2)],
            "future loss": lambda o: [o.gross_future_loss(A=.3, contract=T5), o.gross_future_loss(A=.3), o.net_future_loss(.3, .4), o.net_variance_loss(.3, .2)],
            "loss": lambda o: [o.L_from_t(2.5, contract=T5), o.L_from_t(2.5), o.L_from_prob(x, .4, contract=T5), o.L_to_t(.2, contract=T5), o.L_to_prob(x, .2, contract=T5), o.L_to_prob(x, .2), o.L_to_prob(x, .1, contract=T5.renewals())],
            "equivalence": lambda o: [o.insurance_equivalence(.1, b=2), o.annuity_equivalence(.1, b=2), o.premium_equivalence(A=.3, b=2), o.premium_equivalence(a=4, b=2)],
            "interest": lambda o: [o.interest.i, o.interest.d, o.interest.v, o.interest.delta, o.interest.v_t(2.5), o.interest.annuity(3, m=4), o.interest.annuity(2, m=0, due=False)],
            "FPT": lambda o: [o.FPT_premium(x, b=2, n=n), o.FPT_premium(x, b=2, first=True), o.FPT_policy_value(x, t=1, b=2), o.FPT_policy_value(x, t=2, b=2, n=n, endowment=2)],
            "recursion": lambda o: [o.t_V_forward(x, t=0, premium=.3), o.t_V_backward(x, t=2, premium=.3), o.t_V(x, t=1, premium=.2, per_policy=.1), o.r_V_forward(x, r=.5, premium=.2), o.r_V_backward(x, r=.5)],
            "to": lambda o: [o.Z_to_t(.5), o.Z_to_prob(x, .5), o.Y_to_t(1.5), o.Y_to_prob(x, 1.5), o.Z_x(x, t=1), o.Y_x(x, t=1)],
            "moments": lambda o: [o.insurance_twin(3.0), o.annuity_twin(.4), o.annuity_variance(.4, .3), o.insurance_variance(.4, .3), o.portfolio_percentile(2, 3, .9, N=4), o.mixture(.3, .2, .6, N=3, variance=True)],
            "static": lambda o: [Interest.mthly(m=4, i=.05), Interest.double_force(i=.05), UDD.alpha(4, .05), UDD.beta(4, .05), list(UDD.interest_frame(.05).to_numpy().ravel())],
            "reserves frame": lambda o: o.reserves_frame()}


def plots(x):
    def draw(f):
        def g(o):
            try:
                f(o)
            finally:
                plt.close("all")
            return 0
        return g
    return {"plot Z": draw(lambda o: o.Z_plot(x, T=1.5)), "plot Y": draw(lambda o: o.Y_plot(x, discrete=False, dual=True)), "plot L": draw(lambda o: o.L_plot(x, contract=T5)), "plot V": draw(lambda o: o.V_plot())}


def paid(x, s, n):
    """the m-thly wrappers"""
    Q = {}
    for m in (1, 2, VAR):
        Q[f"wl{m}"] = lambda o, m=m: o.whole_life_insurance(x, s=s, moment=m, b=2)
        Q[f"term{m}"] = lambda o, m=m: o.term_insurance(x, s=s, t=n, moment=m, b=2)
        Q[f"endow{m}"] = lambda o, m=m: o.endowment_insurance(x, s=s, t=n, moment=m, b=2)
    for v in (False, True):
        Q[f"wa{v}"] = lambda o, v=v: o.whole_life_annuity(x, s=s, variance=v, b=2)
        Q[f"ta{v}"] = lambda o, v=v: o.temporary_annuity(x, s=s, t=n, variance=v, b=2)
    Q["plain"] = lambda o: [o.whole_life_insurance(x, s=s), o.term_insurance(x, s=s, t=n), o.endowment_insurance(x, s=s, t=n), o.whole_life_annuity(x, s=s), o.temporary_annuity(x, s=s, t=n)]
    Q["def"] = lambda o: [o.deferred_insurance(x, s=s, u=1, t=n), o.deferred_annuity(x, s=s, u=1, t=n), o.immediate_annuity(x, s=s, t=n)]
    Q["E"] = lambda o: [o.E_x(x, s=s, t=n), o.E_x(x, s=s, t=n, moment=2)]
    Q["m"] = lambda o: [o.v_m(3), o.p_m(x, s_m=1, t_m=2), o.q_m(x, t_m=2, u_m=1)]
    Q["twin"] = lambda o: [o.insurance_twin(3.0), o.annuity_twin(.4), o.annuity_variance(.4, .3)]
    Q["A_x"] = lambda o: o.A_x(x, s=s, t=n, u=1, benefit=IRR, moment=2)
    Q["factors"] = lambda o: [o.alpha_m, o.beta_m, o.i_ratio()] if isinstance(o, UDD) else None
    Q["mu"] = lambda o: o.mu_x(x, s) if isinstance(o, Woolhouse) else None
    Q["frame"] = lambda o: o.Z_m(x, s=s, t=n, benefit=IRR)
    return {f"paid[{x}+{s}]{a}": f for a, f in Q.items()}


# ---- subjects: how to make the object, and to change what it assumes
class Subject:
    def __init__(self, name, new, queries, rebase=None, rerate=None, inner=None, bases=2):
        self.name, self.new, self.queries, self.bases = name, new, queries, bases if rebase else 1
        self.rebase, self.inner = rebase, inner                     # change the basis; the life an object wraps
        self.rerate = rerate or (lambda o, i: (inner(o) if inner else o).set_interest(i=i))
        self.memo = {}

    def __repr__(self):
        return self.name

    def reference(self, ck, b, i):
        if (b, i) not in self.memo:
            self.memo[b, i] = {q: answer(ck, self.new(b, i), f) for q, f in self.queries.items()}
        return self.memo[b, i]


QA, QB = {2: .125, 3: .25, 4: .125, 5: .5, 6: .25, 7: 1}, {2: .25, 3: .125, 4: .5, 5: .25, 6: .375, 7: 1}
SELA = dict(q={2: [.125, .25, .25], 3: [.25, .125, .5], 4: [.125, .125, .25], 5: [.5, .25, .5], 6: [.25, .25, 1]})
SELB = dict(q={2: [.25, .125, .5], 3: [.125, .125, .25], 4: [.25, .25, .5], 5: [.125, .5, .25], 6: [.5, .125, 1]})
FACTS = [dict(p=.8, A=.5, a=6., E=.55), dict(p=.7, A=.6, a=5., E=.4)]


def table(b, i, **kw):
    return LifeTable(**kw).set_interest(i=i).set_table(q=(QA, QB)[b])


def retable(o, b):
    o.set_table(q=(QA, QB)[b])


def facts(o, b):
    f = FACTS[b]
    o.set_p(f["p"], x=2).set_A(f["A"], x=3).set_a(f["a"], x=4).set_E(f["E"], x=2, t=2).set_A(f["A"] / 2, x=3, moment=2)


def survival(o, b):
    m = (.1, .2)[b]
    o.set_survival(S=lambda x, s, t: max(0., 1 - t / (8 - x - s)) ** (m * 10) if x + s < 8 else 0., minage=0, maxage=8)


def kinds(o, b):
    """the functions a survival model can be given"""
    S = lambda x, s, t: max(0., 1 - t / (9 - x - s)) ** 2 if x + s < 9 else 0.
    l = lambda x, s: 100 * max(0., 8 - x - s) ** .5
    mu = lambda x, t: .05 * (1 + x + t)
    f = lambda x, s, t: .2 * math.exp(-.2 * t)
    l2 = lambda x, s: 50 * max(0., 9 - x - s) ** 2
    o.set_survival(**[dict(S=S, maxage=9), dict(l=l, maxage=8), dict(mu=mu, maxage=12), dict(f=f, maxage=10), dict(S=S, l=l2, minage=1, maxage=9), dict(mu=lambda x, t: .3)][b])


def force(o, b):
    m = (.05, .08)[b]
    o.set_survival(mu=lambda x, t: m * (1 + x + t), minage=0, maxage=12)


def made(cls, set_):
    def new(b, i):
        o = cls().set_interest(i=i)
        set_(o, b)
        return o
    return new


def recursion(b, i):
    o = Recursion(verbose=False, depth=2).set_interest(i=i)
    facts(o, b)
    return o





def subjects(thorough):
    T = {**lifetimes(2, 0, 3), **lifetimes(3, 1, 2), **shapes(2, 0, 3), **policy(2, 3), "frame": lambda o: o.frame()}
    if thorough:
        T.update(shapes(3, 1, 2)), T.update(shapes(2, 0, 3, False)), T.update(plots(2))
    law = {**lifetimes(40, 0, 3), **shapes(40, 1, 3), **policy(40, 3)}
    if thorough:
        law.update(shapes(40, 0, 3, False)), law.update(plots(40))
    fn = {**lifetimes(2, 0, 3), **shapes(2, 0, 3), **policy(2, 3)}
    rec = {k: f for k, f in {**lifetimes(2, 0, 2), **shapes(2, 0, 2), **policy(2, 2)}.items() if "Z" not in k and "A_x" not in k and "r" != k[-1]}
    wrap = {**paid(2, 0, 3), **paid(3, 1, 2)}
    cont = {k: f for k, f in wrap.items() if k[-1] != "m"}
    wool = {k: f for k, f in {**paid(3, 0, 2), **paid(3, 1, 2)}.items() if k[-1] in "nEu" or k[-3:] == "def" or k[-4:] == "twin"}
    inner = lambda o: o.life
    rewrap = lambda o, b: retable(o.life, b)
    out = [Subject("LifeTable", table, T, retable),
           Subject("LifeTable(cfm)", lambda b, i: table(b, i, udd=False), {**lifetimes(2, 0, 3), **lifetimes(3, 1, 2), **policy(2, 3)}, retable),
           Subject("SelectLife", lambda b, i: SelectLife(periods=2).set_interest(i=i).set_table(**(SELA, SELB)[b]), {**lifetimes(2, 0, 3), **lifetimes(3, 1, 2), **shapes(3, 1, 2), **shapes(2, 0, 3), **policy(2, 3), "frame": lambda o: o.frame("q")},
                   lambda o, b: o.set_table(**(SELA, SELB)[b])),
           Subject("SULT", lambda b, i: SULT(i=i), {**lifetimes(60, 0, 5), **policy(60, 5), **{k: f for k, f in shapes(60, 1, 5).items() if "variance" not in k}}),
           Subject("Survival", made(Reserves, survival), fn, survival),
           Subject("Kinds", made(Annuity, kinds), {k: f for k, f in {**lifetimes(2, 0, 3), **lifetimes(3, 1, 2), **shapes(2, 0, 3)}.items() if thorough or k[k.find("]") + 1:] in ("p", "q", "l", "mu", "r", "Er", "eTrue1", "term1", "ta", "A_x")},
                   kinds, bases=6),
           Subject("Force", made(Reserves, force), {**lifetimes(2, 0, 3), **policy(2, 3), **{k: f for k, f in shapes(2, 0, 3).items() if thorough or k[-2:] in ("l1", "m1", "IA", "da", "ue", "um")}}, force),
           Subject("Recursion", recursion, rec, facts),
           Subject("Makeham", lambda b, i: Makeham(A=.001, B=.0001, c=(1.1, 1.12)[b]).set_interest(i=i), law),
           Subject("Gompertz", lambda b, i: Gompertz(B=.0001, c=(1.1, 1.12)[b]).set_interest(i=i), law if thorough else lifetimes(40, 0, 3)),
           Subject("Uniform", lambda b, i: Uniform(omega=(45, 47)[b]).set_interest(i=i), {**law, **shapes(40, 0, 3, False)}),
           Subject("Beta", lambda b, i: Beta(omega=45, alpha=(1.5, .5)[b]).set_interest(i=i), law),
           Subject("ConstantForce", lambda b, i: ConstantForce(mu=(.1, .05)[b]).set_interest(i=i), {**law, **shapes(40, 0, 3, False)}),
           Subject("Mthly", lambda b, i: Mthly(m=4, life=table(b, i)), wrap, rewrap, inner=inner),
           Subject("UDD", lambda b, i: UDD(m=4, life=table(b, i)), wrap, rewrap, inner=inner),
           Subject("UDD(0)", lambda b, i: UDD(m=0, life=table(b, i)), cont, rewrap, inner=inner),
           Subject("Woolhouse", lambda b, i: Woolhouse(m=4, life=table(b, i)), wool, rewrap, inner=inner),
           Subject("Woolhouse3", lambda b, i: Woolhouse(m=12, life=table(b, i), three_term=True), wool, rewrap, inner=inner)]
    for kind in ("ADD_FORCE", "ADD_AGE", "MULTIPLY_FORCE", "MULTIPLY_RATE"):
        out.append(Subject(f"ExtraRisk({kind})", lambda b, i, kind=kind: ExtraRisk(life=table(b, i), extra=2 if kind == "ADD_AGE" else 1.5 if "MULT" in kind else .1, risk=kind),
                           {f"{f}{x}+{s}": (lambda o, f=f, x=x, s=s: getattr(o, f)(x, s=s)) for f in ("p_x", "q_x") for x in (2, 3, 4) for s in (0, 1)}
                           | {"columns": lambda o: [o["q"], o["p"]], "table": lambda o: LifeTable().set_table(q=o["q"]).p_x(2, t=2)}, rewrap, inner=inner))
    return out


def answer(ck, o, f):
    st, v = ck.call(lambda: plain(f(o)))
    return v if st == "ok" else "exception " + str(v).split(":")[0]


def observe(ck, site, hist, sub, o, b, i, names=None):
    """every query, now, against a fresh object with these assumptions"""
    want = sub.reference(ck, b, i)
    for q in names or sub.queries:
        ck.step()
        got = answer(ck, o, sub.queries[q])
        ck.ok(site, dict(subject=sub, history=hist, query=q, basis=b, rate=i), lambda: close(got, want[q]) or print(got, want[q]))


def after_query(ck, item):
    """one query, then every query, forwards or backwards"""
    sub, names = item
    ax = next((q for q in sub.queries if q[-3:] == "A_x"), None)
    for q in names:
        if ax and not sub.name.startswith("Recursion"):    # asked while another question is being answered
            o = sub.new(0, .25)
            x, s = map(int, ax[ax.find("[") + 1:ax.find("]")].split("+"))
            nest = lambda life, f: life.A_x(x, s=s, t=2, benefit=f, moment=2)
            ck.step()
            got = answer(ck, o, lambda life: nest(life, lambda x, t: answer(ck, o, sub.queries[q]) and IRR(x, t) or IRR(x, t)))
            ck.ok("nested", dict(subject=sub, query=q), lambda: close(got, answer(ck, sub.new(0, .25), lambda life: nest(life, IRR))))
        for rev in (False, True):
            ck.visit(sub.name, q, rev)
            o = sub.new(0, .25)
            answer(ck, o, sub.queries[q])
            observe(ck, "after", f"{q}{' backwards' if rev else ''}", sub, o, 0, .25, list(sub.queries)[::-1] if rev else None)


def changes(ck, item):
    """histories of changed assumptions and rounds of queries"""
    sub, hists, depth_names = item
    for hist in hists:
        b, i = 0, .25
        o = sub.new(b, i)
        for op in hist:
            if op[0] == "i":
                i = float(op[1:])
                sub.rerate(o, i)
            elif op[0] == "b":
                b = int(op[1:])
                sub.rebase(o, b)
            else:
                for q in depth_names:
                    answer(ck, o, sub.queries[q])
            ck.visit(sub.name, b, i, hist[:hist.index(op) + 1])
        observe(ck, "changed", " ".join(hist), sub, o, b, i)


def others(ck, item):
    """another object is made, asked and changed between this object's making and its queries"""
    sub, other, names, onames = item
    for k, hist in enumerate(("make", "make ask", "ask make change ask", "make change ask change")):
        ck.visit(sub.name, other.name, hist)
        o = sub.new(0, .25)
        if "ask make" in hist:
            for q in names:
                answer(ck, o, sub.queries[q])
        p = other.new(1, .5)
        for op in hist.split()[2 if hist.startswith("ask") else 1:]:
            if op == "change":
                other.rerate(p, .1)
                if other.rebase:
                    other.rebase(p, 0)
            else:
                for q in onames:
                    answer(ck, p, other.queries[q])
        observe(ck, "beside", f"{other}: {hist}", sub, o, 0, .25, names)
        observe(ck, "and", f"{sub}: {hist}", other, p, 0 if "change" in hist and other.rebase else 1, .1 if "change" in hist else .5, onames)


# ---- contracts, interest and reserves keep their terms
def contracts(ck, item):
    life, b, i = item
    o = table(b, i) if life == "table" else made(Reserves, survival)(b, i)
    terms = dict(premium=.3, benefit=2., initial_policy=.1, initial_premium=.2, renewal_policy=.05, renewal_premium=.1, settlement_policy=.02, endowment=1., T=3, discrete=True)
    Q = {"premium_terms": lambda c: c.premium_terms, "renewals": lambda c: vars(c.renewals()), "renewals t": lambda c: vars(c.renewals(t=1)), "profit": lambda c: c.renewal_profit, "initial": lambda c: c.initial_cost, "claims": lambda c: c.claims_cost,
         "value": lambda c: o.gross_policy_value(2, t=1, n=3, contract=c), "whole value": lambda c: [o.gross_policy_value(2, t=t, contract=c) for t in (1, 0)], "whole variance": lambda c: o.gross_policy_variance(2, t=1, contract=c),
         "even value": lambda c: [o.gross_policy_value(2, t=t, n=3, contract=even(c)) for t in (1, 0)], "even terms": lambda c: asked(c), "variance": lambda c: o.gross_policy_variance(2, t=1, n=3, contract=c), "loss": lambda c: o.L_from_t(1.5, contract=c), "prob": lambda c: o.L_from_prob(2, .4, contract=c),
         "to": lambda c: o.L_to_prob(2, .2, contract=c), "future": lambda c: o.gross_future_loss(A=.3, contract=c), "vloss": lambda c: o.gross_variance_loss(A1=.3, A2=.2, contract=c), "terms": lambda c: vars(c),
         "gross": lambda c: o.gross_premium(A=.3, a=4., **c.premium_terms), "fill": lambda c: (made(Reserves, survival) if life != "table" else table)(b, i).set_reserves(T=3, endowment=1.).fill_reserves(2, contract=c).reserves_frame()}
    fresh = lambda **kw: Contract(**{**terms, **kw})
    memo = {}

    def even(c):
        return Contract(**{**vars(c), "endowment": c.claims_cost})

    def asked(c):
        e = even(c)
        o.gross_policy_value(2, t=1, n=3, contract=e), o.gross_policy_variance(2, t=1, n=3, contract=e), o.L_from_t(1.5, contract=e)
        return vars(e)

    def ref(q, **kw):
        key = (q, tuple(sorted(kw.items())))
        if key not in memo:
            memo[key] = answer(ck, fresh(**kw), Q[q])
        return memo[key]
    for q1 in Q:
        for q2 in Q:
            for kw in ({}, dict(premium=.4), dict(benefit=3., initial_policy=.3), dict(renewal_premium=.3, settlement_policy=.1)):
                ck.visit("contract", life, q1, q2, tuple(kw))
                ck.step(3)
                c, c2 = fresh(), fresh()
                answer(ck, c, Q[q1])
                r = c.renewals()
                r.set_contract(premium=9., benefit=9., renewal_policy=9.)      # a derived contract is another contract
                c.set_contract(**kw)
                got = answer(ck, c, Q[q2])
                ck.ok("contract", dict(life=life, asked=q1, changed=kw, query=q2, i=i), lambda: close(got, ref(q2, **kw)))
                got2 = answer(ck, c2, Q[q2])
                ck.ok("contract beside", dict(life=life, asked=q1, changed=kw, query=q2, i=i), lambda: close(got2, ref(q2)))
    d = [answer(ck, Contract(), Q[q]) for q in Q]
    x = Contract()
    x.set_contract(premium=5., T=1)
    ck.ok("default terms", dict(life=life), lambda: close(d, [answer(ck, Contract(), Q[q]) for q in Q]))


def reserves(ck, item):
    """asking for reserves stores none; set reserves stay what they were"""
    i, = item
    Q = {"forward": lambda o: [o.t_V_forward(2, t=t, premium=.3, benefit=lambda t: 1) for t in range(3)], "backward": lambda o: [o.t_V_backward(2, t=t, premium=.3) for t in (1, 2, 3)],
         "t_V": lambda o: [o.t_V(2, t=t, premium=.3, reserve_benefit=rb) for t in range(4) for rb in (False, True)], "interim": lambda o: [o.r_V_forward(2, s=s, r=.5, premium=.3) for s in (0, 1)] + [o.r_V_backward(2, s=s, r=.5) for s in (0, 1)],
         "frame": lambda o: o.reserves_frame(), "FPT": lambda o: [o.FPT_premium(2, b=2), o.FPT_policy_value(2, t=2, b=2)], "value": lambda o: [o.net_policy_value(2, t=1), o.whole_life_annuity(2)], "T": lambda o: o.T}
    hold = [dict(T=3, V={1: .1, 2: .3}), dict(T=3, endowment=1, V={2: .4}), dict(T=3)]

    def new(h):
        o = table(0, i)
        return o.set_reserves(**h)
    for h in hold:
        want = {q: answer(ck, new(h), f) for q, f in Q.items()}
        for q1, q2 in itertools.product(Q, repeat=2):
            ck.visit("reserves", i, q1, q2, len(h))
            o, p = new(h), table(1, .5).set_reserves(T=4, V={1: .7, 2: .8, 3: .9})
            answer(ck, o, Q[q1]), answer(ck, p, Q[q1])
            p.fill_reserves(2, contract=Contract(premium=.4, T=4))
            for q in (q2, "frame", "T"):
                ck.step()
                got = answer(ck, o, Q[q])
                ck.ok("reserves", dict(held=h, asked=q1, then=q2, query=q, i=i), lambda: close(got, want[q]))


def rates(ck, item):
    """rate objects"""
    Q = {"i": lambda r: r.i, "d": lambda r: r.d, "v": lambda r: r.v, "delta": lambda r: r.delta, "v_t": lambda r: [r.v_t(t) for t in (0, 1, 2.5)], "annuity": lambda r: [r.annuity(t, m=m, due=u) for t in (0, 3, -1) for m in (0, 1, 4) for u in (True, False)],
         "mthly": lambda r: [r.mthly(m=4, i=.05), Interest.mthly(m=4, d=.05), Interest.mthly(i_m=.05, m=12), Interest.mthly(m=0, i=.07)], "double": lambda r: [r.double_force(i=.05), Interest.double_force(v=.9), Interest.double_force(delta=.05)]}
    for kw in (dict(i=.25), dict(v=.8), dict(delta=.1), dict(d=.1), dict(i=.0), dict(v_t=lambda t: .9 ** t)):
        want = {q: answer(ck, Interest(**kw), f) for q, f in Q.items()}
        for q1, q2 in itertools.product(Q, repeat=2):
            ck.visit("rate", tuple(kw), q1, q2)
            r = Interest(**kw)
            answer(ck, r, Q[q1])
            x = Interest(i=.5)
            answer(ck, x, Q[q1])
            got = answer(ck, r, Q[q2])
            ck.ok("rate", dict(given=list(kw), asked=q1, query=q2), lambda: close(got, want[q2]))


def explore(ck):
    subs = subjects(ck.thorough)
    items = []
    for sub in subs:
        names = list(sub.queries)
        items += [("q", (sub, names[k::16])) for k in range(16)]
        ops = ["i.25", "i.5", "i0", "?"] + [f"b{b}" for b in range(sub.bases) if sub.rebase]
        hists = [h for n in (1, 2, 3) for h in itertools.product(ops, repeat=n) if all(a[0] != b[0] or a[0] == "b" and a != b for a, b in zip(h, h[1:]))]
        if sub.bases > 2 and not ck.thorough:
            hists = [h for h in hists if "i" not in "".join(h) and (len(h) < 3 or h[1] == "?")]
        if ck.thorough and sub.bases == 2:
            hists += [h for h in itertools.product(ops, repeat=4) if all(a != b for a, b in zip(h, h[1:]))]
        else:
            hists = [h for h in hists if len(h) < 3 or h[-1] != "?"]
        items += [("c", (sub, hists[k::8], names)) for k in range(8) if hists[k::8]]
    few = lambda s: list(s.queries)[:: 1 if ck.thorough else 3]
    items += [("o", (a, b, few(a), few(b))) for a in subs for b in subs]
    items += [("k", (l, b, i)) for l in ("table", "function") for b, i in ((0, .25), (1, 0.0))] + [("v", (i,)) for i in (.25, 0.0)] + [("r", ())]
    for s in subs:
        for b in range(max(2, s.bases)):
            for i in (.25, .5, 0.0, .1):
                s.reference(ck, b, i)
    given = repr((QA, QB, SELA, SELB))
    ck.each(items, lambda c, it: dict(q=after_query, c=changes, o=others, k=contracts, v=reserves, r=rates)[it[0]](c, it[1]) or c.ok("given", dict(item=it[0]), lambda: repr((QA, QB, SELA, SELB)) == given))
