"""What a call means: arguments left out take the documented default, and arguments by position are those of the documented order.

Every method of a class is called in every context of the other arguments (left out, or another value), with each
argument left out against given its default, and by position against by name.
"""
import contextlib, io, itertools, math, re
import actuarialmath
from actuarialmath import (Annuity, Beta, ConstantForce, Contract, ExtraRisk, Interest, Life, LifeTable, Makeham, Mthly, PolicyValues, Premiums, Recursion, Reserves,
                           SelectLife, SULT, UDD, Uniform, Woolhouse)
from .core import plain, close

ONE = lambda *a: 1
TEXT = """
Actuarial.max_term(x, t, u=0)
Annuity.a_x(x, s=0, t=-999, u=0, benefit=ONE, discrete=True)
Annuity.immediate_annuity(x, s=0, t=-999, b=1, variance=False)
Annuity.annuity_twin(A, discrete=True)
Annuity.insurance_twin(a, moment=1, discrete=True)
Annuity.annuity_variance(A2, A1, b=1.0, discrete=True)
Annuity.whole_life_annuity(x, s=0, b=1, variance=False, discrete=True)
Annuity.temporary_annuity(x, s=0, t=-999, b=1, variance=False, discrete=True)
Annuity.deferred_annuity(x, s=0, u=0, t=-999, b=1, discrete=True)
Annuity.certain_life_annuity(x, s=0, u=0, t=-999, b=1, discrete=True)
Annuity.increasing_annuity(x, s=0, t=-999, b=1, discrete=True)
Annuity.decreasing_annuity(x, s=0, t=0, b=1, discrete=True)
Annuity.Y_t(x, prob, discrete=True)
Annuity.Y_x(x, s=0, t=1.0, discrete=True)
Annuity.Y_from_t(t, discrete=True)
Annuity.Y_from_prob(x, prob, discrete=True)
Beta.e_r(x, s=0, t=-999, r=0.0)
Beta.e_x(x, s=0, t=-999, curtate=False, moment=1)
ConstantForce.e_x(x, s=0, t=-999, curtate=False, moment=1)
ConstantForce.E_x(x, s=0, t=-999, endowment=1, moment=1)
ConstantForce.whole_life_annuity(x, s=0, b=1, variance=False, discrete=True)
ConstantForce.temporary_annuity(x, s=0, t=-999, b=1, variance=False, discrete=True)
ConstantForce.whole_life_insurance(x, s=0, moment=1, b=1, discrete=True)
ConstantForce.term_insurance(x, s=0, t=1, b=1, moment=1, discrete=True)
ConstantForce.Z_t(x, prob, discrete=True)
ConstantForce.Y_t(x, prob, discrete=True)
Fractional.__init__(udd=True)
LifeTable.__init__(udd=True, verbose=False)
SelectLife.__init__(periods=0, udd=True, verbose=False)
SULT.__init__(i=0.05, radix=100000, S=FAML, minage=20, maxage=130)
Beta.__init__(omega, alpha, radix=100000)
Uniform.__init__(omega)
Makeham.__init__(A, B, c)
Gompertz.__init__(B, c)
ConstantForce.__init__(mu)
Mthly.__init__(m, life)
UDD.__init__(m, life)
Woolhouse.__init__(m, life, three_term=False, approximate_mu=True)
ExtraRisk.__init__(life, risk='', extra=0.0)
Recursion.__init__(depth=3, verbose=True)
Interest.__init__(i=-1.0, delta=-1.0, d=-1.0, v=-1.0, i_m=-1.0, d_m=-1.0, m=0)
Contract.__init__(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0, benefit=1, endowment=0, T=-999, discrete=True)
Contract.renewals(t=0)
ExtraRisk.p_x(x, s=0)
ExtraRisk.q_x(x, s=0)
Fractional.l_r(x, s=0, r=0.0)
Fractional.p_r(x, s=0, r=0.0, t=1.0)
Fractional.q_r(x, s=0, r=0.0, t=1.0, u=0.0)
Fractional.mu_r(x, s=0, r=0.0)
Fractional.f_r(x, s=0, r=0.0, t=0.0)
Fractional.E_r(x, s=0, r=0.0, t=1.0)
Fractional.e_r(x, s=0, t=-999)
Fractional.e_approximate(e_complete=None, e_curtate=None, variance=False)
Insurance.E_x(x, s=0, t=1, endowment=1, moment=1)
Insurance.A_x(x, s=0, t=-999, u=0, benefit=ONE, endowment=0.0, moment=1, discrete=True)
Insurance.insurance_variance(A2, A1, b=1)
Insurance.whole_life_insurance(x, s=0, moment=1, b=1, discrete=True)
Insurance.term_insurance(x, s=0, t=1, b=1, moment=1, discrete=True)
Insurance.deferred_insurance(x, s=0, u=0, t=-999, b=1, moment=1, discrete=True)
Insurance.endowment_insurance(x, s=0, t=1, b=1, endowment=-1, moment=1, discrete=True)
Insurance.increasing_insurance(x, s=0, t=-999, b=1, discrete=True)
Insurance.decreasing_insurance(x, s=0, t=1, b=1, discrete=True)
Insurance.Z_x(x, s=0, t=0.0, discrete=True)
Insurance.Z_t(x, prob, discrete=True)
Insurance.Z_from_t(t, discrete=True)
Insurance.Z_from_prob(x, prob, discrete=True)
Interest.annuity(t=-1, m=1, due=True)
Interest.mthly(m=0, i=-1, d=-1, i_m=-1, d_m=-1)
Interest.double_force(i=-1.0, delta=-1.0, d=-1.0, v=-1.0)
Life.bernoulli(p, a=1, b=0, variance=False)
Life.binomial(p, N, variance=False)
Life.mixture(p, p1, p2, N=1, variance=False)
Life.conditional_variance(p, p1, p2, N=1)
Life.portfolio_percentile(mean, variance, prob, N=1)
Life.portfolio_cdf(mean, variance, value, N=1)
LifeTable.mu_x(x, s=0, t=0)
LifeTable.l_x(x, s=0)
LifeTable.d_x(x, s=0, t=1)
LifeTable.p_x(x, s=0, t=1)
LifeTable.q_x(x, s=0, t=1, u=0)
LifeTable.e_x(x, s=0, t=-999, curtate=True, moment=1)
LifeTable.E_x(x, s=0, t=1, moment=1, endowment=1)
Lifetime.e_x(x, s=0, t=-999, curtate=True, moment=1)
MortalityLaws.l_r(x, s=0, r=0.0)
MortalityLaws.p_r(x, s=0, r=0.0, t=1.0)
MortalityLaws.q_r(x, s=0, r=0.0, t=1.0, u=0.0)
MortalityLaws.mu_r(x, s=0, r=0.0)
MortalityLaws.f_r(x, s=0, r=0.0, t=0.0)
MortalityLaws.e_r(x, s=0, r=0.0, t=-999)
Mthly.q_m(x, s_m=0, t_m=1, u_m=0)
Mthly.p_m(x, s_m=0, t_m=1)
Mthly.Z_m(x, s=0, t=1, benefit=ONE, moment=1)
Mthly.E_x(x, s=0, t=1, moment=1, endowment=1)
Mthly.A_x(x, s=0, t=1, u=0, benefit=ONE, moment=1)
Mthly.whole_life_insurance(x, s=0, moment=1, b=1)
Mthly.term_insurance(x, s=0, t=1, b=1, moment=1)
Mthly.deferred_insurance(x, s=0, u=0, b=1, t=-999, moment=1)
Mthly.endowment_insurance(x, s=0, t=1, b=1, endowment=-1, moment=1)
Mthly.annuity_variance(A2, A1, b=1)
Mthly.years_paid(x, s=0, t=-999, variance=False)
Mthly.whole_life_annuity(x, s=0, b=1, variance=False)
Mthly.temporary_annuity(x, s=0, t=-999, b=1, variance=False)
Mthly.deferred_annuity(x, s=0, u=0, t=-999, b=1)
Mthly.immediate_annuity(x, s=0, t=-999, b=1)
PolicyValues.net_future_loss(A, A1, b=1)
PolicyValues.net_variance_loss(A1, A2, A=0, b=1)
PolicyValues.net_policy_variance(x, s=0, t=0, b=1, n=-999, endowment=0, discrete=True)
PolicyValues.net_policy_value(x, s=0, t=0, b=1, n=-999, endowment=0, discrete=True)
PolicyValues.gross_future_loss(A=None, a=None, contract=PLAIN)
PolicyValues.gross_variance_loss(A1, A2=0, contract=PLAIN)
PolicyValues.gross_policy_variance(x, s=0, t=0, n=-999, contract=PLAIN)
PolicyValues.gross_policy_value(x, s=0, t=0, n=-999, contract=PLAIN)
PolicyValues.L_from_t(t, contract=PLAIN)
PolicyValues.L_from_prob(x, prob, contract=PLAIN)
PolicyValues.L_to_t(L, contract=PLAIN)
PolicyValues.L_to_prob(x, L, contract=PLAIN)
Premiums.net_premium(x, s=0, t=-999, u=0, n=0, b=1, endowment=0, discrete=True, return_premium=False, annuity=False, initial_cost=0.0)
Premiums.insurance_equivalence(premium, b=1, discrete=True)
Premiums.annuity_equivalence(premium, b=1, discrete=True)
Premiums.premium_equivalence(A=None, a=None, b=1, discrete=True)
Premiums.gross_premium(a=None, A=None, IA=0, discrete=True, benefit=1, E=0, endowment=0, settlement_policy=0.0, initial_policy=0.0, initial_premium=0.0, renewal_policy=0.0, renewal_premium=0.0)
Recursion.set_q(val, x, s=0, t=1, u=0)
Recursion.q_x(x, s=0, t=1, u=0)
Recursion.set_p(val, x, s=0, t=1)
Recursion.p_x(x, s=0, t=1)
Recursion.set_e(val, x, s=0, t=-999, curtate=False, moment=1)
Recursion.e_x(x, s=0, t=-999, curtate=False, moment=1)
Recursion.set_E(val, x, s=0, t=1, endowment=1, moment=1)
Recursion.E_x(x, s=0, t=1, endowment=1, moment=1)
Recursion.set_IA(val, x, s=0, t=-999, b=1, discrete=True)
Recursion.increasing_insurance(x, s=0, t=-999, b=1, discrete=True)
Recursion.set_DA(val, x, s=0, t=-999, b=1, discrete=True)
Recursion.decreasing_insurance(x, s=0, t=-999, b=1, discrete=True)
Recursion.set_A(val, x, s=0, t=-999, u=0, b=1, moment=1, endowment=0, discrete=True)
Recursion.whole_life_insurance(x, s=0, b=1, discrete=True, moment=1)
Recursion.term_insurance(x, s=0, t=1, b=1, moment=1, discrete=True)
Recursion.deferred_insurance(x, s=0, b=1, u=0, t=-999, moment=1, discrete=True)
Recursion.endowment_insurance(x, s=0, t=1, b=1, endowment=-1, moment=1, discrete=True)
Recursion.set_a(val, x, s=0, t=-999, u=0, b=1, variance=False, discrete=True)
Recursion.whole_life_annuity(x, s=0, b=1, variance=False, discrete=True)
Recursion.temporary_annuity(x, s=0, t=-999, b=1, variance=False, discrete=True)
Recursion.deferred_annuity(x, s=0, t=-999, u=0, b=1, discrete=True)
Reserves.t_V_backward(x, s=0, t=0, premium=0, benefit=ONE, per_premium=0, per_policy=0, reserve_benefit=False)
Reserves.t_V_forward(x, s=0, t=0, premium=0, benefit=ONE, per_premium=0, per_policy=0, reserve_benefit=False)
Reserves.t_V(x, s=0, t=0, premium=0, benefit=ONE, reserve_benefit=False, per_premium=0, per_policy=0)
Reserves.r_V_backward(x, s=0, r=0, benefit=1)
Reserves.r_V_forward(x, s=0, r=0, premium=0, benefit=1)
Reserves.FPT_premium(x, s=0, n=-999, b=1, first=False)
Reserves.FPT_policy_value(x, s=0, t=0, b=1, n=-999, endowment=0, discrete=True)
SULT.frame(minage=20, maxage=100)
SelectLife.A_x(x, s=0, moment=1, discrete=True)
SelectLife.whole_life_insurance(x, s=0, moment=1, b=1, discrete=True)
SelectLife.a_x(x, s=0, moment=1, discrete=True)
SelectLife.whole_life_annuity(x, s=0, b=1, variance=False, discrete=True)
SelectLife.l_x(x, s=0)
SelectLife.p_x(x, s=0, t=1)
SelectLife.q_x(x, s=0, t=1, u=0)
SelectLife.e_x(x, s=0, t=-999, curtate=True, moment=1)
SelectLife.frame(table='l')
Survival.l_x(x, s=0)
Survival.d_x(x, s=0)
Survival.p_x(x, s=0, t=1)
Survival.q_x(x, s=0, t=1, u=0)
Survival.f_x(x, s=0, t=0)
Survival.mu_x(x, s=0, t=0)
UDD.i_ratio(moment=1)
UDD.whole_life_insurance(x, s=0, moment=1, b=1)
UDD.endowment_insurance(x, s=0, t=1, b=1, endowment=-1, moment=1)
UDD.term_insurance(x, s=0, t=1, b=1, moment=1)
UDD.years_paid(x, s=0, t=-999, variance=False)
UDD.whole_life_annuity(x, s=0, b=1, variance=False)
UDD.temporary_annuity(x, s=0, t=-999, b=1, variance=False)
UDD.deferred_annuity(x, s=0, u=0, t=-999, b=1, variance=False)
UDD.interest_frame(i=0.05)
Uniform.e_x(x, s=0, t=-999, curtate=False, moment=1)
Uniform.E_x(x, s=0, t=-999, moment=1, endowment=1)
Uniform.whole_life_insurance(x, s=0, moment=1, b=1, discrete=True)
Uniform.term_insurance(x, s=0, t=1, b=1, moment=1, discrete=False)
Woolhouse.mu_x(x, s=0)
Woolhouse.whole_life_insurance(x, s=0, b=1, mu=None)
Woolhouse.term_insurance(x, s=0, t=-999, b=1, mu=None, mu1=None)
Woolhouse.endowment_insurance(x, s=0, t=-999, b=1, endowment=-1, mu=None)
Woolhouse.deferred_insurance(x, s=0, u=0, t=-999, b=1, mu=None, mu1=None)
Woolhouse.whole_life_annuity(x, s=0, b=1, mu=None)
Woolhouse.temporary_annuity(x, s=0, t=-999, b=1, mu=None, mu1=None)
Woolhouse.deferred_annuity(x, s=0, t=-999, u=0, b=1, mu=None, mu1=None)
"""
SIGNATURES = {}
for line in TEXT.strip().splitlines():
    cls, method, params = re.match(r"(\w+)\.(\w+)\((.*)\)", line).groups()
    SIGNATURES.setdefault(cls, {})[method] = [tuple(p.split("=", 1)) if "=" in p else (p, None) for p in params.split(", ")]

TERMS = dict(premium=.3, benefit=2., initial_policy=.1, initial_premium=.2, renewal_policy=.05, renewal_premium=.1, settlement_policy=.02)
OTHER = dict(table='q', s=1, t=2, u=1, n=3, b=3, moment=2, endowment=2., discrete=False, variance=True, benefit=lambda *a: 2., r=.5, curtate=True, val=.37, premium=.3, per_premium=.1, per_policy=.05,
             reserve_benefit=True, A=.4, a=4., A1=.4, A2=.3, IA=.2, E=.5, mu=.1, mu1=.2, s_m=2, t_m=3, u_m=1, m=4, i=.05, d=.04, i_m=.06, d_m=.05, v=.9, delta=.07, due=False, N=3,
             return_premium=True, annuity=True, initial_cost=.1, first=True, target=.5, abs_tol=.1, maxage=60, minage=40, e_complete=None, e_curtate=7., T=4, p1=.25, p2=.5, p=.4, value=3., mean=2., prob=.4,
             x=2, L=.1, udd=False, verbose=True, periods=3, radix=1000, S=lambda x, t: math.exp(-.05 * t), omega=12, alpha=.5, c=1.2, B=.03, three_term=True, approximate_mu=False, risk="MULTIPLY_RATE", extra=2., depth=1, life=None, **{k: v for k, v in TERMS.items() if k not in ("premium", "benefit")})


def table(cls=LifeTable, **kw):
    return cls(**kw).set_interest(i=.25).set_table(q={2: .125, 3: .25, 4: .375, 5: .5, 6: .25, 7: .5, 8: 1})


def function():
    return Reserves().set_interest(i=.25).set_survival(S=lambda x, s, t: max(0., (10 - x - s - t) / (10 - x - s)) if x + s < 10 else 0., minage=0, maxage=10)


def law():
    return Makeham(A=.1, B=.02, c=1.25).set_interest(i=.25)


FAML = lambda x, t: math.exp(-.00022 * t - 2.7e-6 * 1.124 ** x * (1.124 ** t - 1) / math.log(1.124))


def built(cls, *args, **kw):
    """what an object made with these arguments answers"""
    if cls == "Contract":
        return Contract(*args, **kw)
    if cls == "Interest":
        obj = Interest(*args, **kw)
        return [obj.i, obj.delta, obj.d, obj.v, obj.v_t(2)]
    if cls == "ExtraRisk":
        obj = ExtraRisk(*args, **kw)
        return [f(x, s=s) for f in (obj.p_x, obj.q_x) for x in (3, 4) for s in (0, 1, 2)]
    if cls in ("Mthly", "UDD", "Woolhouse"):
        obj = getattr(actuarialmath, cls)(*args, **kw)
        out = [obj.m, *[f(x, s=s) for f in (obj.whole_life_annuity, obj.whole_life_insurance) for x in (3, 4) for s in (0, 1)], obj.temporary_annuity(3, t=2)]
        return out + [obj.mu_x(x, s=s) for x in (3, 4) for s in (0, 1)] if cls == "Woolhouse" else out
    if cls == "Recursion":
        say = io.StringIO()
        with contextlib.redirect_stdout(say):
            obj = Recursion(*args, **kw).set_interest(i=.25)
            for x in range(2, 10):
                obj.set_q(1 / x, x=x)
            obj.set_a(4., x=10)
            out = []
            for ask in (lambda t: obj.p_x(2, t=t), lambda t: obj.E_x(2, t=t), lambda t: obj.whole_life_annuity(10 - t)):
                for t in range(7):
                    try:
                        out.append(ask(t))
                    except Exception:
                        out.append("no answer")
        return out + [bool(say.getvalue())]
    obj = getattr(actuarialmath, cls)(*args, **kw)
    say = io.StringIO()
    with contextlib.redirect_stdout(say):
        if cls == "Fractional":
            obj.set_survival(S=lambda x, s, t: max(0., (10 - x - s - t) / (10 - x - s)) ** 2 if x + s < 10 else 0., minage=0, maxage=10)
        elif cls == "LifeTable":
            obj.set_interest(i=.25).set_table(q={2: .125, 3: .25, 4: .375, 5: .5, 6: 1})
        elif cls == "SelectLife":
            obj.set_interest(i=.25).set_table(q={2: [.125, .25, .375], 3: [.25, .125, .5], 4: [.125, .125, .25], 5: [.5, .25, .5], 6: [.25, .25, 1]})
        elif cls != "SULT":
            obj.set_interest(i=.25)
    ages = (50, 98, 129) if cls == "SULT" else (2, 3, 4)
    if cls == "Fractional":
        return [f(x, s=s, r=r, t=t) for f in (obj.p_r, obj.q_r) for x in ages for s in (0, 1) for r in (0, .25) for t in (.5, 1.25)]
    out = [obj.p_x(x, s=s) for x in ages for s in (0, 1, 2)] + [obj.l_x(x, s=s) for x in ages for s in (0, 1, 2)] + [obj.whole_life_annuity(ages[0])]
    if hasattr(obj, "p_r"):
        out += [obj.p_r(x, s=s, r=r, t=t) for x in ages for s in (0, 1) for r in (0, .25) for t in (.5, .75)]
    if cls in ("Makeham", "Gompertz", "ConstantForce", "Beta", "Uniform"):
        out += [obj.mu_x(x) for x in ages] + [obj.e_x(2), obj.whole_life_insurance(2, discrete=False)]
    if cls == "SULT":
        out += [len(obj["q"]), obj.interest.v]
    return out + [bool(say.getvalue())]


def reserves():
    return law().set_reserves(T=4, V={1: .2, 2: .4, 3: .3, 4: 1.})


def selected():
    return SelectLife(periods=2).set_interest(i=.25).set_table(q={2: [.125, .25, .25], 3: [.25, .125, .5], 4: [.125, .125, .25], 5: [.5, .25, .5], 6: [.25, .25, 1]})


def engine(depth=1):
    """an engine told a different number for every fact"""
    life, n = Recursion(depth=depth, verbose=False).set_interest(i=.25), 1
    for method, params in SIGNATURES["Recursion"].items():
        if method.startswith("set_"):
            free = [(k, d) for k, d in params if d is not None and k != "b"]
            for vals in itertools.product(*[(default_value(d), value("Recursion", method, k, d)) for k, d in free]):
                n += 1
                with contextlib.suppress(Exception):
                    getattr(life, method)(1 / n, x=2, **dict(zip([k for k, _ in free], vals)))
    return life


def told(method, *args, **kw):
    """everything an engine answers after one fact is given"""
    life = getattr(Recursion(depth=1, verbose=False).set_interest(i=.25), method)(*args, **kw)
    seen = []
    for ask, params in SIGNATURES["Recursion"].items():
        if not ask.startswith("set_") and ask[0] in (("a", "A", "w", "t", "d", "e", "i") if method[4:] in ("A", "a", "IA", "DA") else method[4:5].lower() + method[4:5]):
            free = [(k, d) for k, d in params if d is not None]
            for vals in itertools.product(*[(default_value(d), value("Recursion", ask, k, d)) for k, d in free]):
                try:
                    seen.append(getattr(life, ask)(2, **dict(zip([k for k, _ in free], vals))))
                except Exception:
                    seen.append("not asked")
    return seen


MAKE = {**{c: function for c in ("Survival", "Lifetime", "Fractional", "Actuarial")}, **{c: law for c in ("Insurance", "Annuity", "Premiums", "PolicyValues", "MortalityLaws")}, "Reserves": reserves, "Life": function,
        "LifeTable": table, "SelectLife": selected, "SULT": SULT, "Beta": lambda: Beta(10, .5).set_interest(i=.25), "Uniform": lambda: Uniform(10).set_interest(i=.25),
        "ConstantForce": lambda: ConstantForce(mu=.1).set_interest(i=.25), "Mthly": lambda: Mthly(m=4, life=table()), "UDD": lambda: UDD(m=4, life=table()),
        "Woolhouse": lambda: Woolhouse(m=4, life=table(), three_term=True), "Recursion": engine, "Interest": lambda: Interest(i=.25), "Contract": lambda: Contract(**TERMS), "ExtraRisk": lambda: ExtraRisk(life=selected(), risk="ADD_FORCE", extra=.1)}


def value(cls, method, name, default):
    if name == "contract":
        return Contract(**TERMS, discrete=cls != "Annuity")
    if name == "quantiles":
        return [.5, .9]
    if method == "quantiles_frame":
        return [.5]
    if name == "x" and cls == "SULT":
        return 50
    if name == "x" and cls == "Woolhouse":
        return 3
    if method in ("bernoulli",) and name == "b":
        return 2.
    if name == "t" and method in ("e_r", "f_r", "p_r", "q_r", "E_r") and cls != "MortalityLaws":
        return 1.5
    if name == "discrete" and default == "False" or name == "curtate" and default == "True":
        return default != "True"
    if name == "benefit" and cls == "Premiums":
        return 2.
    if name == "endowment" and cls == "Premiums":
        return 2
    if method == "__init__":
        if name in ("i", "S", "A", "B", "mu", "life", "d", "radix", "maxage", "minage", "verbose"):
            return dict(OTHER, i=.06, A=.1, life=(selected() if cls == "ExtraRisk" else table()), verbose=default == "False", maxage=100, minage=30)[name]
    return OTHER[name]


def default_value(d):
    return Contract() if d == "PLAIN" else eval(d, {"ONE": ONE, "FAML": FAML})


def shown(v):
    return plain(vars(v) if isinstance(v, Contract) else v)


def signatures(ck, *names):
    """names: classes, or Class.method"""
    for cls in names:
        cls, _, one = cls.partition(".")
        for method, params in SIGNATURES[cls].items():
            if one and method not in one.split("|"):
                continue
            new = (lambda: lambda *a, **k: built(cls, *a, **k)) if method == "__init__" else MAKE[cls]
            objects = new()

            def call(*args, **kw):
                ck.step()
                st, v = ck.call(lambda: shown(objects(*args, **kw) if method == "__init__" else told(method, *args, **kw) if cls == "Recursion" and method[:4] == "set_" else getattr(objects, method)(*args, **kw)))
                return v if st == "ok" else "exception " + str(v).split(":")[0]
            need = {n: value(cls, method, n, d) for n, d in params if d is None}
            free = [(n, d) for n, d in params if d is not None]
            other = {n: value(cls, method, n, d) for n, d in free}
            names_ = [n for n, d in params]
            full = {**need, **other}
            for k in range(len(names_) + 1):
                ck.visit("sig", cls, method, k)
                byname, bypos = call(**{n: full[n] for n in names_ if n in need or n in names_[:k]}), None
                if all(n not in need for n in names_[k:]):
                    bypos = call(*[full[n] for n in names_[:k]])
                    ck.ok("by position", dict(method=f"{cls}.{method}", args=names_[:k]), lambda: close(bypos, byname))
            for n, d in free:
                rest = [f for f, _ in free if f != n]
                contexts = [(), rest] + [[f] for f in rest] + [[f for f in rest if f != g] for g in rest]
                for names2 in contexts:
                    ck.visit("sig", cls, method, n, *names2)
                    kw = {**need, **{f: other[f] for f in names2}}
                    a, b = call(**kw), call(**kw, **{n: default_value(d)})
                    ck.ok("left out", dict(method=f"{cls}.{method}", left_out=n, given=sorted(names2)), lambda: close(a, b))
