"""C39: what lies outside a stated domain is refused, what lies on its edge is answered, whatever the other arguments."""
import itertools
from actuarialmath import (Annuity, Beta, ConstantForce, Contract, ExtraRisk, Fractional, Gompertz, Insurance, Interest, Life, LifeTable, Lifetime, Makeham, Mthly, PolicyValues, Premiums,
                           Recursion, Reserves, SelectLife, SULT, Survival, UDD, Uniform, Woolhouse)
from . import model as M

ASSUMPTIONS = ["refusing is raising an exception; which one is not looked at",
               "the domains are those the library states: its assertions, documented argument ranges and error messages"]
CH = M.Chain("plain", [.25, .125, .5, .0625, .25, .5, 1.], 0)
WHOLE = M.WHOLE


def functions(cls, **kw):
    return cls(**kw).set_survival(S=CH.S, f=CH.f, minage=CH.minage, maxage=CH.omega).set_interest(i=.25)


def force(cls, **kw):
    return cls(**kw).set_survival(mu=lambda x, t: .02 + .001 * (x + t), minage=0, maxage=60).set_interest(i=.25)


def table(**kw):
    return LifeTable(**kw).set_interest(i=.25).set_table(q={a: CH.q(a) for a in range(CH.minage, CH.omega)})


def rows():
    """(name, function, {argument: (values outside, values inside)}, {other argument: values})"""
    age, dur = dict(x=([-1, -2], [0, 2])), dict(s=([-1], [0, 1]))
    for cls in (Survival, Lifetime, Insurance, Annuity, Premiums, PolicyValues, Reserves):
        for name, life in ((cls.__name__, functions(cls)), (cls.__name__ + " by force", force(cls))):
            for f, ctx in (("l_x", {}), ("d_x", {}), ("p_x", dict(t=[0, 1, 2])), ("q_x", dict(t=[1, 2], u=[0, 1])), ("f_x", dict(t=[0, .5])), ("mu_x", dict(t=[0, .5]))):
                if f in ("l_x", "d_x"):
                    if "force" in name:
                        continue
                    life.set_survival(l=CH.l, minage=CH.minage, maxage=CH.omega)
                yield name + "." + f, getattr(life, f), {**age, **dur}, ctx
                if f == "d_x":
                    life = functions(cls)
            if "force" not in name and cls is not Survival:
                yield name + ".e_x", life.e_x, {**age, **dur, "moment": ([0, 3, -1, -3], [1, 2, -2])}, dict(t=[1, 2], curtate=[True, False])
    for udd in (True, False):
        for name, life in (("LifeTable", table(udd=udd)),):
            part, time = dict(r=([-.25, -1], [0, .5])), dict(t=([-.25, -1], [0, .25, 1]))
            for f in ("l_r", "mu_r"):
                yield f"{name}({udd}).{f}", getattr(life, f), {**age, **dur, **part}, {}
            for f in ("p_r", "q_r", "f_r", "E_r"):
                yield f"{name}({udd}).{f}", getattr(life, f), {**age, **dur, **part, **time}, {}
            yield f"{name}({udd}).e_r", life.e_r, {**age, **dur}, dict(t=[.5, 1, 2])
            yield f"{name}({udd}).Z_x", life.Z_x, dict(t=([-1, -.5], [0, 1])), dict(x=[0, 2], s=[0, 1], discrete=[True, False])
            yield f"{name}({udd}).Y_x", life.Y_x, dict(t=([-1, -.5], [0, 1])), dict(x=[0, 2], s=[0, 1], discrete=[True, False])
            for f in ("Z_t", "Y_t", "Z_from_prob", "Y_from_prob"):
                yield f"{name}({udd}).{f}", getattr(life, f), dict(prob=([1, 1.5], [.25, .875])), dict(x=[0, 2], discrete=[True, False])
    for cls in (Insurance, Annuity, PolicyValues, Reserves):
        for name, life in ((cls.__name__, functions(cls)),) + ((("LifeTable", table()), ("SULT", SULT()), ("SelectLife", select()), ("Uniform", Uniform(10).set_interest(i=.25)), ("ConstantForce", ConstantForce(mu=.1).set_interest(i=.25))) if cls is Reserves else ()):
            x = 50 if name == "SULT" else 0
            who = dict(x=[x, x + 1], s=[0], discrete=[True] if name in ("SelectLife", "SULT", "LifeTable", "Uniform") else [True, False])
            insured = {"moment": ([0, -1, -3], [1, 2])}
            spread = {"moment": ([0, -1, -3], [1, 2, -2])}
            yield name + ".A_x", life.A_x, insured, dict(who, **({} if name == "SelectLife" else dict(t=[1, WHOLE])))
            if name == "SelectLife":
                yield name + ".a_x", life.a_x, {"moment": ([0, 2, -2], [1])}, who
            else:
                yield name + ".whole_life_insurance", life.whole_life_insurance, spread, dict(who, b=[1, 3])
            if name != "Uniform":
                yield name + ".term_insurance", life.term_insurance, spread, dict(who, t=[1, 2], b=[1, 3])
            yield name + ".deferred_insurance", life.deferred_insurance, spread, dict(who, t=[1, 2], u=[1], b=[1])
            yield name + ".endowment_insurance", life.endowment_insurance, spread, dict(who, t=[1, 2], b=[1, 3])
            yield name + ".decreasing_insurance", life.decreasing_insurance, dict(t=([0, -1, WHOLE], [1, 2])), dict(who, b=[1, 3])
            if cls is not Insurance:
                yield name + ".decreasing_annuity", life.decreasing_annuity, dict(t=([-1, WHOLE], [0, 1, 2])), dict(who, b=[1, 3])
                yield name + ".insurance_twin", life.insurance_twin, dict(moment=([0, 2, -2], [1])), dict(a=[3., 4.], discrete=[True, False])
    for cls in (PolicyValues, Reserves):
        yield cls.__name__ + ".L_from_prob", functions(cls).L_from_prob, dict(prob=([1, 1.5], [.25, .875])), dict(x=[0, 2], contract=[Contract(premium=.3, benefit=2), Contract(premium=.3, benefit=2, renewal_policy=.1)])
    for m in (1, 4):
        life = Mthly(m=m, life=table())
        who = dict(x=[0, 2], s=[0, 1])
        yield f"Mthly({m}).E_x", life.E_x, dict(moment=([0, -1], [1, 2])), dict(who, t=[1, 2])
        yield f"Mthly({m}).A_x", life.A_x, dict(moment=([0, 3, -1], [1, 2])), dict(who, t=[1, 2])
        for life in (life, UDD(m=m, life=table())):
            for f, ctx in (("whole_life_insurance", {}), ("term_insurance", dict(t=[1, 2]))) + ((("endowment_insurance", dict(t=[1, 2])),) if isinstance(life, UDD) else ()):
                yield f"{type(life).__name__}({m}).{f}", getattr(life, f), dict(moment=([0, 3, -1, -3], [1, 2, -2])), dict(who, b=[1, 3], **ctx)
    prob = ([-.25, 1.25], [0, .5, 1])
    yield "bernoulli", Life.bernoulli, dict(p=prob), dict(a=[0, 2], b=[1, -3], variance=[True, False])
    yield "binomial", Life.binomial, dict(p=prob, N=([0, -1], [1, 2])), dict(variance=[True, False])
    yield "mixture", Life.mixture, dict(p=prob, p1=prob, p2=prob, N=([0, -1], [1, 2])), dict(variance=[True, False])
    yield "conditional_variance", Life.conditional_variance, dict(p=prob, p1=prob, p2=prob, N=([0, -1], [1, 2])), {}
    yield "portfolio_percentile", Life.portfolio_percentile, dict(prob=([1, 1.5], [.25, .875])), dict(mean=[-1, 0, 2], variance=[0, 4], N=[1, 3])
    # rates
    forms = ("i", "delta", "d", "v", "i_m", "d_m")
    yield "Interest", Interest, dict(rate=([{}] + [{f: -1.} for f in forms] + [{f: -.05, g: -.05} for f, g in itertools.combinations(forms, 2)], [{f: .5} for f in forms] + [{f: 0.} for f in forms if f != "v"])), dict(m=[1, 2])
    yield "Interest(v_t)", Interest, dict(v_t=([5, .9, lambda t: .9, lambda t: 1 - .1 * (t + 1)], [lambda t: .9**t, lambda t: 1])), dict(i=[-1., .05])
    yield "mthly", Interest.mthly, dict(rate=([{}] + [{f: -1} for f in ("i", "d", "i_m", "d_m")], [{f: .5} for f in ("i", "d", "i_m", "d_m")]), m=([-1, -2], [1, 2])), {}
    yield "double_force", Interest.double_force, dict(rate=([{}] + [{f: -1} for f in ("i", "d", "v", "delta")], [{f: .5} for f in ("i", "d", "v", "delta")])), {}
    for i in (0., .05):
        yield f"annuity({i})", Interest(i=i).annuity, dict(m=([-1, -2], [0, 1, 2])), dict(t=[0, 1, 5] + ([WHOLE] if i else []), due=[True, False])
    yield "set_interest", Life().set_interest, dict(rate=([{}] + [{f: -1.} for f in forms], [{f: .5} for f in forms])), dict(m=[1, 2])
    # mortality laws and survival functions
    for cls, A in ((Makeham, dict(A=([-.3, -.21], [-.2, 0., .1]))), (Gompertz, {})):
        yield cls.__name__, cls, dict(A, B=([0., -.1, -.2], [.2]), c=([1., .5, 0., -2.], [1.1, 2.])), {}
    for cls in (Beta, Uniform, Makeham, Gompertz):
        need = dict(omega=[10]) if cls in (Beta, Uniform) else dict(B=[.1], c=[1.1])
        need.update(dict(alpha=[1]) if cls is Beta else dict(A=[0.]) if cls is Makeham else {})
        yield cls.__name__ + "(udd)", cls, dict(rate=([dict(udd=True), dict(udd=False)], [{}])), need
    for f in ("l", "S", "f", "mu"):
        yield f"set_survival({f})", lambda Survival=Survival, **kw: Survival().set_survival(**kw), {f: ([5, .5, [1, 2], "exp"], [lambda *a: .5])}, dict(minage=[0], maxage=[10])
    for cls in (Survival, Lifetime, Fractional, Insurance, Reserves):
        for f in ("p_x", "q_x", "f_x", "mu_x", "l_x", "d_x"):
            yield f"no functions:{cls.__name__}.{f}", lambda cls=cls, f=f, **kw: getattr(cls().set_survival() if kw.pop("set") else cls(), f)(**kw), dict(x=([0, 5], [])), dict(s=[0, 1], set=[True, False])
    # adjustments, frames, summaries
    kinds = ["ADD_FORCE", "MULTIPLY_FORCE", "ADD_AGE", "MULTIPLY_RATE"]
    for life in (table(), select()):
        yield "ExtraRisk", ExtraRisk, dict(risk=(["ADD", "add_force", "MULTIPLY", "?"], kinds + [""]), extra=([-1, -.25], [0, 1, 2])), dict(life=[life])
        yield "ExtraRisk.column", lambda **kw: ExtraRisk(life=kw["life"], risk=kw["risk"], extra=1)[kw["col"]], dict(col=(["e", "l", "A"], ["p", "q"])), dict(life=[life], risk=kinds)
    yield "LifeTable.column", table().__getitem__, dict(col=(["z", "?"], ["l", "q", "p", "d"])), {}
    yield "SULT.column", SULT().__getitem__, dict(col=(["z", "l", "d"], ["q", "p", "a", "A"])), {}
    yield "SelectLife.column", select().__getitem__, dict(table=(["z", "?"], ["l", "q", "d", "A", "a", "e"])), {}
    yield "e_approximate", Fractional.e_approximate, dict(rate=([{}, dict(e_complete=5., e_curtate=4.), dict(e_complete=0., e_curtate=0.)], [dict(e_complete=5.), dict(e_curtate=0.), dict(e_complete=0.)])), dict(variance=[True, False])
    yield "gross_premium", Premiums().set_interest(i=.05).gross_premium, dict(rate=([dict(endowment=5), dict(endowment=5, E=0)], [dict(endowment=0), dict(endowment=5, E=.5)])), dict(A=[.3], a=[5.], benefit=[1, 3], renewal_premium=[0, .1])
    yield "Recursion.decreasing_insurance", lambda **kw: Recursion(verbose=False).set_interest(i=.25).set_q(.25, x=3).set_q(.5, x=4).decreasing_insurance(**kw), dict(t=([-1, WHOLE], [1, 2])), dict(x=[3], b=[1, 3])


def select():
    return SelectLife(periods=1).set_interest(i=.25).set_table(q={a: [q / 2, q2] for a, q, q2 in zip(range(6), (.25, .125, .5, .0625, .25, .5), (.125, .5, .0625, .25, .5, 1.))})


def shown(kw):
    return {k: v.__name__ if callable(v) else type(v).__name__ if hasattr(v, "__dict__") else shown(v) if isinstance(v, dict) else v for k, v in kw.items()}


def work(ck, item):
    for name, f, domain, context in item:
        ctx = [dict(zip(context, v)) for v in itertools.product(*context.values())]
        inside = {k: v[1] for k, v in domain.items()}

        def ask(kw):
            ck.step()
            kw = dict(kw)
            kw.update(kw.pop("rate", {}))
            return ck.call(lambda: f(**kw))
        for c in ctx:
            for edge in itertools.product(*inside.values()):
                kw = {**c, **dict(zip(inside, edge))}
                ck.visit("inside", name, str(shown(kw)))
                st, r = ask(kw)
                ck.eq("answered", dict(f=name, given=str(shown(kw))), lambda: st if st == "ok" else r, "ok")
            for k, (bad, _) in domain.items():
                rest = {a: v for a, v in inside.items() if a != k}
                for b in bad:
                    for edge in itertools.product(*rest.values()):
                        kw = {**c, **dict(zip(rest, edge)), k: b}
                        ck.visit("outside", name, str(shown(kw)))
                        st, r = ask(kw)
                        ck.eq("refused", dict(f=name, given=str(shown(kw))), lambda: "refused" if st != "ok" and "no answer within" not in r else r, "refused")


def explore(ck):
    n = len(list(rows()))
    ck.each(range(16), lambda ck, j: work(ck, [r for k, r in enumerate(rows()) if k % 16 == j]))
