"""C13: gross premiums against the gross loss enumerated over every time of death; conversions between A, a and P."""
import itertools, math
from actuarialmath import Premiums, PolicyValues, Contract, LifeTable
from . import model as M
from .sigs import signatures

ASSUMPTIONS = ["conversions that need a positive interest rate (annuity or premium from an insurance value) are asked for at positive rates only",
               "initial expenses replace renewal expenses in the first year (discrete) or are paid at issue in excess of renewal expenses (continuous)"]


def premium(v, ch, x, s, n, disc, ben, endow, settle, ip, ig, rp, rg, ret, ck):
    """G with E[loss] = 0: the loss on each path is linear in G, so enumerate its two coefficients"""
    def flows(g, pay):
        # on one path: benefits, settlement and expenses out; G in, less expenses proportional to G, plus G returned
        ins = (M.ins if disc else M.insT)
        out = ins(v, n, 0, lambda j: ben + settle, endow)(g)
        pays = pay(g)
        const = out + rp * pays + (ip - rp)
        coef = pays - rg * pays - (ig - rg)
        if ret:
            coef -= ins(v, n, 0, lambda j: j)(g)
        return const, coef
    pay = (M.ann if disc else M.annT)(v, n)
    E = (lambda g: ch.EK(x, s, g, ck)) if disc else (lambda g: ch.ET(x, s, g, ck))
    return E(lambda k: flows(k, pay)[0]), E(lambda k: flows(k, pay)[1])


EXP = list(itertools.product((0, 3), (0, 0.5), (0, 2), (0, 0.1)))


def check(ck, item):
    ch, disc = item
    for i in M.RATES:
        v = 1 / (1 + i)
        life = PolicyValues().set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega).set_interest(i=i)
        E = (lambda g: ch.EK(x, s, g, ck)) if disc else (lambda g: ch.ET(x, s, g, ck))
        ins, ann = (M.ins, M.ann) if disc else (M.insT, M.annT)
        for x, s in ch.starts(1):
            room = ch.omega - x - s
            for n in (M.WHOLE, 1, 2, 3):
                if n > room or (not disc and n == 1):
                    continue
                a = E(ann(v, n))
                A = E(ins(v, n))
                Ae = E(ins(v, n, endow=1.0))
                IA = E(ins(v, n, 0, lambda j: j))
                pe = 0.0 if n == M.WHOLE else v ** n * ch.p(x, s, n)
                for ip, ig, rp, rg in EXP if disc or ck.thorough else EXP[::3]:
                    for ben, settle in ((10, 0), (7, 4)):
                        for end in (0, 5) if pe else (0,):
                            for ret in (False, True):
                                const, coef = premium(v, ch, x, s, n, disc, ben, end, settle, ip, ig, rp, rg, ret, ck)
                                if coef < 0.05:
                                    continue
                                G = const / coef
                                kw = dict(benefit=ben, settlement_policy=settle, initial_policy=ip, initial_premium=ig,
                                          renewal_policy=rp, renewal_premium=rg)
                                k = dict(ch=ch, i=i, x=x, s=s, n=n, d=disc, **kw, end=end, ret=ret)
                                ex = dict(kw, IA=IA) if ret else dict(kw)
                                if end:
                                    ex.update(E=pe, endowment=end)
                                if not disc:
                                    ex.update(discrete=False)
                                ck.eq("gross_premium", k, lambda: life.gross_premium(a=a, A=A, **ex), G)
                                if ret:
                                    continue
                                # the expected gross loss at issue, as the library computes it, is zero
                                c = dict(kw, premium=G, endowment=end, T=n, discrete=disc)
                                if disc and not (n == M.WHOLE and i == 0):
                                    ck.eq("gross_loss_at_issue", k, lambda: life.gross_policy_value(x, s=s, n=n, contract=Contract(**c)), 0.0)
                                if end == 0 and i > 0:
                                    const, coef = premium(v, ch, x, s, n, disc, ben, 0 if n == M.WHOLE else ben + settle, settle, ip, ig, rp, rg, False, ck)
                                    if coef > 0.05:
                                        ck.eq("gross_premium.A", k, lambda: life.gross_premium(A=Ae, **ex), const / coef)
                                        ck.eq("gross_premium.a", k, lambda: life.gross_premium(a=a, **ex), const / coef)
                # conversions
                k = dict(ch=ch, i=i, x=x, s=s, n=n, d=disc)
                dk = {} if disc else dict(discrete=False)
                for b in (1, 250):
                    P = b * Ae / a
                    kb = dict(k, b=b)
                    ck.eq("premium_equivalence.a", kb, lambda: life.premium_equivalence(a=a, b=b, **dk), P)
                    ck.eq("premium_equivalence.both", kb, lambda: life.premium_equivalence(A=A, a=a, b=b, **dk), b * A / a)
                    ck.eq("premium_equivalence.positional", kb, lambda: life.premium_equivalence(Ae, a, b, disc), P)
                    ck.eq("insurance_equivalence", kb, lambda: life.insurance_equivalence(P, b=b, **dk), Ae)
                    ck.eq("insurance_equivalence.positional", kb, lambda: life.insurance_equivalence(P, b, disc), Ae)
                    ck.eq("annuity_equivalence", kb, lambda: life.annuity_equivalence(premium=P, b=b, **dk), a)
                    ck.eq("annuity_equivalence.positional", kb, lambda: life.annuity_equivalence(P, b, disc), a)
                    if i > 0:
                        ck.eq("premium_equivalence.A", kb, lambda: life.premium_equivalence(A=Ae, b=b, **dk), P)
                ck.eq("insurance_twin", k, lambda: life.insurance_twin(a, **dk), Ae)
                if i > 0:
                    ck.eq("annuity_twin", k, lambda: life.annuity_twin(Ae, **dk), a)
                    ck.eq("twin.roundtrip", k, lambda: life.annuity_twin(life.insurance_twin(a, **dk), **dk), a)
                    A2 = E(lambda j: ins(v, n, endow=1.0)(j) ** 2)
                    var = (ch.VK if disc else ch.VT)(x, s, ann(v, n))
                    ck.eq("annuity_variance", k, lambda: life.annuity_variance(A2=A2, A1=Ae, b=3, **dk), 9 * var, 1e-8, 1e-8)
            # end to end: the library's own factors
            for n in (M.WHOLE, 2):
                if n > room or (not disc and ch.name[0] == "u" and not ck.thorough):
                    continue
                ex = dict(benefit=10, settlement_policy=1, initial_policy=3, initial_premium=.25, renewal_policy=1, renewal_premium=.05)
                const, coef = premium(v, ch, x, s, n, disc, 10, 0, 1, 3, .25, 1, .05, False, ck)
                if coef > 0.05:
                    ck.eq("gross_premium.own", dict(ch=ch, i=i, x=x, s=s, n=n, d=disc), lambda: life.gross_premium(
                        a=life.temporary_annuity(x, s=s, t=n, discrete=disc), A=life.term_insurance(x, s=s, t=n, discrete=disc), **ex),
                        const / coef, *((1e-9, 1e-9) if disc else (2e-4, 2e-5)))


def stated(ck, item):
    """conversions under every way of stating the rate, values of A and P on a grid"""
    key, rate = item
    life = Premiums().set_interest(**{key: rate})
    i = {"i": rate, "d": rate / (1 - rate), "v": 1 / rate - 1, "delta": math.expm1(rate)}[key]
    for disc in (True, False):
        d = i / (1 + i) if disc else math.log1p(i)
        for A in (0.05, 0.3, 0.77):
            a = (1 - A) / d
            for b in (1, 1000):
                P = b * A / a
                k = dict(key=key, rate=rate, A=A, b=b, d=disc)
                ck.visit(key, rate, A, b, disc)
                ck.step()
                ck.eq("stated.twins", k, lambda: [life.annuity_twin(A, disc), life.insurance_twin(a, discrete=disc),
                      life.premium_equivalence(A=A, b=b, discrete=disc), life.premium_equivalence(a=a, b=b, discrete=disc),
                      life.insurance_equivalence(P, b, disc), life.annuity_equivalence(P, b, disc)], [a, A, P, P, A, a])
                if a <= 1:
                    continue
                for settle, IA, (E, end), (ip, ig, rp, rg) in itertools.product((0, 5), (0, .15), ((0, 0), (.5, 0), (.25, 20)), EXP):
                    # benefits, settlement, endowment and expenses out; premiums in, less expenses per premium and the premiums returned
                    G = (A * (b + settle) + E * end + ip + rp * (a - 1)) / (a - ig - rg * (a - 1) - IA)
                    ex = dict(benefit=b, settlement_policy=settle, initial_policy=ip, renewal_policy=rp, initial_premium=ig, renewal_premium=rg, discrete=disc)
                    ex.update(dict(IA=IA) if IA else {}, **(dict(E=E, endowment=end) if E else {}))
                    ck.eq("stated.gross", dict(k, **ex), lambda: [life.gross_premium(a=a, **ex), life.gross_premium(A=A, **ex), life.gross_premium(a=a, A=A, **ex)], [G, G, G])


def zero(ck, item):
    """at zero interest both factors are given"""
    life = Premiums().set_interest(i=0)
    for A, a, b, disc in itertools.product((.25, 1), (1, 2.5, 12), (1, 1000), (True, False)):
        ck.step()
        ck.visit(A, a, b, disc)
        ck.eq("zero.premium_equivalence", dict(A=A, a=a, b=b, d=disc), lambda: life.premium_equivalence(A=A, a=a, b=b, discrete=disc), b * A / a)
        for settle, IA, (E, end), (ip, ig, rp, rg) in itertools.product((0, 5), (0, .15), ((0, 0), (.5, 0), (.25, 20)), EXP):
            G = (A * (b + settle) + E * end + ip + rp * (a - 1)) / (a - ig - rg * (a - 1) - IA)
            ex = dict(benefit=b, settlement_policy=settle, initial_policy=ip, renewal_policy=rp, initial_premium=ig, renewal_premium=rg, discrete=disc, IA=IA, E=E, endowment=end)
            ck.eq("zero.gross", dict(A=A, a=a, **ex), lambda: life.gross_premium(a=a, A=A, **ex), G)


def explore(ck):
    signatures(ck, "Premiums.insurance_equivalence|annuity_equivalence|premium_equivalence|gross_premium")
    chains = M.ultimates(ck.thorough) + M.selects(ck.thorough) + M.selects(ck.thorough, minage=0)
    ck.each([(ch, d) for ch in chains for d in (True, False)], check)
    ck.each([("i", .05), ("i", .25), ("d", .05), ("v", .9), ("delta", .07)], stated)
    ck.each([0], zero)
