"""C17: every history of contract updates up to a bound, against a plain record of the terms."""
import itertools
from actuarialmath import Contract, PolicyValues, Premiums
from .model import WHOLE
from .sigs import signatures

ASSUMPTIONS = ["histories of up to three (thorough: four) updates over two or three values per term"]
DEFAULT = dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0,
               benefit=1, endowment=0, T=WHOLE, discrete=True)
VALUES = dict(premium=(2.5, 0), initial_policy=(3, 0), initial_premium=(.5, 0), renewal_policy=(.25, 0), renewal_premium=(.125, 0),
              settlement_policy=(4, 0), benefit=(100, 7), endowment=(50, 0), T=(5, WHOLE), discrete=(False, True))


def ops():
    for key, vals in VALUES.items():
        for n, val in enumerate(vals):
            yield ("set", {key: val})
        yield ("attr", {key: vals[0]})
    yield ("set", dict(premium=3, benefit=11, T=9))
    yield ("set", dict(initial_policy=6, renewal_policy=1, initial_premium=.75, renewal_premium=.0625, settlement_policy=2))
    yield ("set", {})
    yield ("set", dict(unknown_term=1))
    yield ("renewals", 0)
    yield ("renewals", 2)
    yield ("read", None)


OPS = list(ops())


def observe(c):
    """everything a contract answers"""
    return {k: getattr(c, k) for k in DEFAULT} | dict(profit=c.renewal_profit, cost=c.initial_cost, claims=c.claims_cost,
                                                     terms=dict(c.premium_terms))


def expected(m):
    return dict(m) | dict(profit=m["premium"] - m["renewal_premium"] * m["premium"] - m["renewal_policy"],
                          cost=(m["initial_policy"] + m["initial_premium"] * m["premium"]) - (m["renewal_policy"] + m["renewal_premium"] * m["premium"]),
                          claims=m["benefit"] + m["settlement_policy"],
                          terms={k: m[k] for k in ("benefit", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy")})


def flat(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update({f"{k}.{a}": b for a, b in v.items()})
        else:
            out[k] = v
    return {k: float(v) for k, v in out.items()}


def renewed(m, t):
    r = dict(m, initial_policy=m["renewal_policy"], initial_premium=m["renewal_premium"])
    r["T"] = WHOLE if m["T"] == WHOLE else m["T"] - t
    return r


def run(ck, hist, initial):
    m = dict(DEFAULT, **initial)
    other_m = dict(DEFAULT)
    states = [dict(m)]
    for n in hist:
        op, arg = OPS[n]
        if op in ("set", "attr"):
            m = dict(m, **{k: v for k, v in arg.items() if k in DEFAULT})
        states.append(dict(m))
    name = ";".join(f"{OPS[n][0]}{OPS[n][1]}" for n in hist).replace(" ", "")
    key = dict(init=str(initial).replace(" ", ""), hist=name)

    def play():
        c, other = Contract(**initial), Contract()
        for n in hist:
            op, arg = OPS[n]
            if op == "set":
                assert c.set_contract(**arg) is c
            elif op == "attr":
                for k, v in arg.items():
                    setattr(c, k, v)
            elif op == "renewals":
                r = c.renewals(arg)
                r.set_contract(premium=77, benefit=78, renewal_policy=79)     # a view shares nothing with the original
            else:
                observe(c)
                c.premium_terms["benefit"] = -1
        return flat(observe(c)), flat(observe(other))
    ck.visit(tuple(sorted((k, str(v)) for k, v in m.items())))
    ck.step(len(hist))
    ck.eq("contract", key, lambda: play()[0], flat(expected(m)))
    ck.eq("contract.other", key, lambda: play()[1], flat(expected(other_m)))

    def view(t):
        c = Contract(**initial)
        for n in hist:
            op, arg = OPS[n]
            if op in ("set", "attr"):
                c.set_contract(**arg)
        return flat(observe(c.renewals(t)))
    for t in (0, 1, 2):
        ck.eq("renewals", dict(key, t=t), lambda: view(t), flat(expected(renewed(m, t))))


def explore(ck):
    signatures(ck, "Contract")
    depth = 3 if ck.thorough else 2
    hists = [h for d in range(depth + 1) for h in itertools.product(range(len(OPS)), repeat=d)]
    for initial in ({}, dict(premium=6, initial_policy=5, initial_premium=.5, renewal_policy=2, renewal_premium=.25, settlement_policy=3,
                            benefit=40, endowment=9, T=4, discrete=False)):
        chunks = [hists[n::8] for n in range(8)]
        ck.each(chunks, lambda c, hs: [run(c, h, initial) for h in hs])
    # all combinations given at once, keyword by keyword
    keys = list(VALUES)
    for vals in itertools.product(*[VALUES[k] for k in keys]):
        m = dict(DEFAULT, **dict(zip(keys, vals)))
        ck.eq("contract.all", (str(vals).replace(" ", ""),), lambda: flat(observe(Contract(**dict(zip(keys, vals))))), flat(expected(m)))
        ck.eq("renewals.all", (str(vals).replace(" ", ""),), lambda: flat(observe(Contract(**dict(zip(keys, vals))).renewals(1))), flat(expected(renewed(m, 1))))
    # the terms handed to the premium calculation are all of its expense and benefit arguments
    for vals in itertools.product((0, 3), (0, .5), (0, 1), (0, .125), (0, 2), (10, 7)):
        c = dict(zip(("initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy", "benefit"), vals))
        A, a = 0.25, 6.0
        G = (A * (c["benefit"] + c["settlement_policy"]) + c["renewal_policy"] * (a - 1) + c["initial_policy"]) / (
            a - c["renewal_premium"] * (a - 1) - c["initial_premium"])
        life = Premiums().set_interest(i=0.05)
        ck.eq("premium_terms.gross_premium", (str(c).replace(" ", ""),), lambda: life.gross_premium(A=A, a=a, **Contract(premium=55, **c).premium_terms), G)
        ck.eq("gross_future_loss.zero", (str(c).replace(" ", ""),), lambda: PolicyValues().set_interest(i=0.05).gross_future_loss(
            A=A, a=a, contract=Contract(**c).set_contract(premium=G)), 0.0)
