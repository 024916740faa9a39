"""C25: every value the recursion engine reports equals its value on the life the facts were taken from."""
import itertools
from . import model as M
from .facts import *

ASSUMPTIONS = ["facts are the exact values of one life at one rate; deaths are uniform within each year for facts about continuous payment",
               "an answer of None, or an exception, counts as no answer"]
R = 1e-7


def alphabet(xs, ts, wide):
    """the facts about each age"""
    out = []
    for x in xs:
        out += [F("q", x, t=1), F("p", x, t=1), F("e", x, curtate=True), F("e", x), F("A", x), F("a", x), F("IA", x), F("a", x, u=1), F("A", x, u=1),
                F("a", x, discrete=False), F("A", x, discrete=False), F("A", x, moment=2), F("a", x, variance=True), F("E", x, t=1), F("A", x, t=1, b=2), F("e", x, t=1)]
        for t in ts:
            out += [F("q", x, t=t), F("p", x, t=t), F("e", x, t=t, curtate=True), F("E", x, t=t), F("A", x, t=t), F("A", x, t=t, b=2, endowment=2),
                    F("a", x, t=t), F("IA", x, t=t), F("DA", x, t=t, b=2), F("A", x, t=t, b=2, endowment=1), F("a", x, t=t, u=1)]
            if wide:
                out += [F("q", x, t=1, u=t), F("e", x, t=t), F("E", x, t=t, moment=2, endowment=2), F("A", x, t=t, moment=2), F("A", x, t=t, endowment=1, moment=2),
                        F("A", x, t=t, u=1, b=2), F("A", x, t=t, discrete=False), F("a", x, t=t, discrete=False), F("A", x, t=t, b=0, endowment=2),
                        F("a", x, t=1, u=t), F("DA", x, t=t, discrete=False), F("IA", x, t=t, discrete=False), F("A", x, t=t, endowment=1, discrete=False)]
        if wide:
            out += [F("e", x, moment=2), F("e", x, moment=2, curtate=True), F("A", x, moment=VAR), F("E", x, t=1, moment=VAR), F("A", x, u=1, moment=2), F("a", x, t=2, variance=True, b=2),
                    F("a", x, u=2, discrete=False), F("A", x, u=2, b=3, discrete=False)]
    return out


def queries(xs, ts, wide):
    out = []
    for x in xs:
        out += [F("q", x), F("p", x), F("e", x, curtate=True), F("A", x, b=2), F("a", x, b=2), F("A", x, t=1), F("E", x), F("A", x, u=1), F("a", x, u=1), F("IA", x), F("A", x, moment=2),
                F("a", x, b=2, discrete=False), F("A", x, discrete=False, b=2)]
        for t in ts:
            out += [F("q", x, t=t), F("p", x, t=t), F("E", x, t=t, endowment=2), F("A", x, t=t), F("A", x, t=t, b=2, endowment=2), F("A", x, t=t, b=2, endowment=1), F("a", x, t=t, b=2),
                    F("IA", x, t=t, b=2), F("DA", x, t=t), F("q", x, t=1, u=t - 1)]
            if wide:
                out += [F("e", x, t=t, curtate=True), F("a", x, t=t, u=1), F("A", x, t=t, u=1, b=2), F("E", x, t=t, moment=2, endowment=3), F("E", x, t=t, moment=VAR, endowment=2), F("A", x, t=t, moment=2, b=2, endowment=1),
                        F("A", x, t=t, moment=VAR, b=2), F("A", x, t=t, endowment=1, moment=VAR), F("a", x, t=t, variance=True, b=2), F("imm", x, t=t, b=2), F("q", x, t=t, u=1), F("A", x, t=t, discrete=False, b=2),
                        F("a", x, t=t, discrete=False), F("A", x, t=t, endowment=2, b=2, discrete=False), F("DA", x, t=t, discrete=False), F("IA", x, t=t, discrete=False), F("A", x, t=t, moment=2),
                        F("A", x, t=t, u=1, moment=2, b=2)]
        if wide:
            out += [F("e", x), F("e", x, t=1), F("a", x, variance=True, b=2), F("A", x, moment=VAR, b=2), F("a", x, u=1, b=2, discrete=False), F("A", x, u=1, b=2, discrete=False), F("E", x, moment=2, endowment=2),
                    F("A", x, u=1, moment=VAR), F("e", x, moment=2, curtate=True), F("A", x, u=1, moment=2, b=2), F("imm", x), F("A", x, t=1, moment=2, b=2), F("q", x, t=WHOLE, u=1)]
    return out


def verdict(ck, truth, facts, qs, s=0, depth=None):
    st, life = ck.call(lambda: engine(truth, facts, s, depth))
    if st != "ok":
        return ck.ok("given", dict(truth=truth, facts=show(facts)), lambda: life)
    for q in qs:
        ck.step()
        st, got = ck.call(lambda: ask(life, q, s))
        if st == "ok" and got is not None:
            ck.visit(q[0], len(facts), "answered")
            ck.eq("true", dict(truth=truth, facts=show(facts), query=show([q]), s=s, depth=depth), lambda: got, truth(q), R, R)
        elif st == "ok":
            ck.visit(q[0], len(facts), "none")
        elif "no answer within" in str(got):
            ck.eq("hangs", dict(truth=truth, facts=show(facts), query=show([q]), s=s, depth=depth), lambda: got, truth(q))


def work(ck, item):
    truth, sets, qs, s, depth = item
    for facts in sets:
        ck.visit(truth.ch.name, s, depth, *facts)
        verdict(ck, truth, facts, qs, s, depth)


def known(truth, *lists):
    for f in itertools.chain(*lists):
        truth(f)
    return truth


def chunks(seq, n):
    seq = list(seq)
    return [seq[k::n] for k in range(n)]


CHAINS = [M.Chain("a", [0.125, 0.25, 0.5, 0.375, 1.0], 2), M.Chain("b", [0.5, 0.0, 0.25, 1.0], 2), M.Chain("c", [0.25, 0.5, 0.125, 0.3, 0.2, 0.6, 1.0], 2)]
YOUNG = M.Chain("y", [0.375, 0.125, 0.25, 0.5, 1.0], 0)


def explore(ck):
    a, b, c = CHAINS
    items = []
    # the first year of life: ages 0 and 1
    born = dict.fromkeys([(f,) for f in alphabet((0, 1), (2,), True)] + [tuple(f) for x in (0, 1) for n in (2, M.WHOLE) for _, f, _ in relations(x, n)])
    near = queries((0, 1), (2,), True)
    t = known(Truth(YOUNG, .25), near, *born)
    items += [(t, part, near, 0, None if ck.thorough else 2) for part in chunks(born, 64)]
    # every single fact, every query
    one, many, some = alphabet((2, 3, 4), (2, 3), True), queries((2, 3, 4), (2, 3), True), queries((2, 3), (2, 3), True)
    for ch in (a, b):
        for i in (0.25, 0.0) if ck.thorough else (0.25 if ch is a else 0.0,):
            t = known(Truth(ch, i), one, many)
            for s, depth in ((0, None), (1, 1), (1, 2)) if ck.thorough else ((1, 2),):
                items += [(t, part, many if ck.thorough else some, s, depth) for part in chunks([[f] for f in one] + [[]], 16)]
    t = known(Truth(c, .06), one, many)
    items += [(t, part, queries((3,), (2,), ck.thorough), 0, None) for part in chunks([[f] for f in one], 32)]
    # every set of facts that some textbook relation needs
    sets = [tuple(f) for x in ((2, 3) if ck.thorough else (2,)) for n in ((1, 2, 3, M.WHOLE) if ck.thorough else (2, M.WHOLE)) for _, f, _ in relations(x, n)]
    t = known(Truth(a, .25), many, *sets)
    items += [(t, part, many if ck.thorough else queries((2, 3), (2,), True), 0, None) for part in chunks(dict.fromkeys(sets), 64)]
    # every pair
    two, qs = alphabet((2, 3), (2,), ck.thorough), queries((2, 3), (2,), ck.thorough)
    t = known(Truth(a, .25), two, qs)
    items += [(t, part, qs, 0, None if ck.thorough else 2) for part in chunks(itertools.combinations(two, 2), 64)]
    if ck.thorough:
        t = known(Truth(b, 0.0), two, qs)
        items += [(t, part, qs, 1, 2) for part in chunks(itertools.combinations(two, 2), 64)]
        small = [F("p", 2), F("q", 3), F("p", 3, t=2), F("A", 2), F("A", 3), F("a", 2), F("a", 4), F("A", 2, t=2), F("A", 2, t=2, endowment=1), F("E", 2, t=2), F("a", 3, t=2), F("A", 3, t=1), F("IA", 2, t=2), F("DA", 3, t=2),
                 F("e", 2, curtate=True), F("e", 3, curtate=True), F("A", 3, moment=2), F("a", 2, u=2), F("A", 3, u=1), F("a", 2, t=3), F("q", 2, t=2, u=1)]
        for t in (Truth(a, .25), Truth(b, 0.0), Truth(c, .06)):
            known(t, small, many)
            items += [(t, part, many, 0, None) for part in chunks(itertools.combinations(small, 3), 64)]
    ck.each(items, work)
