"""C26: one textbook relation away: the recursion engine finds the value, and it is the value on the life."""
from . import model as M
from .facts import *
from .c25 import CHAINS, YOUNG, chunks, known

ASSUMPTIONS = ["the relations are those listed in the property; each is tried with the facts it needs and nothing else, and again among facts it does not need",
               "relations that would divide by zero on the chain (no survivors, a zero interest rate) are not counted"]
R = 1e-7


def sound(truth, name, facts, query):
    """does the relation determine the query on this chain?"""
    ages = [dict(f[1:])["x"] for f in facts + [query]]
    if any(truth.ch.p(truth.ch.minage, 0, a - truth.ch.minage) <= 0 for a in ages):
        return False
    if name.startswith("chain back") and truth(facts[0]) == (1.0 if facts[0][0] == "q" else 0.0):
        return False
    if truth.i == 0 and ("twin" in name or "insurance for" in name):
        return False
    return True


def work(ck, item):
    truth, rels, s, noise = item
    for name, facts, query in rels:
        if not sound(truth, name, facts, query):
            continue
        given = list(facts)
        for f in noise:
            if f[:2] != query[:2]:
                given.append(f)
        ck.visit(truth.ch.name, truth.i, name, query, s, bool(noise))
        ck.step(len(given) + 1)
        ck.eq(name, dict(truth=truth, facts=show(given), query=show([query]), s=s), lambda: ask(engine(truth, given, s), query, s), truth(query), R, R)


def explore(ck):
    items = []
    for ch in CHAINS + [YOUNG]:
        for i in M.RATES if ch is not YOUNG or ck.thorough else (.25,):
            t, x0 = Truth(ch, i), ch.minage
            rels = [r for x in range(x0, x0 + (3 if ck.thorough else 2)) for n in (1, 2, 3, WHOLE) for b in (1, 3) for r in relations(x, n, b, 2 if n != 2 else 1)]
            rels = list(dict.fromkeys((n, tuple(f), q) for n, f, q in rels))
            rels = [(n, list(f), q) for n, f, q in rels if sound(t, n, list(f), q)]
            for _, f, q in rels:
                known(t, f, [q])
            items += [(t, part, 0, ()) for part in chunks(rels, 16)]
            noise = [F("p", x0, t=2), F("q", x0 + 2), F("A", x0 + 1), F("a", x0, t=2), F("e", x0), F("E", x0 + 1, t=2), F("A", x0, t=3, endowment=1), F("a", x0 + 3), F("A", x0 + 1, u=1), F("IA", x0 + 2, t=2)]
            known(t, noise)
            if (ck.thorough or i == .25) and ch is not YOUNG:
                items += [(t, part, 1, noise[:5]) for part in chunks(rels, 32)] + [(t, part, 2, noise[5:]) for part in chunks(rels, 32)]
            if ck.thorough:
                items += [(t, part, 0, noise) for part in chunks(rels, 64)] + [(t, part, 1, [f]) for f in noise for part in chunks(rels, 16)]
    ck.each(items, work)
