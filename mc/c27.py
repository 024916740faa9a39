"""C27: every history of giving, replacing and withdrawing facts, asking, and changing the display, against a fresh engine holding the final facts."""
import itertools
from actuarialmath import Recursion
from . import model as M
from .facts import *
from .sigs import SIGNATURES, signatures

ASSUMPTIONS = ["giving the value None withdraws a fact (documented in the store)", "the engine with the same final facts, given once in one fixed order, is the reference; what it must answer is C25 and C26"]
R = 1e-12

# name -> (object, action)
SETS = {
    "p2=.8": (F("p", 2, t=1), .8), "p2=.6": (F("p", 2, t=1), .6), "p2=None": (F("p", 2, t=1), None),
    "q3=.3": (F("q", 3, t=1), .3), "A3=.5": (F("A", 3), .5), "A3b1000=450": (F("A", 3, b=1000), 450.0), "a2:2=1.7": (F("a", 2, t=2), 1.7),
    "E2:2e100=40": (F("E", 2, t=2, endowment=100), 40.0), "A2:2=None": (F("A", 2, t=2), None), "A2:2=.3": (F("A", 2, t=2), .3),
}
MORE = {"e3=4": (F("e", 3, curtate=True), 4.0), "IA2:2=.7": (F("IA", 2, t=2, b=2), .7), "DA3:2=.9": (F("DA", 3, t=2), .9), "a2=9": (F("a", 2), 9.0), "A2m2": (F("A", 2, moment=2, b=10), 20.0)}
ASKS = {"?A2": F("A", 2), "?a3": F("a", 3), "?p2:2": F("p", 2, t=2), "?e2": F("e", 2, curtate=True)}
SHOWS = {"latex": (True, False), "latex notebook": (True, True), "text": (False, False), "text notebook": (False, True)}
OBS = [F("p", 2, t=1), F("A", 3, b=2), F("a", 2, t=2), F("E", 2, t=2), F("A", 2), F("A", 2, t=2), F("p", 2, t=2), F("q", 2, t=1, u=1), F("a", 3), F("A", 2, t=2, endowment=1)]
OBS2 = [F("e", 2, curtate=True), F("IA", 2, t=2), F("DA", 2, t=3), F("A", 2, moment=2), F("a", 2, variance=True)]


def unit(fact):
    """the stored item a fact is about, and its scale"""
    kw = dict(fact[1:])
    b, e, m = kw.pop("b", 1), kw.pop("endowment", None), abs(kw.get("moment", 1))
    if fact[0] == "E":
        return (fact[0],) + tuple(sorted(kw.items())), (e or 1) ** m
    if e is not None:
        kw["endowment"] = e / b if b else "pure"
        b = b or e
    return (fact[0],) + tuple(sorted(kw.items())), b ** (2 if kw.get("variance") else m)


def answers(ck, life, qs):
    out = []
    for q in qs:
        st, got = ck.call(lambda: ask(life, q))
        out.append(got if st == "ok" else None)
    return out


def reference(ck, store, i, qs, depth, memo={}):
    """a fresh engine with these facts only"""
    key = (tuple(sorted(store.items())), i, tuple(qs), depth)
    if key not in memo:
        life = Recursion(verbose=False, depth=depth).set_interest(i=i)
        for item, val in sorted(store.items()):
            kw = dict(item[1:])
            x = kw.pop("x")
            getattr(life, "set_" + item[0])(val, x, **kw)
        memo[key] = answers(ck, life, qs)
    return memo[key]


def play(ck, names, verbose, obs, depth):
    """one history on two engines; returns their answers and the answers the final facts require"""
    Recursion.blog_options(latex=False, notebook=False)
    lives, stores, rates = [Recursion(verbose=verbose, depth=depth).set_interest(i=.25) for _ in range(2)], [{}, {}], [.25, .25]
    try:
        for name in names:
            n, name = (1, name[6:]) if name.startswith("other ") else (0, name)
            if name in SETS or name in MORE:
                fact, val = SETS.get(name) or MORE[name]
                setfact(lives[n], fact, val)
                item, scale = unit(fact)
                if val is None:
                    stores[n].pop(item, None)
                else:
                    stores[n][item] = val / scale
            elif name in ASKS:
                ck.call(lambda: ask(lives[n], ASKS[name]))
            elif name in SHOWS:
                Recursion.blog_options(latex=SHOWS[name][0], notebook=SHOWS[name][1])
            elif name == "new":
                Recursion(verbose=verbose).set_interest(i=.5).set_p(.05, x=2).set_A(.99, x=3)
            else:
                rates[n] = float(name[2:])
                lives[n].set_interest(i=rates[n])
            ck.visit(tuple(sorted(stores[0].items())), tuple(sorted(stores[1].items())), tuple(rates), getattr(getattr(Recursion, "_Blog", None), "__name__", ""))
            ck.step()
        got = [answers(ck, l, obs) for l in lives]
    finally:
        Recursion.blog_options(latex=False, notebook=False)
    return got, [reference(ck, s, r, obs, depth) for s, r in zip(stores, rates)]


def histories(ck, item):
    seqs, verbose, obs, depth = item
    for names in seqs:
        st, res = ck.call(lambda: play(ck, names, verbose, obs, depth))
        if st != "ok":
            ck.eq("history", (";".join(names), verbose), lambda: res, "no exception")
        else:
            ck.eq("history", (";".join(names), verbose), lambda: same_answers(*res), True)


def same_answers(got, want):
    for g, w in zip(got, want):
        for a, b in zip(g, w):
            if (a is None) != (b is None) or a is not None and abs(a - b) > R * max(1, abs(b)):
                return f"{g} instead of {w}"
    return True


# ---- the store: any two facts, in either order, come back exactly; scaled, and however the age is split
def facts_alphabet(wide):
    out = []
    for x in (2, 3) if not wide else (2, 3, 4):
        out += [F("q", x, t=t, u=u) for t in (1, 2) for u in (0, 1)] + [F("p", x, t=t) for t in (1, 2)]
        out += [F("e", x, t=t, curtate=c, moment=m) for t in (WHOLE, 1, 2) for c in (True, False) for m in (1, 2)]
        out += [F("E", x, t=t, moment=m, endowment=e) for t in (1, 2) for m in (1, 2, VAR) for e in (1,)]
        out += [F(k, x, t=t, discrete=d) for k in ("IA", "DA") for t in (2, 3) for d in (True, False)] + [F("IA", x)]
        for t in (WHOLE, 2, 3):
            for u in (0, 1):
                for d in (True, False):
                    out += [F("a", x, t=t, u=u, discrete=d)] + [F("A", x, t=t, u=u, discrete=d, moment=m) for m in (1, 2)]
        out += [F("a", x, t=t, variance=True, discrete=d) for t in (WHOLE, 2) for d in (True, False)] + [F("A", x, moment=VAR), F("A", x, t=2, moment=VAR)]
        out += [F("A", x, t=t, b=b, endowment=e, moment=m) for t in (2, 3) for b, e in ((1, 1), (1, 2), (0, 2), (2, 1)) for m in (1, 2)] + [F("A", x, t=2, endowment=1, discrete=False)]
    return out


def scaled(fact, k):
    """the same quantity for k times the benefits, and what it is multiplied by"""
    kw = dict(fact[1:])
    m = abs(kw.get("moment", 1))
    if fact[0] in "qpe":
        return fact, 1
    for n in (("endowment",) if fact[0] == "E" else ("b", "endowment")):
        if n == "b" or n in kw:
            kw[n] = kw.get(n, 1) * k
    x = kw.pop("x")
    return F(fact[0], x, **kw), k ** (2 if kw.get("variance") else m)


def direct(life, fact, s=0):
    """the public query for a stored fact; a variance of a temporary annuity and the like included"""
    return ask(life, fact, s)


def pairs(ck, item):
    pairs_, = item
    for f, g in pairs_:
        ck.visit(f, g)
        ck.step(2)
        k = dict(first=show([f]), second=show([g]))

        def run():
            life = Recursion(verbose=False).set_interest(i=.25)
            other = Recursion(verbose=False).set_interest(i=.25)
            setfact(life, f, .375)
            setfact(other, f, .875)
            setfact(life, g, .625, 1)
            return [direct(life, f, 1), direct(life, g), direct(life, f), direct(other, f)]
        ck.eq("kept", k, run, [.375, .625, .375, .875], R, R)


def scales(ck, item):
    fact, = item
    for k in (1, 2, 1000, 0.5):
        for n in (1, 3, 100):
            ck.visit(fact, k, n)
            ck.step()
            (f, fk), (g, gk) = scaled(fact, k), scaled(fact, n)

            def run():
                life = Recursion(verbose=False).set_interest(i=.25)
                setfact(life, f, .5 * fk)
                a = [direct(life, g), direct(life, g, 1)]
                setfact(life, g, .25 * gk, 1)       # replaced under another scale
                return a + [direct(life, f)]
            ck.eq("scaled", dict(given=show([f]), query=show([g])), run, [.5 * gk, .5 * gk, .25 * fk], 1e-9, R)


def explore(ck):
    ck.each([f"Recursion.{m}" for m in SIGNATURES["Recursion"]], lambda c, it: signatures(c, it))
    ops = list(SETS) + list(ASKS) + list(SHOWS) + ["i=.1", "new", "other p2=.6", "other A3=.5", "other ?A2", "other i=.1"]
    seqs = [s for n in range(1, 4) for s in itertools.product(ops, repeat=n)]
    if not ck.thorough:
        seqs = [s for s in seqs if len(s) < 3 or 1 <= sum(o in SETS for o in s) and s[0] in SETS and sum(o in SHOWS or o == "new" for o in s) < 2 and (s[1] not in SETS or s[1][:2] == s[0][:2] or s[2] not in SETS)
                and not (s[2] in SHOWS or s[2] == "new" or s[2] in ASKS)]
    deep = 3 if ck.thorough else 2
    items = [("h", (part, False, OBS, deep)) for part in M_chunks(seqs, 64)]
    # with the display on: every pair, and every triple that changes the display before or after a query
    loud = [s for s in itertools.product(ops + list(MORE), repeat=2)] + [(sh, a, b) for sh in SHOWS for a in SETS for b in ASKS] + [(a, b, sh) for sh in SHOWS for a in SETS for b in ASKS]
    items += [("h", (part, True, OBS + OBS2, deep)) for part in M_chunks(loud, 32)]
    # every order of every small set of facts, each given again afterwards
    names = ["p2=.8", "q3=.3", "A3=.5", "a2:2=1.7", "E2:2e100=40", "A2:2=.3"] + list(MORE)
    sets = [c for n in ((2, 3, 4) if ck.thorough else (2, 3)) for c in itertools.combinations(names, n)]
    orders = [p for c in sets for p in itertools.permutations(c)] + [p + p for c in sets if len(c) < 4 for p in itertools.permutations(c)][::1 if ck.thorough else 3]
    items += [("h", (part, False, OBS + OBS2, 3)) for part in M_chunks(orders if ck.thorough else orders[::2], 32)]
    if ck.thorough:
        few = ["p2=.8", "p2=.6", "p2=None", "q3=.3", "A3b1000=450", "a2:2=1.7", "E2:2e100=40", "A2:2=.3", "A2:2=None", "?A2", "?p2:2", "i=.1", "latex", "other p2=.6"]
        items += [("h", (part, False, OBS, 2)) for part in M_chunks(itertools.product(few, repeat=4), 128)]
    alph = facts_alphabet(ck.thorough)
    items += [("p", (part,)) for part in M_chunks(((f, g) for f in alph for g in alph if unit(f)[0] != unit(g)[0]), 64)]
    items += [("s", (f,)) for f in alph]
    ck.each(items, lambda c, it: dict(h=histories, p=pairs, s=scales)[it[0]](c, it[1]))


def M_chunks(seq, n):
    seq = list(seq)
    return [seq[k::n] for k in range(n)]
