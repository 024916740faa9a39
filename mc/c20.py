"""C20: histories of life-table entry: every choice of given cells, every split into calls, against the closure of the cells."""
import itertools, math
from actuarialmath import LifeTable
from . import model as M
from . import long
from .sigs import signatures

ASSUMPTIONS = ["tables of three or four ages; dyadic rates (derived cells are documented to be rounded to seven digits)",
               "inputs are mutually consistent; at most one column besides lives is given per age"]
COLS = "ldqp"


def truth(ch, radix):
    T = {c: {} for c in COLS}
    T["l"][ch.minage] = radix
    for a in range(ch.minage, ch.omega):
        q = ch.q(a)
        T["q"][a], T["p"][a], T["d"][a] = q, 1 - q, T["l"][a] * q
        T["l"][a + 1] = T["l"][a] * (1 - q)
    return T


def closure(T, given, lo, hi, ck):
    """cells determined by the given ones: within a year any two of (lives now, lives next, deaths, rate) give the others"""
    K = {("q" if c == "p" else c, a) for c, a in given}

    def sat():
        more = True
        while more:
            more = False
            for a in range(lo, hi + 1):
                q, l, l1 = T["q"].get(a), T["l"].get(a), T["l"].get(a + 1)
                if q is None:
                    continue
                two = {c for c in ((("l", a)), ("l", a + 1), ("d", a), ("q", a)) if c in K}
                new = set()
                has = lambda *cs: all(c in two for c in cs)
                if has(("l", a), ("l", a + 1)) or has(("l", a), ("q", a)) or has(("l", a), ("d", a)) or has(("l", a + 1), ("d", a)) \
                        or (has(("l", a + 1), ("q", a)) and q < 1) or (has(("d", a), ("q", a)) and q > 0):
                    new = {("l", a), ("l", a + 1), ("d", a)} | ({("q", a)} if l > 0 else set())
                for c in new - K:
                    if lo <= c[1] <= hi:
                        K.add(c)
                        more = True
                        ck.step()
    sat()
    if not any(c == "l" for c, _ in K):
        K.add(("l", lo))
        sat()
    return K | {("p", a) for c, a in K if c == "q"}


def calls_of(cells, T):
    kw = {}
    for c, a in cells:
        kw.setdefault(c, {})[a] = T[c][a]
    return kw


def splits(cells, thorough):
    yield [cells], (True,)
    n = len(cells)
    if n < 2:
        return
    if n <= (6 if thorough else 3):
        masks = range(1, 2 ** n - 1)
    else:       # by age, by column, alternating; each in both orders
        masks = set()
        for a in sorted({a for _, a in cells}):
            masks.add(sum(1 << k for k, c in enumerate(cells) if c[1] <= a))
            masks.add(sum(1 << k for k, c in enumerate(cells) if c[1] > a))
        for col in COLS:
            masks.add(sum(1 << k for k, c in enumerate(cells) if c[0] == col))
            masks.add(sum(1 << k for k, c in enumerate(cells) if c[0] != col))
        masks -= {0, 2 ** n - 1}
    for m in sorted(masks):
        one = [c for k, c in enumerate(cells) if m >> k & 1]
        two = [c for k, c in enumerate(cells) if not m >> k & 1]
        for f in (True, False):
            yield [one, two], (f, True)
    if n <= 4:
        for perm in itertools.permutations(cells):
            yield [[c] for c in perm], (True,) * n


def given_sets(ch, thorough):
    ages = list(range(ch.minage, ch.omega))
    lages = ages + [ch.omega]
    for pick in itertools.product(("", "q", "p", "d"), repeat=len(ages)):
        base = [(c, a) for c, a in zip(pick, ages) if c]
        for r in range(len(lages) + 1):
            for ls in itertools.combinations(lages, r):
                if not thorough and len(ages) > 3 and r not in (0, 1, len(lages)):
                    continue
                yield base + [("l", a) for a in ls]


def check(ck, item):
    ch, part = item
    for n, cells in enumerate(given_sets(ch, ck.thorough)):
        if n % 8 != part or not cells:
            continue
        lo = min(a for _, a in cells)
        hi = max(a for _, a in cells) + 1
        T = truth(ch, 1024.0)
        if lo > ch.minage and T["l"][lo] == 0:
            continue
        K = closure(T, cells, lo, hi, ck)
        ck.visit(ch.name, tuple(sorted(K)))
        want = {c: {a: T[c][a] for cc, a in K if cc == c} for c in COLS}
        for parts, fills in splits(cells, ck.thorough):
            def build():
                life = LifeTable()
                for part_, f in zip(parts, fills):
                    life.set_table(radix=T["l"][lo], fill=f, **calls_of(part_, T))
                return life
            desc = " ".join("+".join(f"{c}{a}" for c, a in p) + ("" if f else "~") for p, f in zip(parts, fills))

            def table():
                life = build()
                return {c: dict(life[c]) for c in COLS}
            ck.eq("table", (ch, desc), table, want, 1e-9, 2e-7)
        bare = lambda: LifeTable().set_table(fill=False, **calls_of(cells, T))
        only = {c: {a: T[c][a] for cc, a in cells if cc == c} for c in COLS}
        ck.eq("unfilled", (ch, "+".join(f"{c}{a}" for c, a in cells)), lambda: {c: dict(bare()[c]) for c in COLS}, only, 0, 0)
        ck.eq("filled later", (ch, "+".join(f"{c}{a}" for c, a in cells)), lambda: {c: dict(bare().fill_table(radix=T["l"][lo])[c]) for c in COLS}, want, 1e-9, 2e-7)
        # the answers follow the table
        k = (ch, "+".join(f"{c}{a}" for c, a in cells))
        kind, life = ck.call(lambda: LifeTable().set_table(radix=T["l"][lo], **calls_of(cells, T)))
        if kind != "ok":
            continue
        for a in range(lo, hi + 1):
            ck.eq("l_x", (*k, a), lambda: life.l_x(a), want["l"].get(a, 0.0), 1e-9, 2e-7)
            if a in want["l"] and a + 1 in want["l"] and want["l"][a] > 0:
                ck.eq("d_x", (*k, a), lambda: life.d_x(a), T["d"][a], 1e-9, 2e-7)
                ck.eq("q_x", (*k, a), lambda: life.q_x(a), T["q"][a], 1e-9, 2e-7)
                ck.eq("p_x", (*k, a), lambda: life.p_x(a), T["p"][a], 1e-9, 2e-7)

        def frame():
            df = life.frame()
            return {c: {int(a): float(v) for a, v in df[c].items() if not math.isnan(v)} for c in COLS if c in df}
        if n % 5 == 0:
            ck.eq("frame", k, frame, want, 1e-9, 2e-7)


def check_update(ck, ch):
    """later calls replace, extend downwards and upwards; default radix; explicit age range"""
    T = truth(ch, 1024.0)
    ages = list(range(ch.minage, ch.omega))
    full = lambda life: {c: dict(life[c]) for c in COLS}
    ck.eq("default_radix", (ch,), lambda: full(LifeTable().set_table(q=T["q"])), truth(ch, 100000), 1e-9, 2e-7)
    ck.eq("radix", (ch,), lambda: full(LifeTable().set_table(p=T["p"], radix=512)), truth(ch, 512), 1e-9, 2e-7)
    for cut in range(1, len(ages)):
        for c in COLS:
            a, b = [{x: v for x, v in T[c].items() if (x < ages[cut]) == lowpart} for lowpart in (True, False)]
            for first, second in ((a, b), (b, a)):
                ck.step(2)
                ck.eq("extend", (ch, c, cut, first is a), lambda: full(LifeTable().set_table(radix=1024., **{c: first})
                      .set_table(radix=1024., **{c: second})), T, 1e-9, 2e-7)
                ck.eq("extend.e_x", (ch, c, cut, first is a), lambda: LifeTable().set_table(radix=1024., **{c: first})
                      .set_table(radix=1024., **{c: second}).e_x(ch.minage), ch.EK(ch.minage, 0, lambda k: k), 1e-9, 1e-8)
    for a in ages[:-1]:
        for other in (0.0, 0.125, 0.75):
            ch2 = M.Chain(f"{ch}:{a}->{other}", [(other,) if x == a else (ch.q(x),) for x in ages], ch.minage)
            T2 = truth(ch2, 1024.0)
            ck.eq("replace.q", (ch2,), lambda: full(LifeTable().set_table(q=T["q"], radix=1024.).set_table(q={a: other}, radix=1024.)), T2, 1e-9, 2e-7)
            ck.eq("replace.p", (ch2,), lambda: full(LifeTable().set_table(p=T["p"], radix=1024.).set_table(p={a: 1 - other}, radix=1024.)), T2, 1e-9, 2e-7)
    lo, hi = ch.minage, ch.omega
    for c in COLS:
        life = lambda: LifeTable().set_table(radix=1024., minage=lo, maxage=hi, **{c: T[c]})
        ck.eq("explicit", (ch, c), lambda: full(life()), T, 1e-9, 2e-7)
        ck.eq("explicit.q", (ch, c), lambda: life().q_x(hi - 1), 1.0)
        for name in COLS:
            ck.eq("getitem", (ch, c, name), lambda: dict(life()[name]), T[name], 1e-9, 2e-7)
    two = lambda: (LifeTable().set_table(q=T["q"], radix=1024.), LifeTable().set_table(q={40: .5, 41: 1.}))
    ck.eq("separate", (ch,), lambda: full(two()[0]), T, 1e-9, 2e-7)


def explore(ck):
    long.entries(ck)
    signatures(ck, "LifeTable.l_x|d_x|p_x|q_x")
    small = [M.Chain("t253", [.25, .5, 1.], 2), M.Chain("t0", [0., .25, 1.], 2), M.Chain("t5", [.5, .0, 1.], 50)]
    if ck.thorough:
        small += [M.Chain("t4", [.25, 0., .5, 1.], 2), M.Chain("t7", [.75, .5, .25, 1.], 0), M.Chain("tz", [0., .25, .5, 1.], 0)]
    for ch in small:
        for x in range(ch.minage, ch.omega):
            ch.paths(x, 0, ck)
    ck.each([("g", (ch, p)) for ch in small for p in range(8)] + [("u", ch) for ch in M.ultimates(False)[:8]],
            lambda c, it: (check if it[0] == "g" else check_update)(c, it[1]))
