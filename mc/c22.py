"""C22: select-table entry: every choice of given cells, and every entry history, against the closure of the cells under the one-year recursions."""
import itertools, math
from . import long
from actuarialmath import SelectLife
from .sigs import signatures

ASSUMPTIONS = ["two or three ages of selection, select periods of zero to two years, rates above zero and below one except at the end",
               "inputs are mutually consistent; when lives are given nowhere the radix is the lives at the youngest age of selection, at the first duration where anything is known"]
TABS = "qldeAa"
RADIX = 4096.0


class Sel:
    """a select and ultimate table of rows lo..hi: q by (x, s), ultimate rates by attained age"""
    def __init__(self, name, lo, sel, ult, i, end):
        # sel: {x: [q for s in 0..P-1]}, ult: rates from age lo+P on; end: hidden rates that follow the table (empty: certain death)
        self.name, self.lo, self.i = name, lo, i
        self.P = len(next(iter(sel.values()))) if sel else 0
        n = len(ult) - 1
        self.hi = lo + n
        v = 1 / (1 + i)
        A, a, e = 1.0, 1.0, 0.0        # values on the date of certain death: nothing follows
        U = {}
        tail = list(end)
        rates = list(ult) + tail
        A = None
        for k in reversed(range(len(rates))):
            q = rates[k]
            if A is None:
                q = 1.0
                A, a, e = v, 1.0, 0.0
            else:
                A, a, e = v * (q + (1 - q) * A), 1 + v * (1 - q) * a, (1 - q) * (1 + e)
            U[lo + self.P + k] = dict(q=q, A=A, a=a, e=e)
        L = 1.0
        for k in range(len(rates)):
            age = lo + self.P + k
            U[age]["l"] = L
            U[age]["d"] = L * U[age]["q"]
            L *= 1 - U[age]["q"]
        self.T = {}
        for x in range(lo, self.hi + 1):
            nxt = dict(U[x + self.P])
            self.T[x, self.P] = nxt
            for s in reversed(range(self.P)):
                q = sel[x][s]
                c = dict(q=q, A=v * (q + (1 - q) * nxt["A"]), a=1 + v * (1 - q) * nxt["a"], e=(1 - q) * (1 + nxt["e"]), l=nxt["l"] / (1 - q))
                c["d"] = c["l"] * q
                self.T[x, s] = nxt = c
        f = RADIX / self.T[lo, 0]["l"]
        for c in self.T.values():
            c["l"] *= f
            c["d"] *= f
        self.cells = sorted(self.T)

    def roll(self, x, s):
        return (x + s - self.P, self.P) if s > self.P else (x, s)

    def __repr__(self):
        return self.name


def tables(thorough):
    out = []
    for i in (0.25, 0.06, 0.0) if thorough else (0.25, 0.0):
        out += [Sel(f"P1n2,{i}", 3, {3: [.125], 4: [.25]}, [.375, .5], i, [.5, 1]),
                Sel(f"P1n2end,{i}", 5, {5: [.25], 6: [.125]}, [.5, 1], i, []),
                Sel(f"P2n2,{i}", 0, {0: [.125, .0625], 1: [.25, .375]}, [.5, .25], i, [.75, 1]),
                Sel(f"P0n3,{i}", 1, {}, [.125, .5, .25], i, [.5, 1])]
        if thorough:
            out += [Sel(f"P2n3,{i}", 2, {2: [.125, .0625], 3: [.25, .375], 4: [.125, .5]}, [.5, .25, .375], i, [.75, 1]),
                    Sel(f"P3n2,{i}", 1, {1: [.125, .25, .0625], 2: [.25, .375, .5]}, [.5, .25], i, [1]),
                    Sel(f"P1n3end,{i}", 5, {5: [.25], 6: [.125], 7: [.375]}, [.5, .25, 1], i, [])]
    return out


def closure(t, given, ck):
    """given: set of (tab, x, s).  Returns the cells determined by the one-year recursions, and whether the radix was needed."""
    K = set(given)
    inside = set(t.cells)
    v = 1 / (1 + t.i)
    links = [((x, s), t.roll(x, s + 1)) for x, s in t.cells]

    def sat():
        more = True
        while more:
            more = False
            for c, n in links:
                q = t.T[c]["q"]
                n_in = n in inside
                new = []
                has = lambda tab, cell: (tab, *cell) in K
                ql, nl, dl = has("q", c), n_in and has("l", n), has("d", c)
                cl = has("l", c)
                if cl and ql and n_in: new.append(("l", n))
                if cl and dl and n_in: new.append(("l", n))
                if nl and ql and q < 1: new.append(("l", c))
                if nl and dl: new.append(("l", c))
                if dl and ql and q > 0: new.append(("l", c))
                if cl and nl: new.append(("d", c))
                if cl and (dl or nl) and t.T[c]["l"] > 0: new.append(("q", c))
                for tab in "eAa":
                    here, there = has(tab, c), n_in and has(tab, n)
                    if ql and there: new.append((tab, c))
                    if ql and here and q < 1 and n_in: new.append((tab, n))
                    if here and there and (tab != "A" or t.i > 0): new.append(("q", c))
                for tab, cell in new:
                    if cell in inside and (tab, *cell) not in K:
                        K.add((tab, *cell))
                        more = True
                        ck.step()
    sat()
    radix = not any(k[0] == "l" for k in K)      # then assumed where anything is first known for the youngest age
    if radix:
        first = next((s for s in range(t.P + 1) if any((tab, t.lo, s) in K for tab in TABS)), 0)
        K.add(("l", t.lo, first))
        sat()
        return K, t.T[t.lo, 0]["l"] / t.T[t.lo, first]["l"]
    return K, 1.0


def rows(t, given):
    kw = {}
    for tab, x, s in given:
        kw.setdefault(tab, {}).setdefault(x, [None] * (t.P + 1))[s] = t.T[x, s][tab]
    return kw


def bulk(t, given):
    # every row of selection appears, so that the extent of the table is known
    kw = rows(t, given)
    kw.setdefault("q", {})
    for x in range(t.lo, t.hi + 1):
        kw["q"].setdefault(x, [None] * (t.P + 1))
    life = SelectLife(periods=t.P).set_interest(i=t.i)
    return life.set_table(radix=RADIX, **kw)


def dump(t, life):
    out = {}
    for tab in TABS:
        for x, row in life[tab].items():
            for s, val in row.items():
                if val is not None:
                    out[tab, x, s] = val
    return out


def check(ck, site, key, t, given, build):
    want, scale = closure(t, given, ck)
    if scale != 1 and any(tab == "d" for tab, *_ in given):
        return                # deaths given are not those of the assumed lives
    want_of = lambda tab, x, s: t.T[x, s][tab] * (scale if tab in "ld" else 1)
    ck.visit(t, frozenset(given))

    def run():
        got = dump(t, build())
        miss = sorted(k for k in want if k not in got)
        wrong = sorted((k, got[k], want_of(*k) if (k[1], k[2]) in t.T else None) for k in got
                       if (k[1], k[2]) not in t.T or not math.isclose(got[k], want_of(*k), rel_tol=1e-8, abs_tol=1e-8))
        return dict(missing=miss[:4], wrong=wrong[:4])
    ck.eq(site, key, run, dict(missing=[], wrong=[]))


def spell(given):
    return ",".join(f"{tab}{x}+{s}" for tab, x, s in sorted(given))


def mixes(t, thorough):
    """every assignment of one given column (or none) to each cell of the table, cells of small tables"""
    for pick in itertools.product([None] + list(TABS), repeat=len(t.cells)):
        g = [(tab, *c) for tab, c in zip(pick, t.cells) if tab]
        if g:
            yield g


def bases(t, thorough):
    """one column given everywhere but for some holes, with one or two cells of other columns"""
    for tab in TABS:
        full = [(tab, *c) for c in t.cells]
        extras = [(o, *c) for o in TABS for c in t.cells if o != tab]
        for h in range(0, (3 if thorough else 2)):
            for holes in itertools.combinations(full, h):
                kept = [c for c in full if c not in holes]
                for m in range(0, 3 if h < (2 if thorough else 1) else 2):
                    for ex in itertools.combinations(extras, m):
                        yield kept + list(ex)


def explore_bulk(ck, item):
    t, kind, part, parts = item
    gen = mixes(t, ck.thorough) if kind == "mix" else bases(t, ck.thorough)
    for n, given in enumerate(gen):
        if n % parts != part:
            continue
        check(ck, "bulk", dict(t=t, given=spell(given)), t, given, lambda: bulk(t, given))


def columns(given):
    cols = {}
    for tab, x, s in given:
        cols.setdefault((tab, s), []).append(x)
    return cols


def by_select(t, given, order, selected, rev, fill):
    life = SelectLife(periods=t.P).set_interest(i=t.i)
    cols = columns(given)
    for tab, s in order:
        xs = sorted(cols[tab, s], reverse=rev)
        col = {(x if selected else x + s): t.T[x, s][tab] for x in xs}
        life.set_select(s=(-1 if s == t.P and rev else s), age_selected=selected, radix=RADIX, fill=fill, **{tab: col})
    return life if fill else life.fill_table(radix=RADIX)


def histories(ck, item):
    t, tab = item
    full = [(tab, *c) for c in t.cells]
    sets = [full]
    for h in range(1, 3):
        for ex in itertools.combinations([(o, *c) for o in TABS for c in (t.cells[0], t.cells[-1], (t.hi, 0)) if o != tab], h):
            sets.append(full + list(set(ex)))
            if h == 1:
                sets.append([c for c in full if c[1:] != ex[0][1:]] + list(ex))
    if tab == "q":
        for o in "Aae":     # mixed selection columns: select rates with ultimate values, as published tables give them
            sets.append([("q", x, s) for x, s in t.cells if s < t.P] + [(o, x, s) for x, s in t.cells if s == t.P])
            sets.append([("q", x, s) for x, s in t.cells if s < t.P] + [(o, x, s) for x, s in t.cells if s == t.P] + [("l", t.hi, t.P)])
        sets.append([("q", *c) for c in t.cells] + [("l", *c) for c in t.cells] + [("d", *c) for c in t.cells])
    for given in sets:
        if not given or {x for _, x, _ in given} < set(range(t.lo, t.hi + 1)) and not ({t.lo, t.hi} <= {x for _, x, _ in given}):
            continue
        given = list(dict.fromkeys(given))
        cols = list(columns(given))
        orders = list(itertools.permutations(cols)) if len(cols) <= (4 if ck.thorough else 3) else [cols, cols[::-1], cols[1:] + cols[:1], cols[2:] + cols[:2]]
        for order in orders:
            for selected in (True, False):
                for rev in (False, True):
                    for fill in (False, True) if ck.thorough or t.name == 'P1n2,0.25' else (selected,):
                        ck.step()
                        check(ck, "select", dict(t=t, given=spell(given), order=str(order), sel=selected, rev=rev, fill=fill), t, given,
                              lambda: by_select(t, given, order, selected, rev, fill))


def changes(ck, t):
    """cells replaced after the table was completed: the table is that of the new cells"""
    new = Sel(t.name + "'", t.lo, {x: [min(.9, t.T[x, s]["q"] / 2 + .2) for s in range(t.P)] for x in range(t.lo, t.hi + 1)},
              [t.T[x, t.P]["q"] / 2 for x in range(t.lo, t.hi + 1)], t.i, [.5, 1])
    for tab in "qed" if t.P else "q":
        for first in (["q"], ["q", "e"]):
            key = dict(t=t, tab=tab, first=str(first))
            given = [("q", *c) for c in t.cells]

            def run():
                life = bulk(t, given + ([("e", *t.cells[-1])] if "e" in first else []))
                cols = columns(given)
                for _, s in cols:
                    life.set_select(s=s, age_selected=True, q={x: new.T[x, s]["q"] for x in cols["q", s]})
                if "e" in first:
                    x, s = t.cells[-1]
                    life.set_select(s=s, age_selected=True, e={x: new.T[x, s]["e"]})
                return life.fill_table(radix=RADIX)
            check(ck, "replaced", key, new, given + ([("e", *t.cells[-1])] if "e" in first else []), run)
    # interest changed, then values given under it
    given = [("q", *c) for c in t.cells] + [("A", *t.cells[-1])]
    low = Sel(t.name + "i", t.lo, {x: [t.T[x, s]["q"] for s in range(t.P)] for x in range(t.lo, t.hi + 1)},
              [t.T[x, t.P]["q"] for x in range(t.lo, t.hi + 1)], 0.5, [.5, 1])
    def rerate():
        life = bulk(t, given).set_interest(i=0.5)
        x, s = t.cells[-1]
        return life.set_select(s=s, age_selected=True, A={x: low.T[x, s]["A"]}).fill_table(radix=RADIX)
    check(ck, "rerate", dict(t=t), low, given, rerate)
    # reading
    given = [("q", *c) for c in t.cells]
    life = bulk(t, given)
    for tab in "qld":
        f = life.frame(tab)
        for x, s in t.cells:
            if tab == "d" and (x, s) == t.cells[-1]:
                continue
            ck.eq("frame", dict(t=t, tab=tab, x=x, s=s), lambda: float(f.loc[x, s]), t.T[x, s][tab])
            ck.eq("getitem", dict(t=t, tab=tab, x=x, s=s), lambda: life[tab][x][s], t.T[x, s][tab])
    if t.P:      # the period is inferred from the rows
        kw = rows(t, given)
        ck.eq("periods", dict(t=t), lambda: SelectLife().set_table(radix=RADIX, **kw).periods_, t.P)
        check(ck, "inferred", dict(t=t), t, given, lambda: SelectLife().set_interest(i=t.i).set_table(radix=RADIX, **kw))
        check(ck, "unfilled", dict(t=t), t, given, lambda: SelectLife().set_interest(i=t.i).set_table(fill=False, **kw).fill_table(radix=RADIX))


def explore(ck):
    long.select(ck)
    signatures(ck, "SelectLife.A_x|a_x|l_x|p_x|q_x|e_x")
    T = tables(ck.thorough)
    items = []
    for t in T:
        n = len(t.cells)
        if n <= 4 and (t.i == .25 or ck.thorough):
            items += [("b", (t, "mix", k, 8)) for k in range(8)]
        if n <= 6 or t.i == .25:
            items += [("b", (t, "base", k, 8)) for k in range(8)]
        items += [("h", (t, tab)) for tab in TABS] + [("c", t)]
    ck.each(items, lambda c, it: dict(b=explore_bulk, h=histories, c=changes)[it[0]](c, it[1]))
