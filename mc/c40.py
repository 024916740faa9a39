"""C40: every interleaving of two objects entering the same data, their owner changing it, and each object changed and asked, against isolated objects with their own copy."""
import copy, itertools, os, pickle
from actuarialmath import Contract, ExtraRisk, LifeTable, Premiums, Recursion, Reserves, SelectLife, SULT
from .core import plain, close

ASSUMPTIONS = ["an isolated object, in a process of its own, given its own copy of the data as it was when entered, is the reference; what it must answer is the other properties",
               "an exception is an answer like any other, compared by its type"]
Q = {2: .1, 3: .2, 4: .3, 5: 1.0}
L = {2: 1000.0, 3: 900.0, 4: 720.0, 5: 504.0, 6: 0.0}
D = {2: 100.0, 3: 180.0, 4: 216.0, 5: 504.0}
ROWS = {2: [.05, .1, .2], 3: [.1, .2, .4], 4: [.2, .4, 1.0], 5: [.3, 1.0, 1.0]}
LIVES = {2: [1000.0, 900.0, 720.0], 3: [800.0, 720.0, 504.0], 4: [600.0, 504.0, 252.0]}


# ---- data: name -> what the caller holds
def table_data():
    yield "q", dict(q=Q)
    yield "p", dict(p={x: 1 - q for x, q in Q.items()})
    yield "l", dict(l=L)
    yield "d", dict(d=D, l={2: 1000.0})
    yield "l sparse", dict(l={2: 1000.0, 4: 720.0}, q={2: .1}, p={4: .7}, d={5: 504.0})
    yield "q one", dict(q={5: 1.0}, l={5: 504.0, 4: 720.0})


def select_data():
    yield "q", dict(q=ROWS)
    yield "l", dict(l=LIVES)
    yield "q holes", dict(q={x: [r[0], None, r[2]] for x, r in ROWS.items()}, l={2: [1000.0, 950.0, 855.0]})
    yield "q and a", dict(q={x: r[:2] + [None] for x, r in ROWS.items()}, a={5: [None, None, 1.0]})
    yield "q and A", dict(q={x: r[:2] + [None] for x, r in ROWS.items()}, A={5: [None, None, .8]})
    yield "q and e", dict(q={x: r[:2] + [None] for x, r in ROWS.items()}, e={5: [None, None, 0.0]})
    yield "rows of two lengths", dict(q={2: [.05, .1, .2], 3: [.1], 4: [.2, .4], 5: [.3, 1.0, 1.0]})
    yield "l and d", dict(l={x: [r[0], None, r[2]] for x, r in LIVES.items()}, d={x: [r[0] - r[1], None, None] for x, r in LIVES.items()})


def column_data():
    yield "q", dict(q=Q)
    yield "l", dict(l=L)
    yield "q holes", dict(q={2: .1, 3: None, 4: .3}, l={3: None, 2: 1000.0})
    yield "q and A", dict(q={2: .1, 3: .2}, A={4: .7})
    yield "q and a", dict(q={2: .1, 3: .2}, a={4: 1.5})
    yield "q and e", dict(q={2: .1, 3: .2}, e={4: .5})
    yield "l and d", dict(l={2: 1000.0}, d=D)


def reserve_data():
    whole, level = Contract(premium=.3, initial_policy=.1), Contract(premium=.3, T=3, endowment=1, renewal_premium=.1, discrete=False)
    yield "V", dict(V={0: 0.0, 2: .3}, contract=level)
    yield "V last", dict(V={3: 1.0}, contract=whole)
    yield "V past", dict(V={1: .1, 4: .5}, contract=level)
    yield "V first", dict(V={1: .1}, contract=Contract(premium=.4, T=2, benefit=2))
    yield "no V", dict(V={}, contract=whole)


# ---- what can be done with an object: enter the data, change it otherwise, ask it
def ages(o, x, **k):
    return [o.p_x(x, **k), o.q_x(x, **k), o.whole_life_insurance(x, **k), o.term_insurance(x, t=2, **k), o.temporary_annuity(x, t=2, **k), o.e_x(x, **k)]


class Table:
    data, columns = list(table_data()), ("q", "p", "l", "d")

    def __init__(self, fill):
        self.name, self.fill = f"LifeTable(fill={fill})", fill

    def new(self):
        return LifeTable().set_interest(i=.25)

    def enter(self, o, d):
        o.set_table(fill=self.fill, **d)

    def change(self, o):
        o.set_table(q={3: .25, 4: .5}, l={6: 10.0})

    def ask(self, o):
        return [lambda: {c: dict(o[c]) for c in self.columns}, lambda: o.frame()] + [lambda x=x: ages(o, x) for x in (2, 4)]


class Select:
    data, columns = list(select_data()), ("q", "l", "d", "A", "a", "e")

    def __init__(self, fill):
        self.name, self.fill = f"SelectLife(fill={fill})", fill

    def new(self):
        return SelectLife().set_interest(i=.25)

    def enter(self, o, d):
        o.set_table(fill=self.fill, **d)

    def change(self, o):
        o.set_select(s=1, age_selected=True, q={2: .15, 3: .25}, fill=True)

    def ask(self, o):
        return [lambda: {c: {x: dict(r) for x, r in o[c].items()} for c in self.columns}] + [lambda x=x, s=s: ages(o, x, s=s) for x, s in ((2, 0), (2, 2), (3, 1))]


class Column(Select):
    data = list(column_data())

    def __init__(self, s, by):
        self.name, self.s, self.by = f"SelectLife(s={s},age_selected={by})", s, by

    def new(self):
        o = SelectLife(periods=1).set_interest(i=.25)
        return o.set_select(s=1 - self.s, age_selected=not self.by, q={2: .3, 3: .4})

    def enter(self, o, d):
        o.set_select(s=self.s, age_selected=self.by, **d)
        o.fill_table()

    def change(self, o):
        o.set_select(s=1 - self.s, age_selected=True, q={3: .35}, fill=True)


class Held:
    data = list(reserve_data())

    def __init__(self, fill):
        self.name, self.fill = f"Reserves(fill={fill})", fill
        if fill:
            self.data = [(n, d) for n, d in self.data if n != "V past"]

    def new(self):
        return Recursion(verbose=False).set_interest(i=.25).set_q(.1, x=2).set_q(.2, x=3).set_q(.3, x=4)

    def enter(self, o, d):
        o.set_reserves(T=3, V=d["V"])
        if self.fill:
            o.fill_reserves(2, contract=d["contract"])

    def change(self, o):
        o.set_reserves(T=4, V={2: .25}, endowment=.75)

    def ask(self, o):
        c = Contract(premium=.3)
        return [o.reserves_frame, lambda: o.T, lambda: [o.gross_policy_value(2, t=1, n=3, contract=c), o.L_from_t(1.5, contract=c)]] + [lambda t=t: [o.t_V_forward(2, t=t, premium=.3), o.t_V_backward(2, t=t, premium=.3), o.r_V_forward(2, s=t, r=.5, premium=.2)] for t in (0, 1, 2)]


class Rated(Table):
    """rates of a life under extra risk, or a column of another table, entered in a table"""
    columns = ("q", "l", "d", "p")

    def __init__(self, how):
        self.name, self.how = f"column of {how}", how
        base = LifeTable().set_table(q=Q)
        if how == "LifeTable":
            source = base
        elif how == "SULT":
            source = SULT()
        else:
            source = ExtraRisk(base, risk=how, extra=1 if how == "ADD_AGE" else .5 if "FORCE" in how else 1.5)
        self.source, self.fill = source, True
        self.data = [(c, {c: source[c]}) for c in (("q", "p", "l") if how == "LifeTable" else ("q", "p"))]
        self.x = 40 if how == "SULT" else 2

    def change(self, o):
        o.set_table(q={self.x + 1: .25, self.x + 2: .5})

    def ask(self, o):
        return [lambda: {c: dict(o[c]) for c in self.columns}] + [lambda: ages(o, self.x)]


KINDS = [Table(True), Table(False), Select(True), Select(False), Column(0, True), Column(1, True), Column(1, False), Held(False), Held(True)] + [
    Rated(h) for h in ("LifeTable", "ADD_FORCE", "MULTIPLY_FORCE", "MULTIPLY_RATE", "ADD_AGE")]


def alter(d, at):
    """the owner changes what it holds: one value, or one key more, or one key less"""
    for col in d.values():
        if isinstance(col, Contract):
            col.set_contract(premium=col.premium * 2, T=col.T + 1, settlement_policy=.05)
            continue
        if not col:
            col[1] = .2
        last = max(col)
        if at == "less":
            del col[last]
        elif at == "more":
            col[last + 1] = copy.deepcopy(col[last])
        elif isinstance(col[last], list):
            for k, v in enumerate(col[last]):
                col[last][k] = .125 if v is None else v * .5
        else:
            col[last] = .125 if col[last] is None else col[last] * .5


def show(d):
    """the data with the terms of contracts spelled out"""
    return {k: vars(c) if isinstance(c, Contract) else c for k, c in d.items()}


def answers(kind, o):
    out = []
    for f in kind.ask(o):
        try:
            out.append(plain(f()))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def do(kind, o, ops):
    failed = []
    for op, d in ops:
        try:
            kind.enter(o, d) if op == "enter" else kind.change(o)
        except Exception as e:
            failed.append(type(e).__name__)
    return failed


def isolated(kind, ops):
    """what an object with this history answers in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            o = kind.new()
            failed = do(kind, o, copy.deepcopy(ops))
            with os.fdopen(w, "wb") as f:
                pickle.dump((failed, answers(kind, o)), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(raw)


# operations of the two objects and of the owner of the data
FIRST = ("A enter", "A ask")
SCHEDULES = {"shared": (FIRST, ("B enter", "B change", "B ask"), ("alter",)), "own": (FIRST, ("B enter own", "B change", "B ask"), ("alter",)),
             "again": (("A enter", "A again", "A ask"), ("B enter", "B ask"), ("alter",))}
DEEP = {"long": (FIRST, ("B enter", "B ask", "B change", "B again", "B ask"), ("alter",)), "twice": (FIRST, ("B change", "B enter", "B ask"), ("alter", "alter"))}


def orders(*threads):
    """all interleavings"""
    threads = [t for t in threads if t]
    if not threads:
        yield ()
        return
    for k, t in enumerate(threads):
        for rest in orders(*threads[:k], t[1:], *threads[k + 1:]):
            yield (t[0],) + rest


def work(ck, item):
    kind, name, at = item
    held = dict(kind.data)[name]
    own = next((d for n, d in kind.data if n != name), held)
    memo = {}

    def ref(ops):
        key = pickle.dumps(ops)
        if key not in memo:
            memo[key] = isolated(kind, ops)
        return memo[key]
    for how, threads in dict(SCHEDULES, **(DEEP if ck.thorough else {})).items():
        for seq in orders(*threads):
            ck.step(len(seq))
            ck.visit(kind.name, name, at, how, seq)
            d, mine = copy.deepcopy(held), copy.deepcopy(held)
            other = copy.deepcopy(own)
            objs, past = {c: kind.new() for c in "AB"}, {"A": [], "B": []}
            args = dict(kind=kind.name, data=name, change=at, seq=" ".join(seq).replace(" ", "."))
            failed = {"A": [], "B": []}
            for op in seq:
                if op == "alter":
                    alter(d, at)
                    alter(mine, at)
                    continue
                c, what = op.split(" ", 1)
                if what == "ask":
                    want = ref(past[c])
                    if not ck.eq("answers", dict(args, of=c), lambda: (failed[c] == want[0], close(answers(kind, objs[c]), want[1])), (True, True)):
                        break
                else:
                    given = (d, mine) if what != "enter own" else (other, own)
                    past[c].append(("enter" if what != "change" else "change", copy.deepcopy(given[1]) if what != "change" else None))
                    failed[c] += do(kind, objs[c], [("enter" if what != "change" else "change", given[0] if what != "change" else None)])
                if not ck.eq("data kept", dict(args, after=op), lambda: (show(d), show(other)) == (show(mine), show(own)), True):
                    break


def explore(ck):
    rated = KINDS + ([Rated("SULT")] if ck.thorough else [])
    ck.each([(k, n, at) for k in rated for n, _ in k.data for at in ("value", "more", "less")], work)
