"""C30: a life with extra risk, at every age and duration, against the chain whose one-year rates are adjusted."""
import itertools, math
from actuarialmath import LifeTable, SelectLife, SULT, Makeham, Gompertz, ConstantForce, Beta, Uniform, ExtraRisk, Survival
from . import model as M
from . import contracts as C
from . import c23
from .sigs import signatures

ASSUMPTIONS = ["four kinds of risk, amounts from none to large; set-back by whole years",
               "a multiplied rate is limited to certain death; ages at and past the last age of the standard life are not compared",
               "multi-year values are those of life tables and select tables loaded with the adjusted rates, as documented"]
R = 1e-9
RISKS = [("", 0.0), ("ADD_FORCE", 0.0), ("ADD_FORCE", 0.25), ("ADD_FORCE", 3.0), ("MULTIPLY_FORCE", 1.0), ("MULTIPLY_FORCE", 0.5),
         ("MULTIPLY_FORCE", 2.5), ("MULTIPLY_RATE", 0.0), ("MULTIPLY_RATE", 0.5), ("MULTIPLY_RATE", 1.0), ("MULTIPLY_RATE", 1.5),
         ("MULTIPLY_RATE", 12.0), ("ADD_AGE", 0), ("ADD_AGE", 1), ("ADD_AGE", 2)]


def adjusted(q, risk, extra, x, s):
    """the adjusted one-year rate, from the rates q(x, s) of the standard life"""
    if risk == "ADD_AGE":
        return q(x + extra, s)
    r = q(x, s)
    if risk == "MULTIPLY_RATE":
        return min(1.0, extra * r)
    if r == 1.0:
        return 1.0
    force = -math.log(1 - r)
    if risk == "ADD_FORCE":
        force += extra
    if risk == "MULTIPLY_FORCE":
        force *= extra
    return 1 - math.exp(-force)


class Std:
    """a standard life: how to make it, its rates, and the ages and durations where they are defined"""
    def __init__(self, name, make, q, lo, hi, smax=2, sel=None):
        self.name, self.make, self.q, self.lo, self.hi, self.smax, self.sel = name, make, q, lo, hi, smax, sel

    def __repr__(self):
        return self.name


def standards(thorough):
    out = []
    for ch in M.ultimates(thorough):
        out.append(Std(ch.name, lambda ch=ch: LifeTable().set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}),
                       lambda x, s, ch=ch: ch.q(x, s), ch.minage, ch.omega))
    for w in c23.WORLDS + (c23.MORE if thorough else []):
        ch = c23.build(*w, 0.25)
        out.append(Std("select" + ch.name, lambda ch=ch: c23.make(ch, "q", 0.25), lambda x, s, ch=ch: ch.q(x, s), ch.t.lo, ch.last, ch.t.P + 1, ch))
    law = lambda S: lambda x, s: 1 - S(x + s + 1) / S(x + s)
    mk = lambda A, B, c: lambda y: math.exp(-A * y - B * (c ** y - 1) / math.log(c))
    out.append(Std("sult", lambda: SULT(), law(mk(.00022, .0000027, 1.124)), 20, 120))
    out.append(Std("makeham", lambda: Makeham(A=.01, B=.002, c=1.3), law(mk(.01, .002, 1.3)), 0, 30))
    out.append(Std("gompertz", lambda: Gompertz(B=.00005, c=1.2), law(mk(0, .00005, 1.2)), 0, 60))
    out.append(Std("force", lambda: ConstantForce(mu=.03), lambda x, s: 1 - math.exp(-.03), 0, 90))
    out.append(Std("beta", lambda: Beta(omega=20, alpha=.5), law(lambda y: (1 - y / 20) ** .5 if y < 20 else 0.0), 0, 20))
    out.append(Std("uniform", lambda: Uniform(omega=12), law(lambda y: max(0., 1 - y / 12)), 0, 12))
    return out


def rates(ck, item):
    st, risk, extra = item
    life = st.make()
    risky = ExtraRisk(life=life, risk=risk, extra=extra) if risk else ExtraRisk(life=life)
    other = ExtraRisk(life=life, risk="MULTIPLY_RATE", extra=.25)       # a second adjusted life of the same standard life
    want = lambda x, s=0: adjusted(st.q, risk, extra, x, s)
    far = extra if risk == "ADD_AGE" else 0
    spots = [(x, s) for x in range(st.lo, st.hi - far) for s in range(st.smax + 1) if x + s + far < st.hi]
    if st.sel:
        spots = [(x, s) for x, s in spots if x + far <= st.sel.t.hi or s >= st.sel.t.P]
    k = dict(life=st, risk=risk, extra=extra)
    for x, s in spots:
        ck.visit(st.name, risk, extra, x, s)
        ck.step(2)
        ck.eq("q_x", dict(k, x=x, s=s), lambda: risky.q_x(x, s=s), want(x, s), R, R)
        ck.eq("p_x", dict(k, x=x, s=s), lambda: risky.p_x(x, s=s), 1 - want(x, s), R, R)
        ck.eq("order", dict(k, x=x, s=s), lambda: [risky.q_x(x, s), risky.p_x(x, s), risky.q_x(x), risky.p_x(x)] if (x, 0) in spots else None,
              [want(x, s), 1 - want(x, s), want(x), 1 - want(x)] if (x, 0) in spots else None, R, R)
        ck.eq("standard", dict(k, x=x, s=s), lambda: [life.q_x(x, s=s), life.p_x(x, s=s)], [st.q(x, s), 1 - st.q(x, s)], R, R)
        ck.eq("other", dict(k, x=x, s=s), lambda: other.q_x(x, s=s), .25 * st.q(x, s), R, R)
    for col in ("q", "p"):
        got = ck.call(lambda: risky[col])
        ck.eq("column", dict(k, col=col), lambda: [got[1][x] if got[0] == "ok" else got for x, s in spots if s == 0],
              [want(x) if col == "q" else 1 - want(x) for x, s in spots if s == 0], R, R)
        if got[0] == "ok":
            ck.ok("column.range", dict(k, col=col), lambda: all(0 <= v <= 1 for v in got[1].values()))
    ck.eq("standard.after", k, lambda: [life.q_x(x, s=s) for x, s in spots], [st.q(x, s) for x, s in spots], R, R)


def loaded(ck, item):
    """lives, insurances and annuities of tables loaded with the adjusted rates"""
    st, risk, extra, col, i = item
    v = 1 / (1 + i)
    far = extra if risk == "ADD_AGE" else 0
    risky = ExtraRisk(life=st.make(), risk=risk, extra=extra)
    lo = st.lo
    hi = min((st.sel.t.hi + 1 if st.sel else st.hi) - far, lo + 6)
    if hi <= lo:
        return
    rows = [adjusted(st.q, risk, extra, x, 0) for x in range(lo, hi)]
    ch = M.Chain(f"{st.name}+{risk}{extra}", rows + [1.0], lo)
    cells = ck.call(lambda: risky[col])
    if cells[0] != "ok":
        ck.ok("loaded", dict(life=st, risk=risk, extra=extra), lambda: cells[1])
        return
    cells = {x: w for x, w in cells[1].items() if x < hi}
    life = LifeTable().set_interest(i=i).set_table(**{col: cells})
    sel = None
    if st.sel is None:
        sel = SelectLife(periods=1).set_interest(i=i).set_select(s=0, age_selected=True, q=risky["q"]).set_select(
            s=1, age_selected=False, q=risky.life["q"] if st.name == "sult" else {x: risky.life.q_x(x) for x in range(lo, hi + 1)}).fill_table()
    for x in range(lo, hi):
        if ch.p(lo, 0, x - lo) < 1e-4:         # lives are rounded to seven digits
            continue
        room = hi - x
        for t in range(1, room + 1):
            k = dict(life=st, risk=risk, extra=extra, col=col, i=i, x=x, t=t)
            ck.visit(ch.name, i, x, t)
            ck.step()
            ck.eq("t.p", k, lambda: life.p_x(x, t=t), math.prod(1 - q for q in rows[x - lo:x - lo + t]), 1e-5, 1e-6)
            ck.eq("t.ins", k, lambda: life.term_insurance(x, t=t, b=2), 2 * ch.EK(x, 0, M.ins(v, t)), 1e-5, 1e-6)
            ck.eq("t.ann", k, lambda: life.temporary_annuity(x, t=t), ch.EK(x, 0, M.ann(v, t)), 1e-5, 1e-6)
            ck.eq("t.E", k, lambda: life.E_x(x, t=t), v ** t * ch.p(x, 0, t), 1e-5, 1e-6)
            if st.sel is None and x + t <= st.hi - 2:       # extra risk in the year of selection only
                w = [adjusted(st.q, risk, extra, x, 0)] + [st.q(x + j, 0) for j in range(1, t)]
                ck.eq("sel.p", k, lambda: sel.p_x(x, s=0, t=t), math.prod(1 - q for q in w), 1e-7, 1e-7)
                c2 = M.Chain("s", w + [1.0], 0)
                ck.eq("sel.ins", k, lambda: sel.term_insurance(x, s=0, t=t), c2.EK(0, 0, M.ins(v, t)), 1e-7, 1e-7)


def histories(ck, _):
    """every order of building, querying and replacing two standard lives and their adjusted lives"""
    T = {"a": {3: .25, 4: .5, 5: 1.0}, "b": {3: .125, 4: .375, 5: 1.0}}
    q = lambda t: lambda x, s=0: T[t].get(x + s, 1.0)
    ops = [("new", "ADD_FORCE", .5), ("new", "MULTIPLY_RATE", 2.0), ("new", "ADD_AGE", 1), ("new", "MULTIPLY_FORCE", 2), ("table", "b"), ("table", "a"), ("ask", 3), ("col",)]
    for n in (2, 3, 4) if ck.thorough else (2, 3):
        for seq in itertools.product(ops, repeat=n):
            life, cur, made = LifeTable().set_table(q=T["a"]), "a", []
            for op in seq:
                ck.step()
                if op[0] == "new":
                    made.append((ExtraRisk(life, op[1], op[2]), op[1], op[2]))
                elif op[0] == "table":
                    life.set_table(q=T[op[1]])
                    cur = op[1]
                elif op[0] == "ask":
                    [(r.p_x(3), r.q_x(4), life.p_x(3)) for r, *_ in made]
                else:
                    [(r["p"], r["q"]) for r, *_ in made]
            ck.visit("h", cur, tuple(m[1:] for m in made))
            for r, risk, extra in made:
                ck.eq("history", dict(seq=seq, risk=risk), lambda: [r.q_x(3), r.p_x(3), r.q_x(3, 1), r["q"][4]],
                      [adjusted(q(cur), risk, extra, 3, 0), 1 - adjusted(q(cur), risk, extra, 3, 0), adjusted(q(cur), risk, extra, 3, 1), adjusted(q(cur), risk, extra, 4, 0)])
            ck.eq("history.standard", dict(seq=seq), lambda: [life.q_x(x) for x in (3, 4, 5)], [q(cur)(x) for x in (3, 4, 5)])


def explore(ck):
    signatures(ck, "ExtraRisk")
    sts = standards(ck.thorough)
    items = [("r", (st, r, e)) for st in sts for r, e in RISKS]
    for st in sts:
        for r, e in RISKS:
            for col in "qp":
                for i in (.25, 0.0) if ck.thorough else (.25,):
                    items.append(("l", (st, r, e, col, i)))
    items.append(("h", None))
    life = LifeTable().set_table(q={3: .5, 4: 1})
    for bad in ("add_force", "ADD", "FORCE", "MULTIPLY"):
        got = ck.call(lambda: ExtraRisk(life, risk=bad, extra=1))
        ck.ok("reject", dict(risk=bad), lambda: got[0] != "ok" and "AssertionError" in str(got))
    got = ck.call(lambda: ExtraRisk(life, risk="ADD_AGE", extra=-1))
    ck.ok("reject", dict(extra=-1), lambda: got[0] != "ok" and "AssertionError" in str(got))
    ck.each(items, lambda c, it: dict(r=rates, l=loaded, h=histories)[it[0]](c, it[1]))
