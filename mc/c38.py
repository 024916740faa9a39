"""C38: plots show the values: every drawn point, label and returned number against enumeration."""
import math
import os
os.environ.setdefault("MPLBACKEND", "Agg")
import matplotlib.pyplot as plt
from actuarialmath import Contract, LifeTable, Makeham, PolicyValues, Reserves, SelectLife
from . import model as M
from .c15 import TERMS, loss, make

ASSUMPTIONS = ["a point of a curve is a bar (at its centre), a marker or a vertex of a line drawn on the axes; colours, widths and wording are not looked at, except that numbers in a label are those of its point",
               "yearly plots show the whole years 0, 1, ... up to where they stop; continuous ones show points no further apart than a hundredth of the range"]


def points(ax):
    """((time, height) of the bars), [line data]"""
    bars = sorted((r.get_x() + r.get_width() / 2, r.get_height()) for r in ax.patches)
    return bars, [[(float(t), float('nan') if v is None else float(v)) for t, v in zip(l.get_xdata(), l.get_ydata())] for l in ax.lines]


def labels(ax):
    g = ax.get_legend()
    return [t.get_text() for t in g.get_texts()] if g else []


def draw(fn, dual, *a, **kw):
    """what a plotting method drew: returned value, bars, markers, survival curve and marker, labels, title"""
    plt.close("all")
    try:
        fig, ax = plt.subplots(1, 1)
        got = fn(*a, ax=ax, dual=dual, **kw) if dual is not None else fn(*a, ax=ax, **kw)
        twins = [b for b in fig.axes if b is not ax]
        bars, lines = points(ax)
        return dict(got=got, bars=bars, lines=lines, labels=labels(ax), title=ax.get_title(), axes=len(plt.get_fignums()), twins=[points(b)[1] for b in twins], twin_labels=[labels(b) for b in twins])
    finally:
        plt.close("all")


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def curve(pts, value, stop, disc):
    """the points are where they should be and as high as they should be; the first failure, or 'ok'"""
    ts = [t for t, _ in pts]
    if disc:
        if not (len(ts) == stop + 1 and all(near(t, k) for k, t in enumerate(ts))):
            return f"times {ts}"
    elif not (near(ts[0], 0) and ts[-1] >= stop - 1e-9 and max(b - a for a, b in zip(ts, ts[1:])) <= stop / 100 + 1e-9):
        return f"times {ts[:3]} .. {ts[-3:]}"
    for t, h in pts:
        w = [value(round(t))] if disc else [value(u) for u in (t, max(t - 1e-9, 0), t + 1e-9)]
        if not any(near(h, g, 1e-9 if disc else 1e-7) for g in w):
            return f"at {t}: {h} for {w[0]}"
    return "ok"


def judge(ck, k, name, d, value, surv, stop, disc, T, dual, title):
    """compare one drawing with the model"""
    ck.eq(name + ".curve", k, lambda: curve(d["bars"], value, stop, disc), "ok")
    if T is None:
        ck.eq(name + ".value", k, lambda: d["got"], None)
        ck.eq(name + ".no marker", k, lambda: d["lines"], [])
    else:
        ck.eq(name + ".value", k, lambda: d["got"], value(T))
        ck.eq(name + ".marker", k, lambda: d["lines"], [[(T, value(T))]])
        ck.eq(name + ".label", k, lambda: f"({T:.2f})={value(T) + 0.:.4f}" in d["labels"][0].replace("-0.0000", "0.0000"), True)
    if dual:
        ck.eq(name + ".survival", k, lambda: curve(d["twins"][0][0], surv, stop, disc), "ok")
        if T is not None:
            ck.eq(name + ".survival marker", k, lambda: d["twins"][0][1:], [[(T, surv(T))]])
            ck.eq(name + ".survival label", k, lambda: f">{T:.2f}]={surv(T):.4f}" in d["twin_labels"][0][0], True)
    else:
        ck.eq(name + ".alone", k, lambda: len(d["twins"]), 0)
    if title is not None:
        ck.eq(name + ".title", k, lambda: d["title"], title)
    ck.eq(name + ".figures", k, lambda: d["axes"], 1)


def life_of(ch, how, i):
    if how == "select":
        n = ch.nsel
        return SelectLife(periods=n, udd=True).set_table(q={a: [ch.q(a, s) for s in range(n + 1)] for a in range(ch.minage, ch.omega - n)}).set_interest(i=i)
    return make(ch, how, i)


def plots(ck, item):
    ch, how, i, x, s = item
    v = 1 / (1 + i)
    life = life_of(ch, how, i)
    full = ch.omega - x - s
    B = {"one": (None, lambda a, r: 1), "age": (lambda a, r: 2 * a + r * r, lambda a, r: 2 * a + r * r), "late": (lambda a, r: 5 * (r >= 2 - 1e-6), lambda a, r: 5 * (r >= 2 - 1e-6))}
    yearly = [(stop, T, dual) for stop in (0, 1, 2) for T in (None, 0, 1, 2) for dual in (False, True)]
    smooth = [(0, None, False), (1, .5, True), (2, 1.75, True), (0, 1, True)] if how in ("S", "l") else [(2, .5, False)]
    if not ck.thorough:
        smooth = smooth[(x + s) % 2::2] if i else []
    for disc in (True, False):
        z = lambda t: v ** (math.floor(t) + 1) if disc else v ** t
        y = lambda t: M.ann(v)(math.floor(t)) if disc else M.annT(v)(t)
        surv = lambda t: ch.S(x, s, t)
        for stop, T, dual in yearly if disc else smooth:
            if stop > full or (T or 0) >= full:
                continue
            title = "shown" if T == 1 else None
            more = {"title": title} if title else {}
            for bn, (given, b) in B.items():
                if bn == "one" and not disc and T:
                    continue
                k = dict(ch=ch, how=how, i=i, x=x, s=s, disc=disc, stop=stop, T=T, dual=dual, b=bn)
                ck.visit(ch.name, how, x, s, disc, stop, T, dual, bn)
                ck.step(2)
                kw = dict(s=s, stop=stop, T=T, discrete=disc, **more)
                if given:
                    kw["benefit"] = given
                for name, f in (("Z_plot", z), ("Y_plot", y)):
                    st, d = ck.call(lambda: draw(getattr(life, name), dual, x, **kw))
                    if st != "ok":
                        ck.eq(name, k, lambda: d, "a drawing")
                        continue
                    judge(ck, k, name, d, lambda t: b(x, s + t) * f(t), surv, stop or full, disc, T, dual, title)
            if not hasattr(life, "L_plot"):
                continue
            for j in (0, 2):
                for n, e in ((M.WHOLE, 0), (2, 25)):
                    k = dict(ch=ch, how=how, i=i, x=x, s=s, disc=disc, stop=stop, T=T, dual=dual, c=j, n=n)
                    ck.visit("L", ch.name, how, x, s, disc, stop, T, dual, j, n)
                    ck.step()
                    L = loss(v, TERMS[j], n, disc, True, e)
                    con = Contract(T=n, endowment=e, discrete=disc, **TERMS[j])
                    st, d = ck.call(lambda: draw(life.L_plot, dual, x, s=s, stop=stop, T=T, contract=con, **more))
                    if st != "ok":
                        ck.eq("L_plot", k, lambda: d, "a drawing")
                        continue
                    judge(ck, k, "L_plot", d, lambda t: L(math.floor(t) if disc else t), surv, stop or full, disc, T, dual, title)


def positions(ck, item):
    """arguments by position are those of the documented order; left out, the documented default"""
    life = life_of(item, "S", .25)
    orders = dict(Z_plot=[("s", 1), ("stop", 2), ("benefit", lambda a, r: a + r), ("T", 1), ("discrete", True)],
                  Y_plot=[("s", 1), ("stop", 2), ("benefit", lambda a, r: a + r), ("T", 1), ("discrete", True)],
                  L_plot=[("s", 1), ("stop", 2), ("T", 1), ("contract", Contract(premium=2., benefit=7.))])
    plain = dict(s=0, stop=0, T=None, discrete=True, contract=Contract(), benefit=lambda a, r: 1)
    for name, order in orders.items():
        see = lambda *a, **k: {w: d for w, d in draw(getattr(life, name), None, item.minage, *a, **k).items() if w != "title"}
        for n in range(len(order) + 1):
            ck.visit("positions", name, n)
            ck.step()
            ck.eq(name + ".positions", dict(given=n), lambda: see(*[b for _, b in order[:n]]), see(**dict(order[:n])))
            ck.eq(name + ".defaults", dict(given=n), lambda: see(**dict(order[:n])), see(**dict(order[:n]), **{k: plain[k] for k, _ in order[n:]}))


def reserves(ck, item):
    n, given, e = item
    life = Reserves().set_reserves(T=n, V=dict(given), endowment=e)
    d = draw(life.V_plot, None, title="V")
    want = {0: 0.0}
    want.update(given)
    if e or n not in want:
        want[n] = e
    ck.visit("V", n, given, e)
    ck.step()
    k = dict(n=n, V=given, e=e)

    def shown():
        return [(t, v) for l in d["lines"] for t, v in l if not math.isnan(v)]
    ck.eq("V_plot", k, shown, sorted((float(t), float(v)) for t, v in want.items()))
    ck.eq("V_plot.title", k, lambda: d["title"], "V")


def work(ck, item):
    {"V": reserves, "P": plots, "A": positions}[item[0]](ck, item[1])


def explore(ck):
    items = []
    a, b = M.Chain("plain", [.25, .125, .5, .0625, 1.], 3), M.Chain("sel", [(.25, .5, .125), (.125, .25, .375), (.0625, .125, .5), (.25, .25, .25), (.1, .2, .5), (1., 1., 1.)], 2)
    for ch, how in ((a, "S"), (a, "table"), (a, "l"), (b, "S"), (b, "select")):
        for i in (.25, 0.0) if ck.thorough else (.25 if ch is a else 0.06,):
            for x in range(ch.minage, ch.omega - 1) if ck.thorough else (ch.minage, ch.minage + 1):
                for s in (0, 1, 2) if ck.thorough else (0, 1):
                    if x + s < ch.omega - 1 and (how != "select" or x < ch.omega - 2):
                        items.append(("P", (ch, how, i, x, s)))
    items.append(("A", a))
    for n in (1, 2, 3):
        for e in (0, 5):
            for given in ((), ((1, .5),), ((0, .25), (1, 1.5), (2, -2.)), ((3, 4.),)):
                if all(t <= n for t, _ in given):
                    items.append(("V", (n, given, e)))
    ck.each(items, work)
