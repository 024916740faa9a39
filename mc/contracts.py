"""Contract shapes: every combination of shape arguments together with the cash flow it promises on a path."""
import math
from . import model as M
WHOLE, VAR = M.WHOLE, -2


class Spec:
    """a public method, its arguments, and the payoff on a path for yearly (gK) and continuous (gT) payment"""
    def __init__(self, method, kw, gK, gT=None, moments=(1,), group="ins"):
        self.method, self.kw, self.gK, self.gT, self.moments, self.group = method, kw, gK, gT, moments, group

    def label(self):
        return ",".join(f"{k}={'fn' if callable(v) else v}" for k, v in self.kw.items())


def E(v, g):
    return g


def lumpy(j):
    return (5.0, 1.0, 7.0, 2.0, 3.0)[int(j) % 5]


def ins_specs(v, room, bs=(1, 3), ends=(2,), us=None, ts=None, general=True, shapes=True):
    """insurances payable on death; room = whole years to the limiting age"""
    ts = list(range(0, room + 3)) if ts is None else ts
    us = list(range(0, room + 2)) if us is None else us
    mom = (1, 2, VAR)
    for t in ts + [WHOLE]:
        for e in (1,) + tuple(ends):
            g = (lambda k: 0.0) if t == WHOLE else M.pure(v, t, e)
            yield Spec("E_x", dict(t=t, endowment=e), g, g, mom if t != WHOLE else (1,), "pure")
    for b in bs:
        yield Spec("whole_life_insurance", dict(b=b), M.ins(v, b=lambda j: b), M.insT(v, b=lambda r: b), mom)
        for t in ts + [WHOLE]:
            yield Spec("term_insurance", dict(t=t, b=b), M.ins(v, t, b=lambda j: b), M.insT(v, t, b=lambda r: b), mom)
            for u in us:
                yield Spec("deferred_insurance", dict(u=u, t=t, b=b), M.ins(v, t, u, lambda j: b),
                           M.insT(v, t, u, lambda r: b), mom)
            if t != WHOLE:
                for e in (None, 0) + tuple(ends):
                    kw = dict(t=t, b=b) if e is None else dict(t=t, b=b, endowment=e)
                    pay = b if e is None else e
                    yield Spec("endowment_insurance", kw, M.ins(v, t, 0, lambda j: b, pay),
                               M.insT(v, t, 0, lambda r: b, pay), mom)
            if shapes:
                yield Spec("increasing_insurance", dict(t=t, b=b), M.ins(v, t, 0, lambda j: b * j),
                           M.insT(v, t, 0, lambda r: b * r))
                if t != WHOLE and t > 0:
                    yield Spec("decreasing_insurance", dict(t=t, b=b), M.ins(v, t, 0, lambda j: b * (t + 1 - j)),
                               M.insT(v, t, 0, lambda r: b * (t - r)))
    if general:
        for t in ts + [WHOLE]:
            for u in us:
                for e in ((0,) if t == WHOLE else (0, 1, .5) + tuple(ends)):
                    yield Spec("A_x", dict(t=t, u=u, endowment=e, benefit=lambda x, j: lumpy(j)),
                               M.ins(v, t, u, lumpy, e), M.insT(v, t, u, lumpy, e), (1, 2))


def ann_specs(v, room, bs=(1, 3), us=None, ts=None, general=True, shapes=True, certain=True):
    """annuities; yearly payments at the start of each year, or paid continuously"""
    ts = list(range(0, room + 3)) if ts is None else ts
    us = list(range(0, room + 2)) if us is None else us
    mom = (1, VAR)
    for b in bs:
        yield Spec("whole_life_annuity", dict(b=b), M.ann(v, b=lambda j: b), M.annT(v, b=lambda r: b), mom, "ann")
        for t in ts + [WHOLE]:
            yield Spec("temporary_annuity", dict(t=t, b=b), M.ann(v, t, b=lambda j: b), M.annT(v, t, b=lambda r: b), mom, "ann")
            # payments at the end of each year survived, at most t of them
            yield Spec("immediate_annuity", dict(t=t, b=b),
                       (lambda k, t=t, b=b: math.fsum(b * v ** j for j in range(1, (k if t == WHOLE else min(k, t)) + 1))),
                       None, mom, "ann")
            for u in us:
                yield Spec("deferred_annuity", dict(u=u, t=t, b=b), M.ann(v, t, u, lambda j: b),
                           M.annT(v, t, u, lambda r: b), (1,), "ann")
                if certain:
                    yield Spec("certain_life_annuity", dict(u=u, t=t, b=b), M.ann(v, t, u, lambda j: b, certain=u),
                               M.annT(v, t, u, lambda r: b, certain=u), (1,), "ann")
            if shapes:
                yield Spec("increasing_annuity", dict(t=t, b=b), M.ann(v, t, 0, lambda j: b * (j + 1)),
                           M.annT(v, t, 0, lambda r: b * r), (1,), "ann")
                if t != WHOLE:
                    yield Spec("decreasing_annuity", dict(t=t, b=b), M.ann(v, t, 0, lambda j: b * (t - j)),
                               M.annT(v, t, 0, lambda r: b * (t - r)), (1,), "ann")
    if general:
        for t in ts + [WHOLE]:
            for u in us:
                yield Spec("a_x", dict(t=t, u=u, benefit=lambda x, j: lumpy(j)), M.ann(v, t, u, lumpy),
                           M.annT(v, t, u, lumpy), (1,), "ann")


def value(ck, ch, x, s, sp, mom, discrete=True):
    g = sp.gK if discrete else sp.gT
    if mom == VAR:
        return (ch.VK if discrete else ch.VT)(x, s, g, ck)
    return (ch.EK if discrete else ch.ET)(x, s, (lambda k: g(k) ** mom) if mom > 1 else g, ck)


def compare(ck, tag, life, ch, x, s, i, sp, mom, discrete=True, rel=1e-9, abs_=1e-9, extra=None, pass_discrete=True):
    kw = dict(sp.kw)
    if sp.method not in ("E_x", "immediate_annuity") and pass_discrete and not (discrete and mom == 1):
        kw["discrete"] = discrete
    if mom != 1:
        if sp.group == "ann":
            kw["variance"] = True
        else:
            kw["moment"] = mom
    kw.update(extra or {})
    args = f"{ch},i={i},x={x},s={s},{sp.label()},mom={mom},{'d' if discrete else 'c'},{tag}"
    want = value(ck, ch, x, s, sp, mom, discrete)
    return ck.eq(sp.method, (args,), lambda: getattr(life, sp.method)(x, s=s, **kw), want, rel, abs_)
