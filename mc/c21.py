"""C21: every query of a life table, up to and past its last age, against enumeration of the table's chain."""
import itertools, math
from actuarialmath import LifeTable, Premiums
from . import model as M
from . import long
from . import contracts as C
from .c06 import RS, TS, US
from .sigs import signatures

ASSUMPTIONS = ["tables of up to five ages that end with certain death, and their first ages alone (which stop with lives remaining)",
               "complete expectations and continuous contracts are compared for uniform deaths; the force at an age is -log p as documented",
               "table cells are documented to be rounded to seven digits, so values are compared to 1e-6"]
R = A_ = 1e-6


def make(ch, col="q", udd=True):
    lo = ch.minage
    if col == "l":
        kw = dict(l={a: 4096 * ch.p(lo, 0, a - lo) for a in range(lo, ch.omega + 1)})
    elif col == "p":
        kw = dict(p={a: 1 - ch.q(a) for a in range(lo, ch.omega)})
    elif col == "d":
        kw = dict(d={a: 4096 * ch.p(lo, 0, a - lo) * ch.q(a) for a in range(lo, ch.omega)}, q={ch.omega - 1: 1.0})
    else:
        kw = dict(q={a: ch.q(a) for a in range(lo, ch.omega)})
    return LifeTable(udd=udd).set_table(**kw)


def starts(ch, smax=2):
    return [(x, s) for x, s in ch.starts(smax) if ch.p(ch.minage, 0, x + s - ch.minage) > 0]


def survival(ck, ch, col):
    life = make(ch, col)
    for x, s in starts(ch) + [(ch.omega, 0), (ch.omega - 1, 1), (ch.omega + 2, 0), (ch.omega + 1, 2)]:
        past = x + s >= ch.omega
        room = max(0, ch.omega - x - s)
        k0 = dict(ch=ch, col=col, x=x, s=s)
        l0 = lambda: life.l_x(ch.minage)
        ck.eq("l_x", k0, lambda: life.l_x(x, s=s) / l0(), ch.p(ch.minage, 0, x + s - ch.minage) if not past else 0.0, R, A_)
        if past:
            ck.eq("past.p_x", k0, lambda: life.p_x(x, s=s), 0.0)
            ck.eq("past.q_x", k0, lambda: life.q_x(x, s=s), 1.0)
            ck.eq("past.d_x", k0, lambda: life.d_x(x, s=s), 0.0)
            ck.eq("past.e_x", k0, lambda: life.e_x(x, s=s), 0.0)
            continue
        ck.eq("mu_x", k0, lambda: life.mu_x(x, s=s), -math.log(max(1e-5, 1 - ch.q(x, s))), R, A_)
        for t in range(0, room + 3):
            k = dict(k0, t=t)
            w = math.fsum(p for j, p in ch.paths(x, s, ck) if j >= t)
            ck.eq("p_x", k, lambda: life.p_x(x, s=s, t=t), w, R, A_)
            ck.eq("S", k, lambda: life.S(x, s, t), w, R, A_)
            ck.eq("d_x", k, lambda: life.d_x(x, s=s, t=t) / life.l_x(x, s=s), 1 - w, R, A_)
            for u in range(0, room + 2):
                ck.eq("q_x", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u),
                      math.fsum(p for j, p in ch.paths(x, s) if u <= j < u + t), R, A_)
        for t in [M.WHOLE] + list(range(0, room + 3)):
            n = math.inf if t == M.WHOLE else t
            for mom in (1, 2, -2):
                g = lambda T: min(T, n)
                w = ch.VK(x, s, g) if mom == -2 else ch.EK(x, s, lambda T: g(T) ** mom)
                ck.eq("e_x", dict(k0, t=t, mom=mom), lambda: life.e_x(x, s=s, t=t, moment=mom), w, R, A_)
                w = ch.VT(x, s, g) if mom == -2 else ch.ET(x, s, lambda T: g(T) ** mom)
                ck.eq("e_x.complete", dict(k0, t=t, mom=mom), lambda: life.e_x(x, s=s, t=t, moment=mom, curtate=False), w, R, A_)
        ck.eq("defaults", k0, lambda: [life.p_x(x, s), life.q_x(x, s), life.d_x(x, s) / life.l_x(x, s), life.e_x(x, s)],
              [1 - ch.q(x, s), ch.q(x, s), ch.q(x, s), ch.EK(x, s, lambda j: j)], R, A_)


def fractional(ck, ch):
    udd = ch.between == "udd"
    top = ch.omega if udd else ch.omega - 1
    life = make(ch, "q", udd).set_interest(i=0.25)
    for x, s in starts(ch, 1):
        for r in RS:
            if x + s + r >= top or ch.S(x, s, r) == 0:
                continue
            k0 = dict(ch=ch, x=x, s=s, r=r)
            ri, rf = int(math.floor(r)), r - math.floor(r)
            ck.visit(ch.name, "r", x, s, r)
            ck.eq("l_r", k0, lambda: life.l_r(x, s=s, r=r) / life.l_x(x, s=s), ch.S(x, s, r), R, A_)
            q = ch.q(x, s + ri)
            if rf:
                ck.eq("l", k0, lambda: life.l(x, s + r) / life.l_x(x, s=s), ch.S(x, s, r), R, A_)
                if q < 1:
                    ck.eq("mu", k0, lambda: life.mu(x, s + r), q / (1 - rf * q) if udd else -math.log(1 - q), R, A_)
            elif x + s + r < top:
                ck.eq("l", k0, lambda: life.l(x, s + ri) / life.l_x(x, s=s), ch.S(x, s, r), R, A_)
            if (not udd or rf) and q < 1:
                ck.eq("mu_r", k0, lambda: life.mu_r(x, s=s, r=r), q / (1 - rf * q) if udd else -math.log(1 - q), R, A_)
            for t in TS:
                # past the end of the table nobody survives
                if x + s + r + t > top + (1 if udd else 0):
                    continue
                ck.step()
                k = dict(k0, t=t)
                pt = ch.S(x, s, r + t) / ch.S(x, s, r)
                ck.eq("p_r", k, lambda: life.p_r(x, s=s, r=r, t=t), pt, R, A_)
                ck.eq("q_r", k, lambda: life.q_r(x, s=s, r=r, t=t), 1 - pt, R, A_)
                ck.eq("E_r", k, lambda: life.E_r(x, s=s, r=r, t=t), pt * 1.25 ** -t, R, A_)
                if r == 0:
                    ck.eq("S.r", k, lambda: life.S(x, s, t), pt, R, A_)
                for u in US:
                    if x + s + r + t + u <= top + (1 if udd else 0):
                        ck.eq("q_r.deferred", dict(k, u=u), lambda: life.q_r(x, s=s, r=r, t=t, u=u),
                              (ch.S(x, s, r + u) - ch.S(x, s, r + u + t)) / ch.S(x, s, r), R, A_)
                left = (r + t) == int(r + t) and t > 0
                if not left and x + s + r + t < top:
                    ck.eq("f_r", k, lambda: life.f_r(x, s=s, r=r, t=t), ch.f(x, s, r + t) / ch.S(x, s, r), R, A_)
                    if r == 0 and t != int(t):
                        ck.eq("f", k, lambda: life.f(x, s, t), ch.f(x, s, t), R, A_)
                    if r == 0:
                        ck.eq("f_x", k, lambda: life.f_x(x, s=s, t=t), ch.f(x, s, t), R, A_)
        for t in TS + (2.5,):
            if x + s + t <= top:
                pts = sorted({*range(int(t) + 1), t})
                want = math.fsum((b - a) * h * ch.S(x, s, a + (b - a) * z) for a, b in zip(pts, pts[1:]) for z, h in M.NODES)
                ck.eq("e_r", dict(ch=ch, x=x, s=s, t=t), lambda: life.e_r(x, s=s, t=t), want, R, A_)


def contracts(ck, ch):
    for i in M.RATES:
        v = 1 / (1 + i)
        life = make(ch).set_interest(i=i)
        for x, s in starts(ch):
            room = ch.omega - x - s
            for sp in C.ins_specs(v, room, bs=(3,)):
                for mom in sp.moments:
                    C.compare(ck, "d", life, ch, x, s, i, sp, mom, True, R, A_)
            for sp in C.ann_specs(v, room, bs=(3,)):
                for mom in sp.moments:
                    C.compare(ck, "d", life, ch, x, s, i, sp, mom, True, R, A_)
            k = dict(ch=ch, i=i, x=x, s=s)
            ck.eq("defaults.value", k, lambda: [life.whole_life_insurance(x, s), life.whole_life_annuity(x, s), life.E_x(x, s)],
                  [ch.EK(x, s, M.ins(v)), ch.EK(x, s, M.ann(v)), v * (1 - ch.q(x, s))], R, A_)


def continuous(ck, ch):
    for i in (0.0, 0.25):
        v = 1 / (1 + i)
        life = make(ch).set_interest(i=i)
        for x, s in starts(ch, 1):
            room = ch.omega - x - s
            us, ts = sorted({0, 1, room}), sorted({0, 1, room, room + 1})
            for sp in itertools.chain(C.ins_specs(v, room, bs=(3,), us=us, ts=ts, general=False), C.ann_specs(v, room, bs=(3,), us=us, ts=ts, general=False)):
                if sp.gT and sp.method != "E_x":
                    C.compare(ck, "c", life, ch, x, s, i, sp, 1, False, 2e-4, 2e-4)


def partial(ck, ch):
    """only the first ages of a table are known: everything inside them is determined"""
    for n in range(1, ch.omega - ch.minage):
        last = ch.minage + n            # q known for ages below last
        if ch.p(ch.minage, 0, n) == 0:
            continue
        for col in ("q", "l"):
            if col == "q":
                life = LifeTable().set_table(q={a: ch.q(a) for a in range(ch.minage, last)})
            else:
                life = LifeTable().set_table(l={a: 4096 * ch.p(ch.minage, 0, a - ch.minage) for a in range(ch.minage, last + 1)})
            i, v = 0.25, 0.8
            life.set_interest(i=i)
            for x, s in starts(ch):
                for t in range(0, last - x - s + 1):
                    k = dict(ch=ch, col=col, last=last, x=x, s=s, t=t)
                    ck.visit(ch.name, "part", last, x, s, t)
                    ck.eq("partial.p_x", k, lambda: life.p_x(x, s=s, t=t), ch.p(x, s, t), R, A_)
                    ck.eq("partial.q_x", k, lambda: life.q_x(x, s=s, t=t), 1 - ch.p(x, s, t), R, A_)
                    ck.eq("partial.e_x", k, lambda: life.e_x(x, s=s, t=t), ch.EK(x, s, lambda j: min(j, t)), R, A_)
                    ck.eq("partial.E_x", k, lambda: life.E_x(x, s=s, t=t), ch.EK(x, s, M.pure(v, t)), R, A_)
                    ck.eq("partial.term", k, lambda: life.term_insurance(x, s=s, t=t), ch.EK(x, s, M.ins(v, t)), R, A_)
                    ck.eq("partial.endowment", k, lambda: life.endowment_insurance(x, s=s, t=t), ch.EK(x, s, M.ins(v, t, endow=1)), R, A_)
                    ck.eq("partial.annuity", k, lambda: life.temporary_annuity(x, s=s, t=t), ch.EK(x, s, M.ann(v, t)), R, A_)
                    for u in range(0, last - x - s - t + 1):
                        ck.eq("partial.q_x.u", dict(k, u=u), lambda: life.q_x(x, s=s, t=t, u=u), ch.p(x, s, u) - ch.p(x, s, u + t), R, A_)
                        ck.eq("partial.deferred", dict(k, u=u), lambda: life.deferred_insurance(x, s=s, t=t, u=u), ch.EK(x, s, M.ins(v, t, u)), R, A_)


def explore(ck):
    long.lookups(ck)
    signatures(ck, "LifeTable")
    ul = M.ultimates(ck.thorough)
    items = [("s", c, col) for c in ul for col in ("q", "l", "p", "d")]
    items += [("f", c) for c in ul[:8] + [M.Chain("k3", [.25, .5, .125, 1.], 2, b) for b in ("udd", "cfm")]
              + [c for c in M.ultimates(ck.thorough, between="cfm") if not c.name.startswith("u1/")]]
    items += [("c", c) for c in ul + M.ultimates(False, minage=0)[:3]] + [("p", c) for c in ul]
    items += [("t", c) for c in (ul[1::3] if not ck.thorough else ul)]
    fn = dict(s=lambda c, a, b: survival(c, a, b), f=fractional, c=contracts, t=continuous, p=partial)
    ck.each(items, lambda c, it: fn[it[0]](c, *it[1:]))
