"""C31: m-thly contracts against enumeration of the chain refined to 1/m-years."""
import itertools, math
from actuarialmath import LifeTable, Annuity, Mthly, Contract
from . import long
from . import model as M
from . import c23, c28
from .sigs import signatures

ASSUMPTIONS = ["an annuity of b pays b/m at the start of each 1/m-year; benefit functions take the time at the start of the 1/m-year of death, as documented",
               "under constant force, death in a year of certain death occurs at its start",
               "continuous payment (m = 0) is compared to the accuracy of numerical integration, for uniform deaths and mortality laws"]
WHOLE, VAR = M.WHOLE, -2
MS = (1, 2, 4, 12)


def sharp(ch):
    """constant force over a year of certain death: infinite force, so death at once"""
    if ch.between == "cfm":
        base = ch.S

        def S(x, s, t):
            k, r = M._split(t)
            return 0.0 if r and ch.q(x, s + k) == 1.0 else base(x, s, t)
        ch.S = S
    return ch


def worlds(thorough):
    """(chain, how to make the life, continuous contracts too)"""
    out = []
    for bt in ("udd", "cfm"):
        for n, ch in enumerate(M.ultimates(thorough, between=bt)):
            sharp(ch)
            out.append((ch, lambda ch=ch, bt=bt: LifeTable(udd=bt == "udd").set_table(q={a: ch.q(a) for a in range(ch.minage, ch.omega)}), bt == "udd" and n % 3 == 0))
        for n, ch in enumerate(M.selects(thorough, between=bt)):
            sharp(ch)
            if bt == "udd":
                out.append((ch, lambda ch=ch, bt=bt: Annuity(udd=bt == "udd").set_survival(S=ch.S, f=ch.f, minage=ch.minage, maxage=ch.omega), False))
        for w in (c23.WORLDS + (c23.MORE if thorough else []))[:5]:
            ch = sharp(c23.build(*w, 0.25, between=bt))
            out.append((ch, lambda ch=ch: c23.make(ch, "q", 0.25), False))
    for ch in c28.laws(thorough):
        if ch.radix:
            out.append((ch, ch.make, ch.smooth))
    return out


class Spec:
    def __init__(self, method, kw, g, moments=(1,), gT=None, ann=False):
        self.method, self.kw, self.g, self.moments, self.gT, self.ann = method, kw, g, moments, gT, ann

    def label(self):
        return ",".join(f"{k}={'fn' if callable(v) else v}" for k, v in self.kw.items())


def flow(v, t, u, b):
    """b a year paid continuously from u to u+t while alive: the integral of b v^r"""
    def g(T):
        top = T if t == WHOLE else min(T, u + t)
        return b * ((top - u) if v == 1 else (v ** u - v ** top) / -math.log(v)) if top > u else 0.0
    return g


def lumpy(r):
    return 2.0 + 3 * (int(r * 4 + 1e-9) % 3)


def rising(r):
    return 1.0 + r


def specs(v, m, room, bs=(1, 3), var=False):
    """payoffs given the 1/m-year j of death; gT: given the time of death (m = 0)"""
    h = m or 1
    us, ts = sorted({0, 1, 2, room, room + 1}), list(range(0, room + 2))

    def ins(t, u, b, e=0.0):
        def g(j):
            if j < u * h:
                return 0.0
            if t == WHOLE or j < (u + t) * h:
                return b(j / h) * v ** ((j + 1) / h)
            return e * v ** (u + t)
        return g

    def ann(t, u, b, skip=0):
        n = math.inf if t == WHOLE else t * h
        return lambda j: b / h * math.fsum(v ** (k / h) for k in range(u * h + skip, int(min(j, u * h + n - 1 + skip)) + 1))
    three = (1, 2, VAR)
    for t in ts:
        for e in (1, 3):
            yield Spec("E_x", dict(t=t, endowment=e), lambda j: e * v ** t if j >= t * h else 0.0, (1, 2), lambda T: e * v ** t if T >= t else 0.0)
    for b in bs:
        one = lambda r: b
        yield Spec("whole_life_insurance", dict(b=b), ins(WHOLE, 0, one), three, M.insT(v, b=one))
        yield Spec("whole_life_annuity", dict(b=b), ann(WHOLE, 0, b), (1, VAR), flow(v, WHOLE, 0, b), True)
        for t in ts + [WHOLE]:
            yield Spec("term_insurance", dict(t=t, b=b), ins(t, 0, one), three, M.insT(v, t, b=one))
            yield Spec("temporary_annuity", dict(t=t, b=b), ann(t, 0, b), (1, VAR), flow(v, t, 0, b), True)
            yield Spec("immediate_annuity", dict(t=t, b=b), ann(t, 0, b, 1), (1,), flow(v, t, 0, b), True)
            if t != WHOLE:
                for e in (None, 0, 2):
                    pay = b if e is None else e
                    yield Spec("endowment_insurance", dict(t=t, b=b) if e is None else dict(t=t, b=b, endowment=e), ins(t, 0, one, pay), three,
                               M.insT(v, t, 0, one, pay))
            for u in us:
                yield Spec("deferred_insurance", dict(u=u, t=t, b=b), ins(t, u, one), three, M.insT(v, t, u, one))
                yield Spec("deferred_annuity", dict(u=u, t=t, b=b), ann(t, u, b), (1, VAR) if var else (1,), flow(v, t, u, b), True)
    for t in ts + [WHOLE]:
        for u in us:
            for b in (lumpy, rising):
                yield Spec("A_x", dict(t=t, u=u, benefit=lambda x, r, b=b: b(r)), ins(t, u, b), (1, 2), M.insT(v, t, u, b) if b is rising else None)


def starts(ch):
    if isinstance(ch, c28.LawChain):
        return [(x, s) for x in sorted({0, 2, ch.limit - 2, ch.limit - 1}) for s in (0, 1) if x + s < ch.limit]
    return [(x, s) for x, s in (ch.starts(2) if not hasattr(ch, "t") else ch.starts()) if ch.p(x, 0, s) > 0 and not (not hasattr(ch, "t") and ch.nsel == 0 and s > 1)
            and ch.p(ch.minage, 0, max(0, x + s - ch.minage) if ch.nsel == 0 else 0) > 0]


def last(ch):
    return ch.last if hasattr(ch, "t") else ch.limit if isinstance(ch, c28.LawChain) else ch.omega


def value(ch, x, s, sp, mom, m, ck):
    if m == 0:
        return ch.VT(x, s, sp.gT, ck) if mom == VAR else ch.ET(x, s, (lambda T: sp.gT(T) ** mom), ck)
    d = dist(ch, x, s, m)
    if mom == VAR:
        mean = math.fsum(pr * sp.g(j) for j, pr in d)
        return math.fsum(pr * (sp.g(j) - mean) ** 2 for j, pr in d)
    return math.fsum(pr * sp.g(j) ** mom for j, pr in d)


def dist(ch, x, s, m):
    """[(1/m-year of death, probability)] along every path of the refined chain"""
    memo = ch.__dict__.setdefault("_refined", {})
    if (x, s, m) not in memo:
        out = []
        ch.Em(x, s, lambda j: out.append(j) or 0.0, m)
        memo[x, s, m] = [(j, p) for j in out if (p := ch.Em(x, s, lambda k, j=j: float(k == j), m)) > 0]
    return memo[x, s, m]


def contracts(ck, item):
    ch, make, m, i, klass, tag = item
    v = 1 / (1 + i)
    life = make().set_interest(i=i)
    pay = klass(m=m, life=life)
    R = 4e-4 if m == 0 and klass is Mthly else 1e-6
    for x, s in starts(ch):
        room = last(ch) - x - s
        bs = (1, 3) if s == 0 else (3,)
        for sp in specs(v, m, room if not isinstance(ch, c28.LawChain) else min(room, 2), bs, klass is not Mthly):
            if m == 0 and sp.gT is None or sp.method == "A_x" and klass is not Mthly:
                continue
            for mom in sp.moments:

                kw = dict(sp.kw)
                if mom != 1:
                    kw.update(dict(variance=True) if sp.ann else dict(moment=mom))
                ck.visit(ch.name, x, s, m)
                ck.step()
                ck.eq(sp.method, (f"{tag}{ch},m={m},i={i},x={x},s={s},{sp.label()},mom={mom}",), lambda: getattr(pay, sp.method)(x, s=s, **kw),
                      value(ch, x, s, sp, mom, m, ck), R, R * 3)


def probabilities(ck, item):
    ch, make, m, i = item
    v = 1 / (1 + i)
    life = make().set_interest(i=.5)
    pay = Mthly(m=m, life=life)
    life.set_interest(i=i)                  # values follow the rate last set
    R = 1e-6
    S = lambda x, s, k: ch.S(x, s, k / m)
    for k in range(0, 3 * m + 1):
        ck.eq("v_m", dict(m=m, i=i, k=k), lambda: pay.v_m(k), v ** (k / m), 1e-12, 1e-12)
    hop = 1 if m <= 4 else 5
    for x, _ in starts(ch):
        if _:
            continue
        room = min(last(ch) - x, 4) * m
        for a in range(0, room, hop):
            if S(x, 0, a) == 0 or (hasattr(ch, "t") and x + math.ceil(a / m) >= ch.last):
                continue
            s0, r0 = a // m, (a % m) / m
            base = ch.S(x, s0, r0)
            if base == 0:
                continue
            live = lambda k: ch.S(x, s0, r0 + k / m) / base if r0 else ch.S(x, s0, k / m)
            for t in range(0, room - a + 1, hop):
                ck.visit(ch.name, "m", m, x, a, t)
                k = dict(ch=ch, m=m, x=x, s_m=a, t_m=t)
                ck.eq("p_m", k, lambda: pay.p_m(x, s_m=a, t_m=t), live(t), R, R)
                ck.eq("q_m", k, lambda: pay.q_m(x, s_m=a, t_m=t), 1 - live(t), R, R)
                for u in range(0, room - a - t + 1, max(1, hop)):
                    ck.eq("q_m.u", dict(k, u_m=u), lambda: pay.q_m(x, s_m=a, t_m=t, u_m=u), live(u) - live(u + t), R, R)
        ck.eq("defaults", dict(ch=ch, m=m, x=x), lambda: [pay.p_m(x), pay.q_m(x)], [ch.S(x, 0, 1 / m), 1 - ch.S(x, 0, 1 / m)], R, R)
    for x, s in starts(ch):
        room = last(ch) - x - s
        for t in range(1, min(room, 3) + 1):        # amounts that depend on the age attained
            k = dict(ch=ch, m=m, i=i, x=x, s=s, t=t)
            want = ch.Em(x, s, lambda j: (x + s + 2 * j / m) * v ** ((j + 1) / m) if j < t * m else 0., m)
            ck.eq("A_x.age", k, lambda: pay.A_x(x, s=s, t=t, benefit=lambda a, r: a + 2 * r), want, R, R)
            ck.eq("Z_m.age", k, lambda: float((lambda f: (f["Z"] * f["q"]).sum())(pay.Z_m(x, s=s, t=t, benefit=lambda a, r: a + 2 * r))), want, R, R)
        for t in range(1, min(room, 3) + 1):
            for b in (lumpy, rising, None):
                for mom in (1, 2):
                    k = dict(ch=ch, m=m, i=i, x=x, s=s, t=t, b=b and b.__name__, mom=mom)
                    kw = dict(benefit=lambda x, r: b(r)) if b else {}
                    Z = [((b or (lambda r: 1))(j / m) * v ** ((j + 1) / m)) ** mom for j in range(t * m)]
                    q = [ch.Em(x, s, lambda j, h=h: float(j == h), m) for h in range(t * m)]
                    got = ck.call(lambda: pay.Z_m(x, s=s, t=t, moment=mom, **kw))
                    frame = got[1] if got[0] == "ok" else None
                    ck.eq("Z_m", k, lambda: [list(frame.columns), [int(n) for n in frame.index], list(frame["Z"]), list(frame["q"])] if frame is not None else got,
                          [["Z", "q"], list(range(1, m * t + 1)), Z, q], R, R)


def twins(ck, item):
    ch, make, m, i, klass = item
    v = 1 / (1 + i)
    pay = klass(m=m, life=make().set_interest(i=i))
    for x, s in starts(ch):
        room = last(ch) - x - s
        for t in [WHOLE] + list(range(1, room + 1)):
            E = lambda f: ch.Em(x, s, f, m)
            n = math.inf if t == WHOLE else t * m
            a = lambda j: math.fsum(v ** (k / m) / m for k in range(int(min(j, n - 1)) + 1))
            z = lambda j: v ** ((j + 1) / m) if j < n else v ** t
            k = dict(ch=ch, m=m, i=i, x=x, s=s, t=t)
            ck.eq("annuity_twin", k, lambda: pay.annuity_twin(E(z)), E(a), 1e-8, 1e-8)
            ck.eq("insurance_twin", k, lambda: pay.insurance_twin(E(a)), E(z), 1e-8, 1e-8)
            ck.eq("annuity_variance", k, lambda: pay.annuity_variance(A2=E(lambda j: z(j) ** 2), A1=E(z), b=6), 36 * ch.Vm(x, s, a, m), 1e-7, 1e-7)


def explore(ck):
    long.mthly(ck)
    signatures(ck, "Mthly")
    items = []
    W = worlds(ck.thorough)
    for ch, make, cont in W:
        law = isinstance(ch, c28.LawChain)
        for m in MS + ((3, 6, 52) if ck.thorough and not law else ()):
            if m == 12 and not ck.thorough and (law or hasattr(ch, "t") and ch.t.P > 1 or ch.name in ("u002", "u012", "u112")):
                continue
            for i in M.RATES:
                if not ck.thorough and (m == 12 and i != .25 or m == 4 and i == .06 or m == 1 and i == .25):
                    continue
                items.append(("c", (ch, make, m, i, Mthly, "")))
            items.append(("p", (ch, make, m, .25)))
            items.append(("t", (ch, make, m, .06, Mthly)))
        if cont and (ck.thorough or law or ch is W[0][0] or ch.name == "u1"):
            items += [("c", (ch, make, 0, i, Mthly, "")) for i in ((.25, 0.0) if not law or ck.thorough else (.25,))]
        if ch is W[0][0] and not ck.thorough:
            items.append(("c", (ch, make, 12, 0.0, Mthly, "")))
    items.sort(key=lambda it: -it[1][2])
    ck.each(items, lambda c, it: dict(c=contracts, p=probabilities, t=twins)[it[0]](c, it[1]))
