"""C37: what the recursion engine prints about an answer is true and leads to it."""
import contextlib
import io
import itertools
import re
from actuarialmath import Recursion
from . import derive as D, model as M
from .facts import *
from .c25 import CHAINS, YOUNG, alphabet, chunks, known, queries
from .c26 import sound

ASSUMPTIONS = ["the printed symbols are read as the text notation of the engine: q_x(t=,defer=), p_x(t=), e_x(t=,curtate|complete), E_x(t=,endow=,mom=), A_x(t=,u=,b=,endow=,mom=), a_x(t=,u=,b=,var), IA_x, DA_x; v and d of the interest rate;"
               " b and endow stand for the benefit and endowment on the left of the line; quantities paid continuously are left out because the notation does not show it",
               "a derivation is asked to be complete when the facts given are those of one textbook relation and the benefit is one; otherwise only its lines must be true"]
R = 1e-9


def discrete(f):
    return dict(f[1:]).get("discrete") is not False


def traced(life, q, s, latex=False):
    """(answer, printed text)"""
    out = io.StringIO()
    Recursion.blog_options(latex=latex, notebook=False)
    try:
        with contextlib.redirect_stdout(out):
            try:
                v = ask(life, q, s)
            except Exception:
                v = None
    finally:
        Recursion.blog_options(latex=False, notebook=False)
    return v, out.getvalue()


def blocks(text):
    return [b for b in re.split(r"(?m)^(?= \*)", text) if b.strip()]


def canon(f):
    """facts that differ only in how they are written"""
    kind, k = f[0], dict(f[1:])
    b = k.pop("b", 1)
    k = {a: c for a, c in k.items() if not (a == "discrete" or (a == "moment" and c == 1) or (a == "u" and c == 0) or (a == "variance" and not c) or (a == "t" and c == WHOLE))}
    if kind in "qp" or kind == "E":
        k.setdefault("t", 1) if ("t", WHOLE) not in f else k.setdefault("t", WHOLE)
    if kind == "e":
        k.setdefault("curtate", False)
    if kind == "A":
        e = k.pop("endowment", 0)
        if e and b:
            k["endowment"] = 1 if e == b else e
    if kind == "E":
        k.pop("endowment", None)
    return F(kind, **k)


def trivial(c):
    k = dict(c[1:])
    t = k.get("t")
    return t == 0 or (t == 1 and not k.get("u") and (c[0] == "a" or (c[0] == "A" and k.get("endowment") == 1))) or (c[0] == "E" and t == WHOLE)


def names(truth, left):
    k = dict(D.term(left)[1:])
    return dict(v=truth.v, d=1 - truth.v, b=k.get("b", 1), endow=k.get("endowment", 0))


def lossy(f):
    """the LaTeX notation leaves something of it out"""
    k = dict(f[1:])
    b, m = k.get("b", 1), k.get("moment", 1)
    return (f[0] == "E" and (m != 1 or k.get("endowment", 1) != 1)) or (f[0] == "A" and (k.get("endowment", 0) not in (0, b) or (m != 1 and b != 1)))


def typeset(ck, truth, args, texts, lt):
    """the LaTeX derivation has the lines of the text one, and where its notation says all, they are as true"""
    try:
        arrays = D.latex_blocks(lt)
    except D.Unreadable as e:
        ck.eq("latex readable", args, lambda: str(e), "a derivation")
        return
    if any(lossy(D.term(w)) for _, _, ts in texts for left, right, _ in ts for k, w in D.tokens(left) + D.tokens(right) if k == "sym"):
        return
    ck.eq("latex lines", args, lambda: [(label, len(ls)) for label, _, ls in arrays], [(label, len(ls)) for label, _, ls in texts])
    for (_, _, ts), (_, asked, ls) in zip(texts, arrays):
        for (left, right, rule), (ll, lr, lrule) in zip(ts, ls):
            ck.eq("latex rule", args, lambda: lrule, rule)
            ck.step()
            line = dict(args, line=ll + "=" + lr)
            n = names(truth, left)
            try:
                want = D.evaluate(left, truth, n)[0]
                a, b = D.evaluate(ll, truth, n, D.ltokens)[0], D.evaluate(lr, truth, n, D.ltokens)[0]
            except ZeroDivisionError:
                continue
            except D.Unreadable as e:
                ck.eq("latex readable", line, lambda: str(e), "an equation")
                continue
            ck.eq("latex true line", line, lambda: b, a, R, R)
            ck.eq("latex same line", line, lambda: a, want, R, R)


def watch(ck, truth, facts, q, s, complete, tag):
    life = engine(truth, facts, s, verbose=True)
    st, r = ck.call(lambda: traced(life, q, s))
    args = dict(truth=truth, facts=show(facts), query=show([q]), s=s)
    if st != "ok":
        return
    got, text = r
    parts = blocks(text)
    ck.step()
    ck.visit(tag, q[0], len(parts), got is None)
    for part in parts:
        try:
            label, asked, lines = D.read(part)
        except D.Unreadable as e:
            ck.eq("readable", args, lambda: str(e), "a derivation")
            continue
        given, derived, used = {canon(f) for f in facts}, set(), []
        for left, right, rule in lines:
            ck.step()

            def line():
                n = names(truth, left)
                a, _ = D.evaluate(left, truth, n)
                b, u = D.evaluate(right, truth, n)
                return a, b, u
            try:
                a, b, u = line()
            except ZeroDivisionError:
                continue
            except D.Unreadable as e:
                ck.eq("readable", dict(args, line=left + " = " + right), lambda: str(e), "an equation")
                continue
            ck.visit(rule, left, right)
            ck.eq("true line", dict(args, line=left + " = " + right), lambda: b, a, R, R)
            derived.add(canon(D.term(left)))
            used += [canon(D.term(x)) for x in u]
        if complete and len(parts) == 1:
            ck.eq("title", args, lambda: canon(D.term(asked)) == canon(q), True)
            ck.eq("reaches", args, lambda: canon(q) in given | derived, True)
            have = given | derived
            have |= {F("p", dict(c[1:])["x"], t=dict(c[1:])["t"]) for c in have if c[0] == "q" and not dict(c[1:]).get("u")}
            have |= {F("q", dict(c[1:])["x"], t=dict(c[1:])["t"]) for c in have if c[0] == "p"}
            ck.eq("from given", args, lambda: [c for c in used if c not in have and not trivial(c)] == [], True)
    if complete:
        # how the answer is displayed does not change it
        ck.eq("silent", args, lambda: ask(engine(truth, facts, s), q, s), got, R, R)
        lv, lt = traced(engine(truth, facts, s, verbose=True), q, s, True)
        ck.eq("latex", args, lambda: lv, got, R, R)
        Recursion.blog_options(latex=True, notebook=False)
        late = engine(truth, facts, s, verbose=True)
        ck.eq("latex options first", args, lambda: traced(late, q, s, True)[1], lt)
        typeset(ck, truth, args, [D.read(p) for p in parts], lt)
        # a quiet engine prints nothing
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ask(engine(truth, facts, s), q, s)
        ck.eq("quiet", args, lambda: out.getvalue(), "")


def work(ck, item):
    truth, cases, s, complete = item
    for tag, facts, q in cases:
        if complete and not sound(truth, tag, list(facts), q):
            continue
        k = dict(q[1:])
        whole = complete and q[0] != "imm" and k.get("b", 1) == 1 and k.get("moment", 1) > 0 and not k.get("variance")
        watch(ck, truth, facts, q, s, whole, tag)


def explore(ck):
    items = []
    for ch, i in ((CHAINS[0], .25), (CHAINS[2], .06), (YOUNG, .25)) + (((CHAINS[1], .06), (CHAINS[2], 1.0)) if ck.thorough else ()):
        t, x0 = Truth(ch, i), ch.minage
        rels = [r for x in range(x0, x0 + (3 if ck.thorough else 2 if ch is not YOUNG else 1)) for n in (1, 2, 3, WHOLE) for b in (1, 3) for r in relations(x, n, b, 2 if n != 2 else 1)]
        rels = list(dict.fromkeys((n, tuple(f), q) for n, f, q in rels if discrete(q) and all(map(discrete, f))))
        known(t, [q for _, _, q in rels], *[f for _, f, _ in rels])
        items += [(t, part, s, True) for s in ((0, 1) if x0 and (ck.thorough or i == .25) else (0,)) for part in chunks(rels, 16)]
    a = Truth(CHAINS[0], .25)
    one = [f for f in alphabet((2, 3), (2,), True) if discrete(f)]
    two = one if ck.thorough else [f for f in alphabet((2, 3), (2,), False) if discrete(f) and f[0] not in ("e", "IA") and not dict(f[1:]).get("variance")]
    qs = [f for f in queries((2, 3), (2,), ck.thorough) if discrete(f)]
    known(a, one, qs)
    pairs = [(p, q) for p in [(f,) for f in one] + list(itertools.combinations(two, 2)) for q in qs]
    items += [(a, [("pair", p, q) for p, q in part], 0, False) for part in chunks(pairs, 64)]
    ck.each(items, work)
