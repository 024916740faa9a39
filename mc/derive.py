"""Reading the derivations the recursion engine prints: lines of the form  LEFT = RIGHT   ~rule."""
import re
from .facts import F, WHOLE

SYMBOL = re.compile(r"(q|p|e|E|IA|DA|A|a)_(-?\d+)(?:\(([^)]*)\))?")
TOKEN = re.compile(r"\s*(?:(" + SYMBOL.pattern + r")|(\d+(?:\.\d+)?(?:e-?\d+)?)|(endow|[vdbt])(?![A-Za-z_])|([-+*/^()\[\]]))")


class Unreadable(Exception):
    pass


def term(text):
    """a printed symbol as the quantity it stands for"""
    m = SYMBOL.fullmatch(text)
    if not m:
        raise Unreadable(text)
    kind, x, args = m[1], int(m[2]), {}
    for a in (m[3] or "").split(","):
        if not a:
            continue
        k, _, v = a.partition("=")
        if k in ("curtate", "complete"):
            args["curtate"] = k == "curtate"
        elif k == "var":
            args["variance"] = True
        else:
            args[{"defer": "u", "endow": "endowment", "mom": "moment"}.get(k, k)] = WHOLE if v == "WL" else float(v) if "." in v else int(v)
    return F(kind, x, **args)


def title(line):
    m = re.fullmatch(r" \*(.+?) ([A-Za-z]+_-?\d+(?:\([^)]*\))?|[01]) :=", line)
    if not m:
        raise Unreadable(line)
    return m[1], m[2]


def read(text):
    """(label, asked symbol, [(left, right, rule)]) of one printed derivation"""
    lines = [l for l in text.split("\n") if l.strip()]
    if not lines:
        return None
    label, asked = title(lines[0])
    out = []
    for l in lines[1:]:
        m = re.fullmatch(r"\s{3,}(\S.*?)\s{5,}~(\S.*)", l)
        if not m or "=" not in m[1]:
            raise Unreadable(l)
        left, _, right = re.sub(r"(\([^)]*\))", lambda k: k[1].replace("=", ":"), m[1]).partition("=")
        out.append((left.replace(":", "=").strip(), right.replace(":", "=").strip(), m[2].strip()))
    return label, asked, out


def tokens(text):
    pos, out = 0, []
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unreadable(text)
        pos = m.end()
        if m[1]:
            out.append(("sym", m[1]))
        elif m[5]:
            out.append(("num", float(m[5])))
        elif m[6]:
            out.append(("name", m[6]))
        else:
            out.append(("op", {"[": "(", "]": ")"}.get(m[7], m[7])))
    return out


def evaluate(text, value, names, tokens=tokens):
    """the number a printed expression stands for; juxtaposition multiplies"""
    toks, used = tokens(text), []

    def peek():
        return toks[0] if toks else (None, None)

    def eat(op):
        if peek() != ("op", op):
            raise Unreadable(text)
        toks.pop(0)

    def expr():
        acc = prod()
        while peek() in (("op", "+"), ("op", "-")):
            if toks.pop(0)[1] == "+":
                acc += prod()
            else:
                acc -= prod()
        return acc

    def prod():
        acc = power()
        while toks:
            if peek() == ("op", "*"):
                toks.pop(0)
                acc *= power()
            elif peek() == ("op", "/"):
                toks.pop(0)
                acc /= power()
            elif peek()[0] in ("sym", "term", "num", "name") or peek() == ("op", "("):
                acc *= power()
            else:
                break
        return acc

    def power():
        base = atom()
        if peek() == ("op", "^"):
            toks.pop(0)
            return base ** power()
        return base

    def atom():
        if not toks:
            raise Unreadable(text)
        k, v = toks.pop(0)
        if k == "num":
            return v
        if k == "name":
            if v not in names:
                raise Unreadable(text)
            return names[v]
        if k in ("sym", "term"):
            used.append(v)
            try:
                return value(term(v) if k == "sym" else v)
            except (IndexError, KeyError, TypeError, ValueError):    # nothing the life has: an age past the last, a negative term
                raise Unreadable(text)
        if v == "-":
            return -atom()
        if v == "(":
            r = expr()
            eat(")")
            return r
        raise Unreadable(text)
    r = expr()
    if toks:
        raise Unreadable(text)
    return r, used


# the same in LaTeX notation, braces left out
LAGE = r"_x(?:\+(\d+))?"
LTERM = r"(?::\\overline(-?\d+)\|)?"
LATEX = [("q", re.compile(r"(?:_(?:(\d+)\|)?(\d+|\\infty)?)?q" + LAGE)),
         ("p", re.compile(r"(?:_(\d+))?p" + LAGE)),
         ("E", re.compile(r"(?:_(-?\d+))?E" + LAGE)),
         ("e", re.compile(r"(Var\[|E\[)?(\\overset\\circ)?e" + LAGE + LTERM + r"(?:\^(\d)\]|\])?")),
         ("I", re.compile(r"\((IA|DA)\)" + LAGE + LTERM + r"(?:\* (\d+(?:\.\d+)?))?")),
         ("A", re.compile(r"(?:_(\d+)\|)?(?:\^(\d))?A(\^1)?" + LAGE + LTERM + r"(?:\* (\d+(?:\.\d+)?))?")),
         ("a", re.compile(r"(Var\[)?(?:_(\d+)\|)?\\ddota" + LAGE + LTERM + r"(?:\* (\d+(?:\.\d+)?))?\]?"))]
LPLAIN = re.compile(r"(\d+(?:\.\d+)?(?:e-?\d+)?)|(endow|[vdb])(?![A-Za-z_])|([-+*/^()\[\]])")


def num(t, other=None):
    return other if t is None else float(t) if "." in t else int(t)


def lterm(kind, g):
    if kind == "q":
        u, t, x = g
        return F("q", num(x, 0), t=WHOLE if t == "\\infty" else num(t, 1), u=num(u, 0))
    if kind in "pE":
        return F(kind, num(g[1], 0), t=num(g[0], 1))
    if kind == "e":
        wrap, full, x, t, m = g
        return F("e", num(x, 0), t=num(t, WHOLE), curtate=not full, moment=-2 if wrap == "Var[" else num(m, 1))
    if kind == "I":
        return F(g[0], num(g[1], 0), t=num(g[2], WHOLE), b=num(g[3], 1))
    if kind == "A":
        u, m, one, x, t, b = g
        b = num(b, 1)
        return F("A", num(x, 0), t=num(t, WHOLE), u=num(u, 0), b=b, moment=num(m, 1), endowment=b if t is not None and not one else 0)
    var, u, x, t, b = g
    return F("a", num(x, 0), t=num(t, WHOLE), u=num(u, 0), b=num(b, 1), variance=bool(var))


def ltokens(text):
    text = re.sub(r"\\left|\\right", "", re.sub(r"[{}]", "", text).replace("~", " "))
    pos, out = 0, []
    while pos < len(text):
        if text[pos] == " ":
            pos += 1
            continue
        for kind, r in LATEX:
            m = r.match(text, pos)
            if m:
                out.append(("term", lterm(kind, m.groups())))
                break
        else:
            m = LPLAIN.match(text, pos)
            if not m:
                raise Unreadable(text)
            out.append(("num", float(m[1])) if m[1] else ("name", m[2]) if m[2] else ("op", {"[": "(", "]": ")"}.get(m[3], m[3])))
        pos = m.end()
    return out


def latex_blocks(text):
    """(title tokens, [(left, right)]) of every printed array"""
    out = []
    for b in re.findall(r"\\begin\{array\}\{llll\}\n(.*?)\\end\{array\}", text, re.S):
        head, *rows = b.split("\\\\\n")
        m = re.fullmatch(r"~\\texttt\{([^}]*)\}(.*)~:=", head)
        if not m:
            raise Unreadable(head)
        lines = []
        for r in rows:
            k = re.fullmatch(r"(.*?)& \\quad \\texttt\{([^}]*)\}", r)
            if not k or "=" not in k[1]:
                raise Unreadable(r)
            left, _, right = k[1].partition("=")
            lines.append((left, right, k[2]))
        out.append((m[1], m[2], lines))
    return out
