"""pydv.text - structure of symbolic text: a string built by format/join/concatenation is a sequence of pieces
('t', literal text), ('n', integer, format spec), ('v', symbolic string)."""
import string
import z3
from .core import C, Unsupported, _z
from . import values
from .values import SStr, SNum, simp, str_term, mk_fmt

PLAIN = {}     # term -> set of characters the contract excludes from it ("digits": only digits)


def plain(s, excluded):
    """contract: the symbolic string s contains none of the characters; excluded == "digits": digits only, not empty"""
    PLAIN[s.e.sexpr()] = excluded
    return s


def pieces(s):
    out = []

    def add(p):
        if p[0] == "t":
            if p[1] == "":
                return
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + p[1])
                return
        out.append(p)

    def rec(x):
        if isinstance(x, str):
            return add(("t", x))
        if isinstance(x, (int, SNum)) and not isinstance(x, bool):
            return num(x, "")
        if not isinstance(x, SStr):
            raise Unsupported("text of %s" % type(x).__name__)
        m = x.made
        if m and m[0] == "join":
            rec(m[1])
            add(("t", "/"))
            rec(m[2])
        elif m and m[0] == "cat":
            rec(m[1])
            rec(m[2])
        elif m and m[0] == "int":
            num(m[1], "")
        elif m and m[0] == "pieces":
            for p in m[1]:
                rec(p[1]) if p[0] != "n" else num(p[1], p[2])
        elif m and m[0] == "fmt":
            args = iter(m[2])
            for lit, f, spec, conv in string.Formatter().parse(m[1]):
                add(("t", lit))
                if f is not None:
                    a = next(args)
                    if isinstance(a, (SNum, int)):
                        num(a, spec or "")
                    elif spec:
                        raise Unsupported("formatted text")
                    else:
                        rec(a)
        else:
            add(("v", x))

    def num(n, spec):
        if isinstance(n, SNum) and not z3.is_int(n.e):
            raise Unsupported("text of a real number")
        n = values.SN(_z(n))
        if isinstance(n, int):
            add(("t", format(n, spec)))
        else:
            add(("n", n, spec))
    rec(s)
    return out


def build(ps):
    """string of pieces"""
    if all(p[0] == "t" for p in ps):
        return "".join(p[1] for p in ps)
    if len(ps) == 1:
        return ps[0][1] if ps[0][0] == "v" else (mk_fmt("{:%s}" % ps[0][2], [ps[0][1]]) if ps[0][2] else values.str_of(ps[0][1]))
    tm, args = "", []
    for p in ps:
        if p[0] == "t":
            tm += p[1].replace("{", "{{").replace("}", "}}")
        elif p[0] == "n":
            tm += "{:%s}" % p[2] if p[2] else "{}"
            args.append(p[1])
        else:
            tm += "{}"
            args.append(p[1])
    return mk_fmt(tm, args)


def key(s):
    """canonical text of the structure"""
    out = ""
    for p in pieces(s):
        out += p[1] if p[0] == "t" else "<%s%s>" % (p[1].e.sexpr(), ":" + p[2] if p[0] == "n" and p[2] else "")
    return out


def free_of(p, chars):
    """piece p contains none of the characters"""
    if p[0] == "t":
        return not any(ch in p[1] for ch in chars)
    if p[0] == "n":
        return not any(ch.isdigit() or ch == "-" for ch in chars)
    ex = PLAIN.get(p[1].e.sexpr())
    if ex is None:
        return False
    if ex == "digits":
        return not any(ch.isdigit() for ch in chars)
    return all(ch in ex for ch in chars)


def is_digits(p):
    if p[0] == "t":
        return p[1].isdigit()
    if p[0] == "n":
        return p[2] in ("", "d") and C().entails_q(p[1].e >= 0, 1500) or p[2].startswith("0") and p[2].endswith("d") and C().entails_q(p[1].e >= 0, 1500)
    return PLAIN.get(p[1].e.sexpr()) == "digits"


def split(s, sep, maxsplit=-1):
    parts, cur = [], []
    for p in pieces(s):
        if p[0] == "t":
            bits = p[1].split(sep) if maxsplit < 0 else p[1].split(sep, maxsplit - len(parts))
            for k, b in enumerate(bits):
                if k:
                    parts.append(cur)
                    cur = []
                if b:
                    cur.append(("t", b))
        else:
            if not free_of(p, sep) and (maxsplit < 0 or len(parts) < maxsplit):
                raise Unsupported("split of symbolic text")
            cur.append(p)
    parts.append(cur)
    return [build(x) for x in parts]


def starts(s, t):
    p = pieces(s)
    if p and p[0][0] == "t" and (len(p[0][1]) >= len(t) or len(p) == 1):
        return p[0][1].startswith(t)
    raise Unsupported("startswith")


def ends(s, t):
    p = pieces(s)
    if p and p[-1][0] == "t" and (len(p[-1][1]) >= len(t) or len(p) == 1):
        return p[-1][1].endswith(t)
    raise Unsupported("endswith")


def basename(s):
    """the part after the last slash"""
    out = []
    for p in reversed(pieces(s)):
        if p[0] == "t" and "/" in p[1]:
            out.append(("t", p[1].rsplit("/", 1)[1]))
            break
        if not free_of(p, "/"):
            raise Unsupported("basename of symbolic text")
        out.append(p)
    return build([p for p in reversed(out) if p[1] != ""])
