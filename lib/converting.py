"""Descriptions written by the converters and read back."""
import re
from fractions import Fraction
import counting, latte
from checklib import PRIMES

NUM = re.compile(r"[+-]?\d+(/\d+)?$")


def entry(x):
    x = Fraction(x)
    return {"s": (x > 0) - (x < 0), "r": [x.numerator * pow(x.denominator, -1, p) % p for p in PRIMES]}


def desc(rows, eqs=(), nn=(), bad=""):
    """1-based eqs and nn"""
    return {"rows": [[entry(x) for x in r] for r in rows], "eqs": list(eqs), "nn": list(nn), "bad": bad, "_plain": [[str(x) for x in r] for r in rows]}


def bad(why):
    return desc([], bad=why)


def matrix(words, m, n):
    if len(words) < m * n:
        return None
    if not all(NUM.match(w) for w in words[:m * n]):
        return None
    return [[Fraction(w) for w in words[i * n:(i + 1) * n]] for i in range(m)]


def read_latte(text):
    w = text.split()
    if len(w) < 2 or not w[0].isdigit() or not w[1].isdigit():
        return bad("no header")
    m, n = int(w[0]), int(w[1])
    rows = matrix(w[2:], m, n)
    if rows is None:
        return bad("not %d rows of %d numbers" % (m, n))
    rest, eqs, nn = w[2 + m * n:], [], []
    while rest:
        if rest[0] not in ("linearity", "nonnegative") or len(rest) < 2 or not rest[1].isdigit() or len(rest) < 2 + int(rest[1]):
            return bad("unreadable lines after the matrix")
        k = int(rest[1])
        (eqs if rest[0] == "linearity" else nn).extend(int(x) for x in rest[2:2 + k])
        rest = rest[2 + k:]
    return desc(rows, eqs, nn)


def read_cdd(text, kind):
    lines = [l.split() for l in text.splitlines() if l.strip() and not l.startswith("*")]
    try:
        b, e = lines.index(["begin"]), lines.index(["end"])
    except ValueError:
        return bad("no begin or end")
    eqs, head = [], []
    for l in lines[:b]:
        if l[0] == "linearity":
            if len(l) != 2 + int(l[1]):
                return bad("a bad linearity line")
            eqs += [int(x) for x in l[2:]]
        else:
            head += l
    if head != [kind + "-representation"]:
        return bad("not a %s-representation" % kind)
    m, n, typ = lines[b + 1]
    words = [x for l in lines[b + 2:e] for x in l]
    rows = matrix(words, int(m), int(n))
    if rows is None or len(words) != int(m) * int(n):
        return bad("not %s rows of %s numbers" % (m, n))
    if typ == "integer" and any(x.denominator != 1 for r in rows for x in r):
        return bad("fractions in an integer matrix")
    return desc(rows, eqs)


def cdd_text(kind, n, rows, eqs, typ, where):
    """where: the linearity line before 'begin' or after 'end'"""
    lin = "linearity %d %s\n" % (len(eqs), " ".join(str(i) for i in eqs)) if eqs else ""
    return "%s-representation\n%sbegin\n%d %d %s\n%send\n" % (kind, lin, len(rows), n + 1, typ, "".join(" ".join(str(x) for x in r) + "\n" for r in rows))


def file_event(what, r, text, read, must=True, whole=False):
    rc = counting.rc_of(r)
    d = read(text) if rc == "ok" and text is not None else bad("no file")
    integral = all("/" not in x for row in d["_plain"] for x in row)
    return {"what": "file", "how": what, "rc": rc, "must": must, "whole": whole, "integral": integral, "desc": d, "val": [], "_text": text, "_err": r.err[-300:]}


def count_event(what, r, must):
    o = counting.observe(r, [], must)
    return {"what": "count", "how": what, "rc": o["rc"], "must": must, "whole": False, "integral": True, "desc": desc([]), "val": o["file"] or o["out"], "_text": "", "_err": r.err[-300:]}
