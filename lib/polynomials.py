"""Polynomials through the programs of the integration library."""
import math, re
from fractions import Fraction
import counting, latte
from checklib import PRIMES


def res(x):
    return [int(x) % p for p in PRIMES]


def unit(n, i):
    return [int(j == i) for j in range(n)]


def term(c, forms, pows):
    """c: a Fraction"""
    return {"coef": [c.numerator * pow(c.denominator, -1, p) % p for p in PRIMES], "forms": forms, "pows": pows}


def zero(kind, ts):
    """whether the listed terms cancel"""
    d = {}
    for t in ts:
        k = (str(t["forms"]), str(t["pows"]))
        d[k] = d.get(k, 0) + Fraction(t["num"], t["den"])
    return not any(d.values())


def text(kind, ts, rng):
    sep = rng.choice([",", ", "])
    seq = lambda v: "[" + sep.join(str(x) for x in v) + "]"
    cs = lambda t: "%d/%d" % (t["num"], t["den"]) if t["den"] != 1 or rng.random() < 0.1 else str(t["num"])
    if kind == "mono":
        out = ["[%s%s%s]" % (cs(t), sep, seq(t["pows"])) for t in ts]
    elif kind == "lin":
        out = ["[%s%s[%d%s%s]]" % (cs(t), sep, t["pows"][0], sep, seq(t["forms"][0])) for t in ts]
    else:
        out = ["[%s%s[%s]]" % (cs(t), sep, sep.join("[%d%s%s]" % (m, sep, seq(l)) for m, l in zip(t["pows"], t["forms"]))) for t in ts]
    return "[" + sep.join(out) + "]"


NUM = r"-?\d+(?:/\d+)?"


def nested(s):
    """a nested list of rationals; ValueError otherwise"""
    s = "".join(s.split())
    if not re.fullmatch(r"[\[\],\-/0-9]*", s) or not s.startswith("["):
        raise ValueError(s[:80])
    t = re.sub(NUM, lambda m: '"%s"' % m.group(0), s)
    import json
    def conv(x):
        return [conv(y) for y in x] if isinstance(x, list) else Fraction(x)
    return conv(json.loads(t))


def vec(v, n):
    if len(v) != n or any(x.denominator != 1 or abs(x) >= 2 ** 30 for x in v):
        raise ValueError("entries")
    return [int(x) for x in v]


def read_monomials(s, n):
    return [term(c, [unit(n, i) for i in range(n)], vec(e, n)) for c, e in nested(s)]


def read_forms(s, n):
    return [term(c / math.factorial(int(d)), [vec(l, n)], [int(d)]) for c, (d, l) in nested(s)]


def read_products(s, n):
    out = []
    for part in s.split("|"):
        if not part.strip():
            continue
        c, forms, pows = Fraction(1), [], []
        for cc, (d, l) in nested(part):
            c *= cc / math.factorial(int(d))
            forms.append(vec(l, n))
            pows.append(int(d))
        out.append(term(c, forms, pows))
    return out


class Out:
    """collects the runs of a case"""
    def __init__(self):
        self.runs = []

    def add(self, item, what, r, must, prog, txt=None, read=None, n=0, answers=None):
        o = {"item": item, "what": what, "rc": counting.rc_of(r), "must": must, "got": False, "list": [], "answers": [], "prog": prog, "text": (txt or "")[:300]}
        if answers is not None:
            o["answers"], o["got"] = answers, bool(answers)
        elif txt is not None:
            try:
                o["list"], o["got"] = read(txt, n), True
            except (ValueError, TypeError, ZeroDivisionError):
                o["rc"] = "cannot be read"
        if o["rc"] == "timeout":
            o["must"] = False
        self.runs.append(o)


def answer(num, den):
    return [{"num": res(num), "den": res(den)}] if num is not None else []


def observe(c):
    """c['_items']: the generated items; c['_text']: their texts"""
    kind, items = c["kind"], c["_items"]
    o = Out()
    must = not c["_zero"]
    simp = lambda it: "[" + ",".join("[%s]" % ",".join(map(str, v)) for v in it["simplex"]) + "]"
    lines = c["_text"]
    two = "".join("%s\n%s\n" % (l, simp(it)) for it, (l, r) in zip(items, lines))
    N = len(items)
    if kind == "prod":
        r = latte.run("hpoly", ["in", "out"], {"in": "".join("products %s\n" % l for l, _ in lines)}, want=["out"])
        got = (r.files["out"] or "").split("\n")[:-1]
        for i, it in enumerate(items):
            o.add(i + 1, "value", r, must, "products", got[i] if i < len(got) else None, read_products, it["n"])
    else:
        name = "monomials" if kind == "mono" else "forms"
        read = read_monomials if kind == "mono" else read_forms
        for pre in ("", "block"):
            r = latte.run("hpoly", ["in", "out"], {"in": "".join("%s%s %s\n" % (pre, name, l) for l, _ in lines)}, want=["out"])
            got = (r.files["out"] or "").split("\n")[:-1]
            for i, it in enumerate(items):
                o.add(i + 1, "value", r, must, pre + name, got[i] if i < len(got) else None, read, it["n"])
        whole = [it["det"] != 0 for it in items]
        for prog in ("BurstIntegrate", "BlockIntegrate"):
            r = latte.run(prog, ["in", "out", "polynomial" if kind == "mono" else "linear"], {"in": two}, want=["out"])
            got = (r.files["out"] or "").split()
            for i, it in enumerate(items):
                o.add(i + 1, "integral", r, must and all(whole), prog, answers=answer(*got[2 * i:2 * i + 2]) if 2 * i + 1 < len(got) else [])
        m = ["-m"] if kind == "mono" else []
        r = latte.run("integrate_test", m + ["in", "out"], {"in": two}, want=["out"])
        got = (r.files["out"] or "").split("\n")[:-1]
        for i, it in enumerate(items):
            if m:
                o.add(i + 1, "value", r, must and all(whole), "integrate_test", got[2 * i] if 2 * i < len(got) else None, read_forms, it["n"])
            j = 2 * i + 1 if m else i
            q = re.fullmatch(r"\[(-?\d+),(-?\d+)\]", got[j]) if j < len(got) else None
            o.add(i + 1, "integral", r, must and all(whole), "integrate_test", answers=answer(*q.groups()) if q else [])
        if c["_demo"]:
            r = latte.run("integrate_demo", m + ["in", "out"], {"in": two}, want=["out"])
            got = re.findall(r"\\frac\{(-?\d+)\}\{(-?\d+)\}", r.files["out"] or "")
            pol = [l for l in r.out.split("\n") if l.startswith("[[")]
            for i, it in enumerate(items):
                if m:
                    o.add(i + 1, "value", r, must and all(whole), "integrate_demo", pol[i] if i < len(pol) else None, read_monomials, it["n"])
                o.add(i + 1, "integral", r, must and all(whole), "integrate_demo", answers=answer(*got[i]) if i < len(got) else [])
        if kind == "mono":
            r = latte.run("multiply_test", ["in", "out"], {"in": "".join("%s\n%s\n" % p for p in lines)}, want=["out"])
            got = (r.files["out"] or "").split("\n")[:-1]
            mustm = must and not c["_zeror"]
            for i, it in enumerate(items):
                o.add(i + 1, "product", r, mustm, "multiply_test", got[i] if i < len(got) else None, read_monomials, it["n"])
            j = lambda v: " ".join(map(str, v))
            for cmd, what in (("times", "window"), ("blocktimes", "window"), ("plaintimes", "product")):
                r = latte.run("hpoly", ["in", "out"], {"in": "".join(
                    "%s %s%s;%s\n" % (cmd, "" if what == "product" else "%s;%s;" % (j(it["low"]), j(it["high"])), a, b)
                    for it, (a, b) in zip(items, lines))}, want=["out"])
                got = (r.files["out"] or "").split("\n")[:-1]
                for i, it in enumerate(items):
                    o.add(i + 1, what, r, mustm, cmd, got[i] if i < len(got) else None, read_monomials, it["n"])
    c["runs"] = o.runs
    return c


def case(kind, items, rng):
    c = {"kind": kind, "items": [], "_items": items, "runs": [], "_text": [(text(kind, g["left"], rng), text(kind, g["right"], rng)) for g in items],
         "_zero": any(zero(kind, g["left"]) for g in items), "_zeror": any(zero(kind, g["right"]) for g in items), "_demo": rng.random() < 0.5}
    ts = lambda l: [term(Fraction(t["num"], t["den"]), t["forms"], t["pows"]) for t in l]
    for g in items:
        c["items"].append({"n": g["n"], "left": ts(g["left"]), "right": ts(g["right"]), "simplex": g["simplex"], "det": g["det"], "low": g["low"],
                           "high": g["high"], "at": [[rng.randrange(p) for _ in range(g["n"])] for p in PRIMES]})
    return c


def describe(c, why):
    k = counting.event(why)
    o = c["runs"][k] if k is not None else None
    return {"why": why, "observed": {x: o[x] for x in ("item", "what", "rc", "prog", "text", "answers")} if o else None,
            "texts": c["_text"], "simplices": [g["simplex"] for g in c["_items"]], "windows": [(g["low"], g["high"]) for g in c["_items"]]}
