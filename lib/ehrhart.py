"""Cases about Ehrhart polynomials and series, and the observation of runs."""
import re
from fractions import Fraction
from math import ceil, floor, gcd
import counting, formats, latte
from checklib import PRIMES


def res(v):
    return [int(v) % p for p in PRIMES]


def parse_poly(out):
    """' + 1 * t^0 + 4 * t^1 - 1/2 * t^2' -> [[residues of numerator], [of denominator]] per exponent"""
    line = [l for l in out.splitlines() if "t^" in l]
    if not line:
        return None
    terms = re.findall(r"([+-]) (\d+)(?:/(\d+))? \* t\^(\d+)", line[-1])
    if re.sub(r"[+-] \d+(?:/\d+)? \* t\^\d+", "", line[-1]).strip():
        return None
    got = {}
    for s, a, b, e in terms:
        if int(e) in got or int(e) > 500:
            return None
        got[int(e)] = [res((-1 if s == "-" else 1) * int(a)), res(int(b or 1))]
    if not got:
        return None
    return [got.get(i, [[0, 0, 0], [1, 1, 1]]) for i in range(max(got) + 1)]


def parse_taylor(out):
    """coefficients on lines of their own (the projection prints its basis, too)"""
    terms = []
    for w in out.splitlines():
        w = w.strip()
        if not w or w[0] == "[":
            continue
        m = re.fullmatch(r"(-?\d+)(?:t\^(\d+))?", w)
        if not m:
            return None
        terms.append({"e": int(m.group(2) or 0), "c": res(m.group(1))})
    return terms


# ------------------------------------------------------------ rational functions in t
TOK = re.compile(r"\s*(\d+|t\^\(-?\d+\)|t\^-?\d+|t|[-+*/^()])")


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}


def postfix(text):
    """(op, argument) pairs; ^ takes a literal exponent"""
    out, ops, pos, operand, text = [], [], 0, True, text.strip()

    def pop():
        out.append((ops.pop(), None))
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ValueError(text[pos:pos + 20])
        w, pos = m.group(1), m.end()
        if operand:
            if w == "(":
                ops.append(w)
            elif w == "-":
                out.append(("n", 0))
                ops.append("-")      # binary minus of lowest precedence binds the rest of the term
            elif w.isdigit():
                out.append(("n", int(w)))
                operand = False
            elif w[0] == "t":
                out.append(("t", 1 if w == "t" else int(w[2:].strip("()"))))
                operand = False
            else:
                raise ValueError(w)
        elif w == ")":
            while ops and ops[-1] != "(":
                pop()
            if not ops:
                raise ValueError("too many )")
            ops.pop()
        elif w == "^":
            m = re.compile(r"\s*(\d+)").match(text, pos)
            if not m:
                raise ValueError("exponent")
            pos = m.end()
            out.append(("^", int(m.group(1))))
        elif w in PREC:
            while ops and ops[-1] != "(" and PREC[ops[-1]] >= PREC[w]:
                pop()
            ops.append(w)
            operand = True
        else:
            raise ValueError(w)
    while ops:
        if ops[-1] == "(":
            raise ValueError("missing )")
        pop()
    return out


def execute(prog, ts):
    """the program the judge runs; division by zero raises"""
    out, st = [], []
    for o, v in prog:
        if o == "n":
            a = res(v)
            st.append(a)
        elif o == "t":
            a = [v % (p - 1) for p in PRIMES]
            st.append([pow(t, x, p) for t, x, p in zip(ts, a, PRIMES)])
        elif o == "^":
            a = [v] * 3
            if v > 10 ** 6:
                raise ValueError("exponent")
            st.append([pow(x, v, p) for x, p in zip(st.pop(), PRIMES)])
        else:
            a = [0, 0, 0]
            y, x = st.pop(), st.pop()
            if o == "/" and 0 in y:
                raise ZeroDivisionError
            st.append([{"+": lambda: u + v, "-": lambda: u - v, "*": lambda: u * v, "/": lambda: u * pow(v, -1, p)}[o]() % p
                       for u, v, p in zip(x, y, PRIMES)])
        out.append({"o": o, "v": a})
    if len(st) != 1:
        raise ValueError("stack")
    return out


def share(prog):
    """the postfix program as a list of nodes, equal subexpressions shared: a and b are 1-based indices of operands"""
    seen, nodes, st = {}, [], []
    for x in prog:
        o, v = x["o"], x["v"]
        a = b = 0
        if o == "^":
            a = st.pop()
        elif o not in "nt":
            b = st.pop()
            a = st.pop()
        k = (o, a, b, tuple(v))
        if k not in seen:
            nodes.append({"o": o, "a": a, "b": b, "v": v})
            seen[k] = len(nodes)
        st.append(seen[k])
    return nodes + [{"o": "=", "a": st[-1], "b": 0, "v": [0, 0, 0]}]


def parse_series(text, rng):
    """-> {"ts": evaluation points, "prog": postfix program} or None"""
    m = re.fullmatch(r"\s*x\s*:=\s*(.*?)\s*:\s*", text or "", re.S)
    if not m:
        return None
    try:
        prog = postfix(m.group(1))
        for _ in range(40):
            ts = [rng.randrange(2, p - 1) for p in PRIMES]
            try:
                return {"ts": ts, "prog": share(execute(prog, ts))}
            except ZeroDivisionError:
                continue
    except (ValueError, IndexError):
        pass
    return None


# ------------------------------------------------------------ cases
def period(verts):
    q = 1
    for v in verts:
        q = q * v[1] // gcd(q, v[1])
    return q


def work(lo, hi, k):
    """size of the enumeration of the k-th dilation"""
    w = sorted(k * (b - a) + 1 for a, b in zip(lo, hi))
    r = 1
    for x in w[:-1]:
        r *= x
    return r


def box_of(verts):
    n = len(verts[0][0])
    co = [[Fraction(v[0][i], v[1]) for v in verts] for i in range(n)]
    return [floor(min(x)) for x in co], [ceil(max(x)) for x in co]


def observe(c, rng, timeout=60):
    """c['_jobs']: (kind, options, files, N, must)"""
    c["runs"] = []
    for kind, opts, files, N, must in c["_jobs"]:
        name = list(files)[0]
        q = {"poly": "--ehrhart-polynomial", "series": "--ehrhart-series", "taylor": "--ehrhart-taylor=%d" % N}[kind]
        r = latte.run_lucky("count", opts + [q, name], files, want=[name + ".rat"], timeout=timeout)
        o = {"kind": kind, "opts": " ".join(opts), "rc": counting.rc_of(r), "must": must, "N": N, "poly": [], "terms": [], "prog": [],
             "ts": [2, 2, 2], "got": False, "why": ""}
        if kind == "poly":
            p = parse_poly(r.out)
            if p is not None:
                o["poly"], o["got"] = p, True
            elif "t^" in r.out:
                o["why"] = "the polynomial cannot be read"
        elif kind == "taylor":
            t = parse_taylor(r.out)
            if t and N == 1 and len(t) == 1:     # a number only: the coefficient of t
                t = [{"e": 1, "c": t[0]["c"]}]
            if t:
                o["terms"], o["got"] = t, True
            elif r.out.strip() and must:
                o["why"] = "the Taylor coefficients cannot be read"
        else:
            t = r.files[name + ".rat"]
            if t is not None and len(t) > 60000:
                o["must"] = False      # too large to be judged
            elif t is not None and o["rc"] == "ok":
                s = parse_series(t, rng)
                if s is None:
                    o["why"] = "the series cannot be read"
                elif len(s["prog"]) > 6000:
                    o["must"] = False
                else:
                    o["prog"], o["ts"], o["got"] = s["prog"], s["ts"], True
        c["runs"].append(o)
    return c


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "run": c["_jobs"][k] if k is not None and k < len(c["_jobs"]) else None,
            "observed": {x: y for x, y in c["runs"][k].items() if x != "prog"} if k is not None else None,
            "rows": c["rows"], "lin": c["lin"]}
