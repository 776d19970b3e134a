"""top-ehrhart-knapsack: command lines, reading the coefficient functions."""
import re, sys
from fractions import Fraction

import counting, latte
from checklib import PRIMES

sys.setrecursionlimit(100000)
M = PRIMES[0] * PRIMES[1] * PRIMES[2]
TOK = re.compile(r"\s*(\d+|MOD|Frac|[A-Za-z]\w*|[-+*/^(),])")


class Bad(Exception):
    pass


def parse(s):
    """the expression as a postfix program"""
    toks, k = [], 0
    s = s.strip()
    while k < len(s):
        m = TOK.match(s, k)
        if not m:
            raise Bad("unreadable: " + s[k:k + 20])
        toks.append(m.group(1))
        k = m.end()
    prog, ops = [], []
    prec = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3, "^": 4}

    def reduce(until):
        while ops and ops[-1] not in ("(", "MOD(", "Frac(") and prec[ops[-1]] >= until:
            prog.append(ops.pop())
    operand = False
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in ("MOD", "Frac"):
            if i + 1 >= len(toks) or toks[i + 1] != "(":
                raise Bad("MOD without argument")
            ops.append(t + "(")
            i += 2
            operand = False
            continue
        if t == "(":
            ops.append("(")
            operand = False
        elif t == ",":
            reduce(0)
            if not ops or ops[-1] != "MOD(" or toks[i + 1:i + 3] != ["1", ")"]:
                raise Bad("MOD by something else")
            ops[-1] = "Frac("
            i += 1
        elif t == ")":
            reduce(0)
            if not ops:
                raise Bad("parentheses")
            if ops.pop() != "(":
                prog.append("frac")
            operand = True
        elif t in prec:
            if t == "-" and not operand:
                ops.append("neg")
            else:
                if t != "^":
                    reduce(prec[t])
                ops.append(t)
                operand = False
        else:
            prog.append(int(t) if t.isdigit() else t)
            operand = True
        i += 1
    reduce(0)
    if ops:
        raise Bad("parentheses")
    return prog


def value(prog, env):
    """residues of the value"""
    try:
        v = ev(prog, env, True)
        return [v % p for p in PRIMES]
    except ZeroDivisionError:
        v = ev(prog, env, False)
        return [v.numerator * pow(v.denominator, -1, p) % p for p in PRIMES]


def ev(prog, env, modular):
    st = []
    for o in prog:
        if isinstance(o, int):
            st.append(Fraction(o))
            continue
        if o in ("+", "-", "*", "/", "^"):
            b, a = st.pop(), st.pop()
            if o == "^":
                if not isinstance(b, Fraction) or b.denominator != 1:
                    raise Bad("exponent")
                e = int(b)
                st.append(a ** e if isinstance(a, Fraction) else ("m", pow(a[1], e, M)) )
                continue
            if isinstance(a, Fraction) and isinstance(b, Fraction) and (not modular or (a.numerator.bit_length() < 200 and a.denominator.bit_length() < 200)):
                if o == "/" and b == 0:
                    raise Bad("division by zero")
                st.append(a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b)
                continue
            x, y = red(a), red(b)
            st.append(("m", (x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x * inv(y)) % M))
        elif o == "neg":
            a = st.pop()
            st.append(-a if isinstance(a, Fraction) else ("m", -a[1] % M))
        elif o == "frac":
            a = st.pop()
            if not isinstance(a, Fraction):
                raise Bad("fractional part of a large number")
            st.append(a - (a.numerator // a.denominator))
        else:
            if o not in env:
                raise Bad("unknown name " + o)
            v = env[o]
            st.append(Fraction(v) if not isinstance(v, Fraction) else v)
    if len(st) != 1:
        raise Bad("expression")
    return red(st[0]) if modular else st[0]


def inv(y):
    try:
        return pow(y, -1, M)
    except ValueError:
        raise ZeroDivisionError


def red(a):
    if isinstance(a, tuple):
        return a[1]
    return a.numerator * inv(a.denominator) % M


def read(text, n, L, rng):
    """coefficients and polynomial printed for a list of n parts"""
    coefs, progs, why, poly = [], {}, "", []
    try:
        for m in re.finditer(r"^coeff(\d+)minus(\d+):=\s*(.*);\s*$", text, re.M):
            if int(m.group(1)) != n - 1:
                raise Bad("coefficients of another degree")
            i = int(m.group(2))
            pr = parse(m.group(3))
            progs[m.group(1), i] = pr
            few = max(6, 40000 // (len(pr) + 1))
            ts = (list(range(L)) if L <= few else rng.sample(range(L), few)) + [rng.randrange(L, 10 ** 6) for _ in range(3)]
            coefs.append({"i": i, "vals": [{"r": t % L, "v": value(pr, {"t": t, "T": t})} for t in ts]})
        m = re.search(r"^topKPolynomial:=(.*);\s*$", text, re.M)
        if m:
            names = {"coeff%sminus%d" % k: v for k, v in progs.items()}
            whole = []
            for o in parse(m.group(1)):
                whole += names[o] if o in names else [o]
            for t in [rng.randrange(L) + L * rng.randrange(50) for _ in range(3)]:
                poly.append({"r": t % L, "t": [t % p for p in PRIMES], "v": value(whole, {"t": t, "T": t})})
    except Bad as e:
        why = "not a formula: %s" % e
    return coefs, poly, why


def args(run):
    a = ["-f" if run["long"] else "--file", "in.knap"]
    a += ["--all-k" if run["all"] else "-k", str(run["k"])]
    if run["gcd"] == 0:
        a += ["--gcd-polynomial", "0"]
    elif run["long"]:
        a += ["--gcd-polynomial", "1"]
    if run["rnd"] > -2:
        a += ["--random", str(run["rnd"])]
    if run["out"]:
        a += ["-o", "out.mpl"]
    return a


def observe(c):
    c["runs"] = []
    import random
    for g in c["_g"]["runs"]:
        rng = random.Random(str(c["a"]))
        a = args(g)
        text = "%d\n%s\n" % (len(c["a"]), " ".join(map(str, c["a"])))
        r = latte.run("top-ehrhart-knapsack", a, {"in.knap": text}, want=["out.mpl"], timeout=60)
        body = (r.files["out.mpl"] or "") if g["out"] else r.out
        coefs, poly, why = read(body, len(c["a"]), c["L"], rng)
        n = len(c["a"])
        want = list(range(g["k"])) if g["all"] else [g["k"] - 1]
        c["runs"].append({"opts": " ".join(a), "rc": counting.rc_of(r), "must": c["_g"]["gcd"] == 1, "got": bool(coefs) or bool(why),
                          "why": why, "coefs": coefs, "poly": poly, "want": want})
        if c["runs"][-1]["rc"] == "timeout":
            c["runs"][-1]["must"] = False
    return c


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "a": c["a"], "run": [c["runs"][k]["opts"].split(), {"in.knap": "%d\n%s\n" % (len(c["a"]), " ".join(map(str, c["a"])))}] if k is not None else None}
