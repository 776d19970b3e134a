"""Multivariate generating functions written by `count`."""
import re
import counting, latte
from checklib import PRIMES

MONO = r"(?:1|x\[\d+\](?:\^(?:\d+|\(-\d+\)))?(?:\*x\[\d+\](?:\^(?:\d+|\(-\d+\)))?)*)"


def mono(s, n):
    e = [0] * n
    if s == "1":
        return e
    for i, _, k in re.findall(r"x\[(\d+)\](\^\(?(-?\d+)\)?)?", s):
        if int(i) >= n:
            raise ValueError("variable x[%s]" % i)
        e[int(i)] += int(k or 1)
    return e


def parse(text, n):
    """[{coef, pts, rays}], ValueError if it is not the format written"""
    terms = []
    body = "".join(text.split())
    # terms end in "))" at depth 0
    depth, start, parts = 0, 0, []
    for i, ch in enumerate(body):
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        elif ch == "+" and depth == 0:
            parts.append(body[start:i])
            start = i + 1
    parts.append(body[start:])
    for p in parts:
        if not p:
            continue
        m = re.fullmatch(r"(?:\((-?\d+)\)\*)?(%s|\(%s(?:\+%s)*\))/\((.*)\)" % (MONO, MONO, MONO), p)
        if not m:
            raise ValueError(p[:80])
        den = m.group(3)
        rays = re.findall(r"\(1-(%s)\)" % MONO, den)
        if "*".join("(1-%s)" % r for r in rays) != den:
            raise ValueError(den[:80])
        terms.append({"coef": int(m.group(1) or 1), "pts": [mono(x, n) for x in m.group(2).strip("()").split("+")]
                      if m.group(2).startswith("(") else [mono(m.group(2), n)],
                      "rays": [mono(r, n) for r in rays]})
    return terms


def value_exists(z, rays):
    for zj, p in zip(z, PRIMES):
        for r in rays:
            v = 1
            for b, e in zip(zj, r):
                v = v * pow(b, e % (p - 1), p) % p
            if v == 1:
                return False
    return True


def observe(c, rng, timeout=60):
    """c['_jobs']: (options, files, must, number of variables written)"""
    c["runs"], rays = [], list(c["recs"])
    for opts, files, must in c["_jobs"]:
        name = list(files)[0]
        r = latte.run_lucky("count", opts + ["--multivariate-generating-function", name], files, want=[name + ".rat"], timeout=timeout)
        o = {"opts": " ".join(opts), "rc": counting.rc_of(r), "must": must, "terms": [], "got": False, "why": ""}
        t = r.files[name + ".rat"]
        if t is not None and o["rc"] == "ok":
            try:
                o["terms"], o["got"] = parse(t, c["n"]), True
            except ValueError as e:
                o["why"] = "the generating function cannot be read"
                o["_text"] = t[:3000]
            if any(not any(x) for q in o["terms"] for x in q["rays"]):
                o["why"], o["terms"], o["got"] = "a denominator vanishes", [], False
            big = max([abs(e) for q in o["terms"] for v in q["rays"] + q["pts"] for e in v] + [0])
            if big >= 2 ** 31 - 1 or len(o["terms"]) > 1500:
                o["terms"], o["got"], o["must"] = [], False, False
        rays += [x for q in o["terms"] for x in q["rays"]]
        c["runs"].append(o)
    rays = sorted({tuple(x) for x in rays})
    for k in range(200):
        c["z"] = [[rng.randrange(2, p - 1) for _ in range(c["n"])] for p in PRIMES]
        if value_exists(c["z"], rays):
            break
    else:
        raise RuntimeError("no evaluation point")
    return c


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "run": c["_jobs"][k] if k is not None else None, "observed": c["runs"][k] if k is not None else None,
            "points": c["pts"][:50], "recs": c["recs"], "rows": c["rows"], "lin": c["lin"]}
