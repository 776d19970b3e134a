"""Volumes and integrals (programs integrate): cases, runs, observation."""
import math, re
from fractions import Fraction
import counting, formats, latte, tlc
from checklib import PRIMES

GEN = dict(B=6, Dil=1, MaxDim=4, MaxPts=250, MaxCoef=300)
FAMS = ["order", "graph", "orthant", "hull", "smallhull", "bighull", "boxcut", "cube", "cross", "pyramid"]
ANSWER = re.compile(r"^\s+Answer:\s*(\S+)\s*$", re.M)
BIG = 2 ** 31 - 1


def res(x):
    return [int(x) % p for p in PRIMES]


def polytopes(ck, n, profiles=(("full", 2), ("full", 5))):
    """full-dimensional polytopes: behaviours of the builder and of the families"""
    k = 1
    B = ck.generate_all(
        [("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Profile=p, Steps=s, PerVariant=1, NumVariants=1), ["TypeOK"]), int(n * 0.6), 60, ck.seed * 10 + i)
         for i, (p, s) in enumerate(profiles)] +
        [("LattCatalog", counting.catalog_cfg(FAMS), int(n), 5, ck.seed)])
    out = []
    for g in sum(B[:-1], []):
        v = g["verts"]
        if not v or g["lin"] or formats.affdim(v) != g["n"] or not exact(v):
            continue
        out.append({"n": g["n"], "rows": g["rows"], "verts": v, "_ops": g.get("ops"), "_fam": "build"})
    for g in B[-1]:
        v = [[x, 1] for x in g["verts"]]
        if g["lin"] or math.comb(len(g["rows"]), g["n"]) > 1000 or g["n"] > 5:
            continue
        if not v:
            v = formats.vertices(g["n"], g["rows"])
        if not v or formats.affdim(v) != g["n"] or not exact(v) or len(v) > 40:
            continue
        out.append({"n": g["n"], "rows": g["rows"], "verts": [[x, 1] for x in g["verts"]], "_pv": v, "_ops": g["fam"], "_fam": g["fam"]})
    ck.rng.shuffle(out)
    return out


def exact(verts):
    """the determinants that give signs stay below 2^31"""
    tops = sorted((sum(abs(a) for a in v) + abs(d) for v, d in verts), reverse=True)
    prod = 1
    for t in tops[:len(verts[0][0]) + 1]:
        prod *= t
    return prod < BIG


def terms(g, rng, moved):
    """an integrand of LattIntegrand as text and as the judge sees it"""
    kind, ts = g["kind"], g["terms"]
    js = []
    for t in ts:
        js.append({"coef": [t["num"] * pow(t["den"], -1, p) % p for p in PRIMES], "forms": t["forms"], "pows": t["pows"]})
    def coef(t):
        f = Fraction(t["num"], t["den"])
        if rng.random() < 0.3:
            return "%d/%d" % (t["num"], t["den"])
        return str(f)
    sep = rng.choice([",", ", "])
    seq = lambda v: "[" + sep.join(str(x) for x in v) + "]"
    if kind == "mono":
        text = ["[%s%s%s]" % (coef(t), sep, seq(t["pows"])) for t in ts]
    elif kind == "lin":
        text = ["[%s%s[%d%s%s]]" % (coef(t), sep, t["pows"][0], sep, seq(t["forms"][0])) for t in ts]
    else:
        text = ["[%s%s[%s]]" % (coef(t), sep, sep.join("[%d%s%s]" % (m, sep, seq(l)) for m, l in zip(t["pows"], t["forms"])))
                for t in ts]
    return "[" + sep.join(text) + "]\n", js


def case(g, rng, big=False):
    """one polytope; big: moved by huge shears, shifts and a huge dilation"""
    n = g["n"]
    c = {"n": n, "rows": g["rows"], "verts": g["verts"], "scale": [1] * len(PRIMES), "tail": [], "_ops": g["_ops"], "_fam": g["_fam"]}
    rows, move = g["rows"], []
    if big:
        k = rng.randint(1, 10 ** rng.choice([1, 6, 20]))
        c["scale"] = res(k)
        rows = [[k * r[0]] + r[1:] for r in rows]
        move.append(("scale", k, 0, 0))
        for _ in range(rng.randint(1, 3)):
            f = rng.choice([-1, 1]) * rng.randint(1, 10 ** rng.choice([1, 3, 9]))
            if n > 1 and rng.random() < 0.5:
                i, j = rng.sample(range(1, n + 1), 2)
                rows = [r[:j] + [r[j] - f * r[i]] + r[j + 1:] for r in rows]
                c["tail"].append({"op": "shear", "i": i, "j": j, "k": res(f)})
                move.append(("shear", f, i, j))
            else:
                i = rng.randint(1, n)
                rows = [[r[0] - f * r[i]] + r[1:] for r in rows]
                c["tail"].append({"op": "shift", "i": i, "j": i, "k": res(f)})
                move.append(("shift", f, i, i))
    c["_rows"] = rows
    vs = []
    for v, d in g.get("_pv", g["verts"]):
        x = [Fraction(a, d) for a in v]
        for op, f, i, j in move:
            if op == "scale":
                x = [f * a for a in x]
            elif op == "shear":
                x[i - 1] += f * x[j - 1]
            else:
                x[i - 1] += f
        vs.append(x)
    c["_vs"] = vs
    r2, l2, nn = counting.nonneg_split(rows, [], rng)
    c["_H"] = latte.hrep(n, r2, l2, nn)
    return c


def inputs(c, rng):
    """a format: (options, files, supported)"""
    k = rng.random()
    # (the floating point step of cddlib crashes on some huge vertices)
    integral = bool(c["_vs"]) and max(abs(x) for v in c["_vs"] for x in v) < 10 ** 6 and all(x.denominator == 1 for v in c["_vs"] for x in v)
    if k < 0.2 and c["_vs"]:
        return ["--vrep"], {"input.vrep": latte.vrep(c["n"], shuffled(c["_vs"], rng))}, integral
    if k < 0.3 and c["_vs"]:
        return ["--cdd"], {"input.ext": latte.ext(c["n"], shuffled(c["_vs"], rng))}, integral
    if k < 0.4:
        return ["--cdd"], {"input.ine": latte.ine(c["n"], c["_rows"])}, True
    return [], {"input.latte": c["_H"]}, True


def shuffled(v, rng):
    v = list(v)
    rng.shuffle(v)
    return v


def observe(c):
    """c['_jobs']: (arguments, files, must, terms)"""
    c["runs"] = []
    for args, files, must, ts in c["_jobs"]:
        r = latte.run("integrate", args, files, timeout=60)
        a = []
        for s in ANSWER.findall(r.out):
            m = re.fullmatch(r"(-?\d+)(?:/(-?\d+))?", s)
            a.append({"num": res(m.group(1)), "den": res(m.group(2) or 1)} if m else {"num": [1] * 3, "den": [0] * 3})
        c["runs"].append({"opts": " ".join(args), "rc": counting.rc_of(r), "must": must, "terms": ts, "answers": a,
                          "text": [s[:200] for s in ANSWER.findall(r.out)]})
        if c["runs"][-1]["rc"] == "timeout":
            c["runs"][-1]["must"] = False
    return c


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "run": c["_jobs"][k][:2] if k is not None else None, "observed": c["runs"][k] if k is not None else None,
            "ops": c["_ops"], "rows": c["rows"], "verts": c["verts"]}


def run(ck, make, num, big=0.2, integrands=0):
    """make(case, rng, integrands) fills c['_jobs']"""
    n = num * ck.scale(1, 8)
    mc = ck.generate("LattIntegralMC", tlc.cfg("MSpec", dict(B=6, Dil=1), ["PathsAgree"]), ck.scale(60, 1000), 5)
    P = polytopes(ck, n)
    I = {}
    if integrands:
        for g in ck.generate("LattIntegrand", tlc.cfg("ISpec", dict(MaxN=5, MaxDeg=6, Kinds=integrands)), 5 * n, 5):
            I.setdefault(g["n"], []).append(g)
    cases = []
    for g in P:
        if integrands and g["n"] not in I:
            continue
        if g["n"] > 5:
            continue
        c = case(g, ck.rng, ck.rng.random() < big)
        c["_jobs"] = make(c, ck.rng, I.get(g["n"]))
        cases.append(c)
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.cov["answers"] = sum(len(o["answers"]) for c in cases for o in c["runs"])
    ck.cov["timeouts"] = sum(o["rc"] == "timeout" for c in cases for o in c["runs"])
    ck.judge("IntegralTrace", cases, record=lambda c: observe(dict(c)), describe=describe)
