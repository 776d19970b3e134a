import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from fractions import Fraction
import checklib, converting as cv, counting, latte, tlc

MC = dict(K=1, MaxRows=1, Depth=3, GenDim=1, GenRows=1, GenCoef=1)
GEN = dict(K=1, MaxRows=1, Depth=5, GenDim=5, GenRows=6, GenCoef=9999)
BUILD = dict(B=6, Dil=1, MaxDim=4, MaxPts=120, MaxCoef=500)


def make(n, rows, eqs, nn, npts=None, kind="H", bounded=False, **kw):
    c = {"n": n, "kind": kind, "desc": cv.desc(rows, eqs, nn), "npts": -1 if npts is None else npts, "events": [],
         "_rows": [[str(x) for x in r] for r in rows], "_eqs": list(eqs), "_nn": list(nn), "_order": kw.pop("order", "ln")}
    c.update(kw)
    return c


def counted(c, how, opts, text, name, must):
    r = latte.run_lucky("count", opts + [name], {name: text}, want=["numOfLatticePoints"])
    c["events"].append(cv.count_event(how, r, must and c["npts"] > 0))


def observe(c):
    c["events"] = []
    ev = c["events"]
    n = c["n"]
    if c["kind"] == "V":
        text = latte.hrep(n, c["_rows"], [i - 1 for i in c["_eqs"]])
        r = latte.run("latte2ext", [], stdin=text)
        ev.append(cv.file_event("latte2ext", r, r.out, lambda t: cv.read_cdd(t, "V")))
        if c["npts"] >= 0 and ev[-1]["rc"] == "ok":
            counted(c, "count --ext of latte2ext", ["--vrep", "--cdd"], r.out, "x.ext", False)
        return c
    text = latte.hrep(n, c["_rows"], [i - 1 for i in c["_eqs"]], [i - 1 for i in c["_nn"]], c["_order"])
    r = latte.run("latte2ine", [], stdin=text)
    ev.append(cv.file_event("latte2ine", r, r.out, lambda t: cv.read_cdd(t, "H")))
    ine = r.out
    if c["npts"] >= 0 and ev[-1]["rc"] == "ok":
        counted(c, "count --cdd of latte2ine", ["--cdd"], ine, "x.ine", c["_integral"])
    # back again, from the converter's file and from a file of our own
    def back(how, text):
        r = latte.run("ConvertCDDineToLatte", ["x.ine", "x.latte"], {"x.ine": text}, want=["x.latte"])
        t = r.files["x.latte"]
        ev.append(cv.file_event(how, r, t, cv.read_latte, whole=True))
        return t if ev[-1]["rc"] == "ok" else None
    own = cv.cdd_text("H", n, c["_rows"] + [[int(k == i) for k in range(n + 1)] for i in c["_nn"]], c["_eqs"],
                      "integer" if c["_integral"] else "rational", "begin")
    for how, t in (("ConvertCDDineToLatte of latte2ine", ine), ("ConvertCDDineToLatte", own)):
        l = back(how, t)
        if l is None:
            continue
        if c["npts"] >= 0:
            counted(c, "count of " + how, [], l, "x.latte", True)
        if how == "ConvertCDDineToLatte":
            r = latte.run("latte2ine", [], stdin=l)
            ev.append(cv.file_event("latte2ine of ConvertCDDineToLatte", r, r.out, lambda t: cv.read_cdd(t, "H")))
    return c


def describe(c, why):
    return {"why": why, "rows": c["_rows"], "equations": c["_eqs"], "nonnegative": c["_nn"],
            "observed": [{"how": e["how"], "rc": e["rc"], "text": e["_text"], "count": e["val"], "stderr": e["_err"]} for e in c["events"]]}


def run(ck):
    ck.model("LattConvert", tlc.cfg("CSpec", MC, ["MeaningKept"]))
    if ck.thorough:
        ck.model("LattConvert", tlc.cfg("CSpec", dict(MC, Depth=5), ["MeaningKept"]))
    cases = []
    k = ck.scale(1, 8)
    built, desc, raw = ck.generate_all([
        ("LattDescribe", tlc.cfg("DescSpec", dict(BUILD, Profile="full", Steps=4, PerVariant=3, NumVariants=2)), 60 * k, 40, ck.seed),
        ("LattDescribe", tlc.cfg("DescSpec", dict(BUILD, Profile="lowdim", Steps=6, PerVariant=4, NumVariants=2)), 100 * k, 50, ck.seed),
        ("LattConvert", tlc.cfg("GSpec", GEN), 400 * k, 6, ck.seed)])
    for g in built + desc:
        for d in g["variants"]:
            rows, lin, nn = counting.nonneg_split(d["rows"], [i - 1 for i in d["lin"]], ck.rng)
            integral = ck.rng.random() < 0.5
            if not integral:
                rows = [[Fraction(x, q) for x in r] for r in rows for q in [ck.rng.choice([1, 2, 3, 6, 10, 97])]]
            cases.append(make(g["n"], rows, [i + 1 for i in lin], [i + 1 for i in nn], g["npts"], order=ck.rng.choice(["ln", "nl"]),
                              _integral=all(x == int(x) for r in rows for x in r)))
        if g["verts"]:
            vs = [[1] + [Fraction(x, v[1]) for x in v[0]] for v in g["verts"]]
            cases.append(make(g["n"], vs, [], [], g["npts"], "V", _integral=True))
    for g in raw:
        rows = [[Fraction(*x) for x in r] for r in g["rows"]]
        if ck.rng.random() < 0.3:       # huge entries
            q = ck.rng.randint(1, 10 ** 40)
            rows = [[x * q + ck.rng.randint(-3, 3) for x in r] for r in rows]
        rng = ck.rng
        if any(x.denominator % p == 0 for r in rows for x in r for p in checklib.PRIMES):
            continue
        cases.append(make(g["n"], rows, g["eqs"], g["nn"], order=rng.choice(["ln", "nl"]), _integral=all(x.denominator == 1 for r in rows for x in r)))
        if rng.random() < 0.4:          # the same rows as points and directions
            vs = [[rng.choice([0, 1, 1])] + r[1:] for r in rows]
            cases.append(make(g["n"], vs, g["eqs"] if rng.random() < 0.5 else [], [], kind="V", _integral=True))
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["events"]) for c in cases)
    ck.judge("ConvertTrace", cases, record=lambda c: observe(dict(c)), describe=describe)


checklib.main(run, "C17", ["count", "latte2ine", "latte2ext", "ConvertCDDineToLatte"])
