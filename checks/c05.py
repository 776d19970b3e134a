import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, MaxPts=200, MaxCoef=500)
OPTS = [([], True), (["--homog"], True), (["--exponential"], True), (["--irrational-primal"], True), (["--irrational-all-primal"], True),
        (["--compute-vertex-cones=4ti2"], True), (["--redundancy-check=cddlib"], True), (["--redundancy-check=full-cddlib"], True)]


def observe(c, timeout=60):
    c["runs"] = []
    hrep = latte.hrep(c["n"], c["rows"], c["lin"], c["nonneg"], c["_order"])
    ine = latte.ine(c["n"], c["rows"], c["lin"])
    for opts, must in c["_optsets"]:
        files = {"input.ine": ine} if "--cdd" in opts else {"input.latte": hrep}
        r = latte.run_lucky("count", opts + list(files), files, want=["numOfLatticePoints"], timeout=timeout)
        o = counting.observe(r, opts, must)
        o["unbounded"] = "unbounded" in r.err.lower() or "not bounded" in r.err.lower()
        c["runs"].append(o)
    return c


def describe(c, why):
    return {"why": why, "file": latte.hrep(c["n"], c["rows"], c["lin"], c["nonneg"], c["_order"]), "kind": c["kind"],
            "options": [" ".join(o) for o, _ in c["_optsets"]], "observed": c["runs"]}


def case(g, kind, rng):
    rows, lin, nonneg = counting.nonneg_split(g["rows"], [i - 1 for i in g["lin"]], rng)
    c = {"n": g["n"], "rows": rows, "lin": lin, "nonneg": nonneg, "kind": kind, "point": g.get("point", []), "rec": g.get("rec", []),
         "runs": [], "_order": rng.choice(["ln", "nl"])}
    c["_optsets"] = [OPTS[0]] + rng.sample(OPTS[1:], 3)
    if not nonneg and rng.random() < 0.4:
        c["_optsets"].append((["--cdd"], False))
    return c


def run(ck):
    cases = []
    for prof, n, steps in (("empty", 500, 4), ("empty", 400, 6), ("lowdim", 200, 6)):
        for g in ck.generate("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=prof, Steps=steps), ["TypeOK"]),
                             ck.scale(n, 8 * n), 30):
            if g["npts"] == 0:
                cases.append(case(g, "none", ck.rng))
    for prof, n, steps in (("any", 250, 3), ("full", 250, 3), ("lowdim", 100, 4)):
        for g in ck.generate("LattUnbounded", tlc.cfg("USpec", dict(GEN, Profile=prof, Steps=steps, MaxRays=3, Lines=True), ["TypeOK", "IsDirection", "PointsAreInside", "PointsAreAll"]),
                             ck.scale(n, 8 * n), 40):
            if g["point"]:
                c = case(g, "unbounded", ck.rng)
                cases.append(c)
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("EmptyTrace", cases, record=lambda c: observe(dict(c)), describe=describe)


checklib.main(run, "C05", ["count"])
