import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, ehrhart, formats, latte, saved, tlc

GEN = dict(B=6, Dil=1, MaxDim=4, MaxPts=120, MaxCoef=300, PerVariant=1, NumVariants=1)
METHODS = [[], [], ["--compute-vertex-cones=4ti2"], ["--compute-vertex-cones=cdd"], ["--redundancy-check=cddlib"], ["--redundancy-check=full-cddlib"]]


def case(g, plan, rng, recs=()):
    lin = [i - 1 for i in g.get("lin", [])]
    n = g["n"]
    verts = g.get("verts") or []
    c = {"n": n, "rows": g["rows"], "lin": lin, "pts": g["pts"], "recs": list(recs), "plan": plan, "runs": [], "how": "points",
         "dual": plan[0]["set"] == [1], "dils": [], "lo": [0] * n, "hi": [0] * n, "verts": [], "full": False}
    r2, l2, nn = counting.nonneg_split(g["rows"], lin, rng)
    c["_in"] = (list(rng.choice(METHODS)), {"input.latte": latte.hrep(n, r2, l2, nn, rng.choice(["ln", "nl"]))})
    if c["dual"] or recs:
        c["_in"] = ([], c["_in"][1])
    if verts:
        c["full"] = formats.affdim(verts) == n
        c["verts"] = verts
        c["lo"], c["hi"] = ehrhart.box_of(verts)
        c["dils"] = [k for k in (2, 3, 5) if ehrhart.work(c["lo"], c["hi"], k) * k <= 3000]
        if c["full"] and not c["dual"] and rng.random() < 0.25:
            if rng.random() < 0.5:
                c["_in"] = (["--cdd"], {"input.ine": latte.ine(n, g["rows"], lin)})
            elif all(v[1] == 1 for v in verts):
                c["_in"] = rng.choice([(["--vrep"], {"input.vrep": latte.vrep(n, [formats.q(v) for v in verts])}),
                                       (["--cdd"], {"input.ext": latte.ext(n, [formats.q(v) for v in verts])})])
    elif recs:
        c["full"] = formats.affdim([[p, 1] for p in g["pts"]] + [[[a + b for a, b in zip(g["pts"][0], r)], 1] for r in recs]) == n
    c["must"] = bool(c["pts"]) and (len(c["pts"]) > 1 or bool(recs)) and (not verts or formats.affdim(verts) > 0)
    if "--compute-vertex-cones=cdd" in c["_in"][0] and recs:
        c["must"] = False
    return c


def run(ck):
    ck.model("LattSaved", tlc.cfg("SSpec", dict(Classes=3, MaxFiles=3, MaxSteps=ck.scale(4, 5), Bound=1, Duals=True),
                                  ["Resumable", "Complement", "SplitKeeps", "CountsAreWhole"]))
    k = ck.scale(1, 8)
    P = dict(Classes=3, MaxFiles=6, MaxSteps=8, Bound=2)
    B = ck.generate_all(
        [("LattSaved", tlc.cfg("GSpec", dict(P, Duals=d)), n * k, 12, ck.seed) for d, n in ((False, 300), (True, 150))] +
        [("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Profile=p, Steps=s), ["TypeOK"]), n * k, 60, ck.seed * 10 + i)
         for i, (p, s, n) in enumerate((("full", 4, 250), ("full", 1, 40), ("any", 4, 60), ("lowdim", 4, 60)))] +
        [("LattUnbounded", tlc.cfg("USpec", dict(B=6, Dil=1, MaxDim=4, MaxPts=120, MaxCoef=300, Profile="full", Steps=3, MaxRays=3, Lines=False),
                                   ["IsDirection", "PointsAreInside", "PointsAreAll"]), 60 * k, 40, ck.seed)])
    plans = {"v": [g["plan"] for g in B[0]], "d": [g["plan"] for g in B[1]]}
    cases = []
    for g in sum(B[2:6], []):
        if g["verts"] and g["pts"]:
            cases.append(case(g, ck.rng.choice(plans["d" if ck.rng.random() < 0.3 else "v"]), ck.rng))
    for g in B[6]:
        if g["pts"] and not g.get("lin"):
            cases.append(case(g, ck.rng.choice(plans["d" if ck.rng.random() < 0.3 else "v"]), ck.rng, g["recs"]))
    cases = latte.pmap(lambda c: saved.observe(c, ck.rng), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("SavedTrace", cases, record=lambda c: saved.observe(dict(c), ck.rng), describe=saved.describe)


checklib.main(run, "C20", ["count", "polyhedron-to-cones", "triangulate", "hilbert-from-rays"])
