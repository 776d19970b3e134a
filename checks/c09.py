import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, ehrhart_cases, genfun, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, MaxPts=120, MaxCoef=500)
OPTS = [["--irrational-primal"], ["--irrational-all-primal"], ["--all-primal"], ["--compute-vertex-cones=4ti2"], ["--compute-vertex-cones=cdd"],
        ["--triangulation=cddlib"], ["--redundancy-check=cddlib"], ["--redundancy-check=none"], ["--random-seed=5"], ["--triangulation=delone"],
        ["--maxdet=2"], ["--maxdet=30"], ["--irrational-primal", "--maxdet=5"], ["--homog"]]


def case(g, rng, how, pts, recs, lo=(), hi=(), lin=()):
    lin = [i - 1 for i in lin]
    c = {"n": g["n"], "rows": g["rows"], "lin": lin, "how": how, "pts": pts, "recs": recs, "lo": list(lo), "hi": list(hi), "runs": [],
         "z": [], "_ops": g.get("ops", g.get("fam"))}
    r2, l2, nn = counting.nonneg_split(g["rows"], lin, rng)
    t = {"input.latte": latte.hrep(g["n"], r2, l2, nn, rng.choice(["ln", "nl"]))}
    c["_jobs"] = [([], t, True)]
    for o in rng.sample(OPTS, 3):
        if o == ["--homog"] and not lin:
            continue          # full-dimensional: the cone over the polytope is written
        if o == ["--compute-vertex-cones=cdd"] and recs:
            continue          # polytopes only
        c["_jobs"].append((o, t, o[0].startswith(("--compute", "--triangulation=cddlib", "--random")) and bool(pts or recs)))
    if rng.random() < 0.4:
        c["_jobs"].append((["--cdd"], {"input.ine": latte.ine(g["n"], g["rows"], lin)}, True))
    return c


def run(ck):
    k = ck.scale(1, 8)
    B = ck.generate_all(
        [("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=p, Steps=s), ["TypeOK"]), n * k, 30, ck.seed * 10 + i)
         for i, (p, s, n) in enumerate((("any", 5, 220), ("full", 5, 150), ("lowdim", 6, 150)))] +
        [("LattUnbounded", tlc.cfg("USpec", dict(GEN, Profile=p, Steps=s, MaxRays=3, Lines=False), ["IsDirection", "PointsAreInside", "PointsAreAll"]),
          n * k, 40, ck.seed * 10 + i) for i, (p, s, n) in enumerate((("any", 3, 150), ("full", 3, 150), ("lowdim", 4, 100)))] +
        [("LattSimplicial", tlc.cfg("SSpec", dict(B=6, Dil=1, MaxN=m, MaxDet=d), ["PointsOfParallelepiped"]), n * k, 5, ck.seed + m)
         for m, d, n in ((3, 200, 300), (4, 40, 100))] +
        [         ("LattCatalog", counting.catalog_cfg(["knapsack", "transport", "order", "graph", "hull", "smallhull", "boxcut", "hypersimplex", "cube", "cross",
                                               "pyramid"]), 250 * k, 5, ck.seed)])
    cases = []
    for g in sum(B[:3], []):
        cases.append(case(g, ck.rng, "points", g["pts"], [], lin=g["lin"]))
    for g in sum(B[3:6], []):
        if g["pts"]:
            cases.append(case(g, ck.rng, "points", g["pts"], g["recs"], lin=g["lin"]))
    for g in B[6] + B[7]:
        cases.append(case(g, ck.rng, "points", g["pts"], g["recs"]))
    for g in B[8]:
        lo, hi = ehrhart_cases.boxes(g)
        if lo is None:
            continue
        w = 1
        for a, b in zip(lo, hi):
            w *= max(0, b - a + 1)
        if w <= 20000:
            cases.append(case(g, ck.rng, "box", [], [], lo, hi, g["lin"]))
    cases = latte.pmap(lambda c: genfun.observe(c, ck.rng), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("GFTrace", cases, record=lambda c: genfun.observe(dict(c), ck.rng), describe=genfun.describe)


checklib.main(run, "C09", ["count"])
