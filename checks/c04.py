import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, projecting, tlc

GEN = dict(B=6, Dil=1, MaxDim=6, MaxPts=200, MaxCoef=500, PerVariant=1, NumVariants=1)


def run(ck):
    beh = []
    for prof, n, steps in (("lowdim", 300, 6), ("lowdim", 250, 3), ("empty", 50, 3), ("any", 100, 5)):
        beh += ck.generate("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Profile=prof, Steps=steps), ["TypeOK", "SameDescription"]),
                           ck.scale(n, 8 * n), 70, seed=ck.seed + steps)
    cases, counts = [], []
    for g in beh:
        c = counting.from_build(g, ck.rng)
        counts.append((c, [([], True), (["--homog"], True), (["--compute-vertex-cones=4ti2"], True)]))
        if len(g["pts"]) <= 60:
            for dil, opts in ((1, ["--redundancy-check=full-cddlib"]), (1, ["--compute-vertex-cones=4ti2"]), (ck.rng.randint(2, 5), [])):
                p = projecting.blank(g["n"], c["rows"], c["lin"], c["nonneg"], g["pts"], g["verts"], g["npts"], dil, opts)
                p["_order"], p["_vertices"] = c["_order"], bool(g["verts"])
                cases.append(p)
    # families with many equations
    for g in ck.generate("LattCatalog", counting.catalog_cfg(["knapsack", "transport", "magic", "hypersimplex"]), ck.scale(250, 2000), 5):
        c = counting.from_catalog(g, ck.rng)
        counts.append((c, [([], True)]))
        if c["lin"]:
            p = projecting.blank(g["n"], c["rows"], c["lin"], c["nonneg"], [], [], -1, ck.rng.choice([1, 1, 2, 3]))
            p["_order"], p["_vertices"] = c["_order"], True
            cases.append(p)
    counts = latte.pmap(lambda t: counting.run_case(t[0], t[1]), counts)
    cases = latte.pmap(projecting.observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in counts) + len(cases)
    ck.note("%d cases too large for TLC" % sum(1 for c in cases if c.get("_skip")))
    ck.judge("ProjTrace", [c for c in cases if not c.get("_skip")], record=lambda c: projecting.observe(dict(c)),
             describe=projecting.describe)
    ck.judge("CountTrace", counts, record=lambda c: counting.run_case(dict(c), c["_optsets"]), describe=counting.describe)


checklib.main(run, "C04", ["count", "hstages"])
