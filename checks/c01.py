import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, Steps=5, MaxPts=400, MaxCoef=2000, Profile="any")
FAMS = ["knapsack", "transport", "magic", "order", "graph", "orthant", "hull", "bighull", "boxcut", "hypersimplex",
        "cube", "cross", "pyramid"]


def run(ck):
    ck.model("LattBuildMC", tlc.cfg("Spec", dict(B=6, Dil=1, MaxDim=2, MaxOps=2 + (1 if ck.thorough else 0), K=1),
                                    ["TypeOK", "PointsAreExact", "CountsAgree"], ["CountPreserved", "CutsShrink"],
                                    "VIEW View\n"))
    beh = []
    for prof, n, steps in (("any", 900, 5), ("full", 500, 6), ("lowdim", 300, 8)):
        beh += ck.generate("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=prof, Steps=steps), ["TypeOK"]),
                           ck.scale(n, 10 * n), 30)
    cases = [counting.from_build(g, ck.rng) for g in beh]
    cat = ck.generate("LattCatalog", counting.catalog_cfg(FAMS), ck.scale(500, 5000), 5)
    cases += [counting.from_catalog(g, ck.rng) for g in cat]
    # huge numbers: dilations of integral polytopes and huge unimodular substitutions
    big = ck.generate("LattCatalog", counting.catalog_cfg(["transport", "order", "smallhull", "hypersimplex", "cube",
                                                           "cross", "pyramid", "knapsack", "orthant"]),
                      ck.scale(250, 2500), 5, seed=ck.seed + 77)
    for g in big:
        if counting.affordable({"rows": g["rows"], "n": g["n"], "_fam": g["fam"]}):
            digits, steps = ck.rng.choice([3, 9, 10, 19, 20, 40]), ck.rng.choice([0, 0, 1, 2, 3])
            c = counting.enlarge(counting.from_catalog(g, ck.rng, False), ck.rng, digits, steps)
            # the floating point stage of the external cdd breaks down (visibly) on extreme entries
            c["_must"] = steps * digits <= 20 and digits <= 20
            cases.append(c)
    cases = latte.pmap(lambda c: counting.run_case(c, [([], c.get("_must", True))]), cases)
    ck.cov["program_runs"] += len(cases)
    ck.judge("CountTrace", cases, record=lambda c: counting.run_case(dict(c), c["_optsets"]),
             describe=counting.describe)


checklib.main(run, "C01", ["count"])
