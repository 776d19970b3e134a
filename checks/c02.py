import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, Steps=5, MaxPts=300, MaxCoef=500, Profile="any")


def run(ck):
    ck.model("LattOptions", tlc.cfg("Spec", dict(Max=ck.scale(3, 8)), ["ArgsOK"]))
    opts = [(o["args"], o["must"]) for o in
            ck.generate("LattOptions", tlc.cfg("GenSpec", dict(Max=4)), ck.scale(3000, 20000), 5)]
    single = [o for o in opts if len(o[0]) == 1]
    beh = []
    for prof, n, steps in (("any", 220, 5), ("full", 200, 6), ("lowdim", 100, 7), ("empty", 20, 4)):
        beh += ck.generate("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=prof, Steps=steps), ["TypeOK"]),
                           ck.scale(n, 10 * n), 30)
    cases = [counting.from_build(g, ck.rng) for g in beh]
    cat = ck.generate("LattCatalog", counting.catalog_cfg(["knapsack", "transport", "order", "graph", "hull", "smallhull",
                                                           "boxcut", "hypersimplex", "cross", "pyramid"]),
                      ck.scale(150, 1500), 5)
    cases += [counting.from_catalog(g, ck.rng) for g in cat if g["n"] <= 6]

    def options(c):
        k = ck.rng.randint(5, 8)
        chosen = [([], True)] + ck.rng.sample(single, 3) + ck.rng.sample(opts, k)
        return [(a, m) for a, m in chosen]
    todo = [(c, options(c)) for c in cases] + counting.known(ck)
    cases = latte.pmap(lambda t: counting.run_case(t[0], t[1], timeout=20), todo)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("CountTrace", cases, record=lambda c: counting.run_case(dict(c), c["_optsets"], timeout=60),
             describe=counting.describe, match=counting.match)


checklib.main(run, "C02", ["count"])
