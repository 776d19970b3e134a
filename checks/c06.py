import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, formats, latte, tlc

GEN = dict(B=6, MaxDim=5, Steps=5, MaxPts=1500, MaxCoef=600)
FAMS = ["knapsack", "transport", "magic", "order", "graph", "orthant", "hull", "boxcut", "hypersimplex", "cube", "cross",
        "pyramid", "smallhull"]
OPTS = [["--homog"], ["--irrational-primal"], ["--irrational-all-primal"], ["--all-primal"], ["--maxdet=5"], ["--exponential"],
        ["--compute-vertex-cones=4ti2"], ["--redundancy-check=cddlib"], ["--redundancy-check=none"]]


def optsets(c, rng):
    """options of the runs of one case; what cannot be combined may be refused"""
    out = [([], True)] + [(o, o[0] in ("--homog", "--maxdet=5", "--exponential")) for o in rng.sample(OPTS, 2)]
    if c["interior"]:
        out = [(o, False) for o, _ in out]
    return out


def run_case(c, timeout=60):
    """the LattE file, and the CDD files when the case has them"""
    counting.run_case(c, c["_latte"], timeout)
    runs = c["runs"]
    for opts, files in c["_other"]:
        d = dict(c, _files=files, _name=list(files)[0])
        counting.run_case(d, [(opts, not c["interior"])], timeout)
        runs += d["runs"]
    c["runs"], c["_optsets"] = runs, c["_latte"] + [(o, True) for o, _ in c["_other"]]
    return c


def prepare(c, rng, verts):
    c["_latte"], c["_other"] = optsets(c, rng), []
    if not c["nonneg"] and rng.random() < 0.5:
        c["_other"].append((["--cdd"], {"input.ine": latte.ine(c["n"], c["rows"], c["lin"])}))
    if verts and formats.affdim(verts) == c["n"]:
        c["_other"].append((["--cdd"], {"input.ext": latte.ext(c["n"], [formats.q(v) for v in verts])}))
    return c


def run(ck):
    cases = []
    # the builder carries along the points of the dilation
    ck.model("LattBuildMC", tlc.cfg("Spec", dict(B=8, Dil=2, MaxDim=2, MaxOps=ck.scale(2, 3), K=1),
                                    ["TypeOK", "PointsAreExact", "CountsAgree"], ["CutsShrink"], "VIEW View\n"))
    jobs = [(dil, prof) for dil in (2, 3, 4, 7) for prof in ("any", "full", "lowdim")]
    gen = ck.generate_all([("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Dil=dil, MaxDim=5 if dil < 4 else 4 if dil == 4 else 2,
                                                                     Profile=prof, PerVariant=1, NumVariants=1), ["TypeOK"]),
                            ck.scale(70, 560), 60, ck.seed * 10 + dil) for dil, prof in jobs])
    for (dil, _), beh in zip(jobs, gen):
            for g in beh:
                c = counting.from_build(g, ck.rng)
                c["dil"] = dil
                if ck.rng.random() < 0.2:
                    c["interior"] = True
                    if c["how"] != "points":
                        continue
                cases.append(prepare(c, ck.rng, g["verts"]))
    # families; their points are enumerated by the judge
    for g in ck.generate("LattCatalog", counting.catalog_cfg(FAMS), ck.scale(400, 4000), 5):
        if g["n"] > 5 or max(abs(r[0]) for r in g["rows"]) > 30:
            continue
        c = counting.from_catalog(g, ck.rng)
        c["dil"] = ck.rng.randint(2, {1: 9, 2: 9, 3: 4, 4: 3}.get(g["n"], 2))
        if ck.rng.random() < 0.2:
            c["interior"] = True
        cases.append(prepare(c, ck.rng, [[v, 1] for v in g["verts"]]))
    # large factors
    for g in ck.generate("LattCatalog", counting.catalog_cfg(["transport", "order", "smallhull", "hypersimplex", "cube", "cross", "pyramid"]),
                         ck.scale(200, 2000), 5, seed=ck.seed + 77):
        if counting.affordable({"rows": g["rows"], "n": g["n"], "_fam": g["fam"]}):
            c = counting.from_catalog(g, ck.rng)
            k = ck.rng.choice([10, 1000, 99991, 10 ** 6, 123456789, 2 ** 31 - 1])
            c["big"], c["_dil"], c["dilres"] = True, k, [k % p for p in checklib.PRIMES]
            cases.append(prepare(c, ck.rng, [[v, 1] for v in g["verts"]]))
    cases = latte.pmap(run_case, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("CountTrace", cases, record=lambda c: run_case(dict(c)), describe=counting.describe, match=counting.match)


checklib.main(run, "C06", ["count"])
