import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, formats, histories, latte, tlc

GEN = dict(B=5, Dil=1, MaxDim=3, MaxPts=60, MaxCoef=60, PerVariant=1, NumVariants=1)


def run(ck):
    histories.shim()
    for ch, rm in ((True, True), (True, False)):
        ck.model("LattDir", tlc.cfg("DSpec", dict(Problems={1, 2}, Families={1, 2}, Checks=ch, Removes=rm, MaxRuns=ck.scale(3, 4)), ["NoMixing"]))
    k = ck.scale(1, 8)
    B = ck.generate_all(
        [("LattDir", tlc.cfg("GSpec", dict(Problems={1, 2, 3}, Families={f}, Checks=True, Removes=True, MaxRuns=9)), n * k, 12, ck.seed * 10 + f)
         for f, n in ((1, 60), (2, 60), (3, 50), (4, 40), (5, 40))] +
        [("LattDir", tlc.cfg("GSpec", dict(Problems={1, 2, 3}, Families={1, 2, 3, 4, 5}, Checks=True, Removes=True, MaxRuns=9)), 50 * k, 12, ck.seed)] +
        [("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Profile=p, Steps=s), ["TypeOK"]), n * k, 60, ck.seed * 10 + i)
         for i, (p, s, n) in enumerate((("full", 3, 120), ("full", 1, 40), ("any", 4, 60), ("any", 7, 40)))] +
        [("LattUnbounded", tlc.cfg("USpec", dict(B=5, Dil=1, MaxDim=3, MaxPts=60, MaxCoef=60, Profile="full", Steps=3, MaxRays=3, Lines=False),
                                   ["IsDirection"]), 20 * k, 40, ck.seed)])
    probs = sum(B[6:10], []) + B[10]        # also empty ones, single points and unbounded ones
    cases = []
    for g in sum(B[:6], []):
        cases.append({"plan": g["plan"], "_problems": ck.rng.sample(probs, 3), "_same": ck.rng.random() < 0.6, "_seed": ck.rng.randrange(10 ** 9), "runs": []})
    cases = latte.pmap(histories.observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("DirTrace", cases, record=lambda c: histories.observe(dict(c)), describe=histories.describe)


checklib.main(run, "C21", ["count", "ehrhart", "polyhedron-to-cones", "triangulate", "hilbert-from-rays", "integrate", "latte-maximize", "latte-minimize",
                           "ConvertCDDineToLatte"])
