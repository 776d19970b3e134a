import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, formats, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, MaxPts=300, MaxCoef=500, PerVariant=9, NumVariants=4)


def run(ck):
    beh = []
    for prof, n, steps in (("any", 250, 4), ("full", 250, 4), ("lowdim", 150, 5), ("empty", 40, 3)):
        beh += ck.generate("LattDescribe", tlc.cfg("DescSpec", dict(GEN, Profile=prof, Steps=steps), ["TypeOK", "SameDescription"]),
                           ck.scale(n, 8 * n), 70)
    cases = [formats.from_desc(g, ck.rng) for g in beh]
    cases = latte.pmap(lambda c: formats.run_case(c), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("CountTrace", cases, record=lambda c: formats.run_case(dict(c)), describe=formats.describe)


checklib.main(run, "C03", ["count"])
