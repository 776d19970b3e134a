import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, latte, polynomials, tlc


def run(ck):
    ck.model("LattPoly", tlc.cfg("TSpec", dict(Vars=3, Exps=[0, 1, 3], MaxCoef=1, Burst=2, MaxTerms=ck.scale(3, 4)), ["Stored"]))
    ck.model("LattPoly", tlc.cfg("TSpec", dict(Vars=2, Exps=[0, 1, 2], MaxCoef=1, Burst=1, MaxTerms=ck.scale(4, 5)), ["Stored"]))
    ck.model("LattPoly", tlc.cfg("DSpec", dict(Vars=3, Exps=[0, 1, 2, 3], MaxCoef=2, Burst=2, MaxTerms=1), ["Decomposed"]))
    k = ck.scale(1, 10)
    B = ck.generate_all([("LattPolyGen", tlc.cfg("PSpec", dict(MaxN=4, Kinds=[kind], MaxGrow=g)), n * k, 14, ck.seed)
                         for kind, g, n in (("mono", 8, 330), ("lin", 8, 220), ("prod", 5, 160))])
    cases = []
    for kind, gs in zip(("mono", "lin", "prod"), B):
        while gs:
            m = ck.rng.choice([1, 1, 2, 3])
            items, gs = gs[:m], gs[m:]
            if any(polynomials.zero(kind, g[s]) for g in items for s in ("left", "right")):
                cases += [polynomials.case(kind, [g], ck.rng) for g in items]
            else:
                cases.append(polynomials.case(kind, items, ck.rng))
    cases = latte.pmap(polynomials.observe, cases)
    ck.cov["program_runs"] += sum(len({o["prog"] for o in c["runs"]}) for c in cases)
    ck.cov["answers"] = sum(o["got"] for c in cases for o in c["runs"])
    ck.judge("PolyTrace", cases, record=lambda c: polynomials.observe(dict(c)), describe=polynomials.describe)


checklib.main(run, "C22", ["hpoly", "BurstIntegrate", "BlockIntegrate", "integrate_test", "integrate_demo", "multiply_test"])
