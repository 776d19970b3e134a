import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, cones, counting, latte, tlc

GEN = dict(B=6, Dil=1, MaxDim=5, MaxPts=120, MaxCoef=500)
TRI = ["cddlib", "4ti2", "delone", "topcom", "placing-topcom"]


def jobs(g, rng, lin, recs, homog=False):
    r2, l2, nn = counting.nonneg_split(g["rows"], lin, rng)
    f = {"input.latte": latte.hrep(g["n"], r2, l2, nn, rng.choice(["ln", "nl"]))}
    out = []
    for method in ("--dual", "--irrational-primal", "--irrational-all-primal"):
        m = rng.choice([0, 1, 1, 1, 2, 3, 5, 10, 100])
        if method == "--dual" and rng.random() < 0.6:
            m = 1
        args = [method] + (["--no-decomposition"] if m == 0 else ["--maxdet=%d" % m])
        must = True
        if rng.random() < 0.25:
            args.append("--random-seed=%d" % rng.randint(1, 999))
        if rng.random() < 0.3:
            args.append("--triangulation=" + rng.choice(["cddlib", "delone"] if rng.random() < 0.7 else TRI))
            must = args[-1].endswith("cddlib")
        if rng.random() < 0.15:
            args.append("--smith-form=ilio")
        if rng.random() < 0.2:
            args.append("--dualization=" + rng.choice(["cdd", "4ti2"]))
        if rng.random() < 0.25 and not recs:
            args.append("--compute-vertex-cones=" + rng.choice(["cdd", "lrs", "4ti2"]))
            must = must and not args[-1].endswith("lrs")
        out.append((args + ["input.latte"], f, must, m))
    return out


def case(g, rng, recs=()):
    lin = [i - 1 for i in g.get("lin", [])]
    recs = list(recs)
    js = jobs(g, rng, lin, recs)
    if len(g["pts"]) <= 1 and not recs:
        js = [(a, f, False, m) for a, f, _, m in js]
    return {"n": g["n"], "rows": g["rows"], "lin": lin, "pts": g["pts"], "recs": recs, "_ops": g.get("ops"), "_jobs": js}


def run(ck):
    k = ck.scale(1, 8)
    c = dict(B=6, Dil=1, MaxN=4, MaxDet=60)
    B = ck.generate_all(
        [("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=p, Steps=s), ["TypeOK"]), n * k, 30, ck.seed * 10 + i)
         for i, (p, s, n) in enumerate((("any", 5, 200), ("full", 5, 200), ("lowdim", 6, 120)))] +
        [("LattUnbounded", tlc.cfg("USpec", dict(GEN, Profile=p, Steps=s, MaxRays=3, Lines=False), ["IsDirection", "PointsAreInside", "PointsAreAll"]),
          n * k, 40, ck.seed * 10 + i) for i, (p, s, n) in enumerate((("any", 3, 80), ("full", 3, 120)))] +
        [("LattSimplicial", tlc.cfg("SSpec", dict(c, MaxN=m, MaxDet=d), ["PointsOfParallelepiped"]), n * k, 5, ck.seed + m)
         for m, d, n in ((3, 200, 250), (4, 60, 100))] +
        [("LattBrion", tlc.cfg("BSpec", dict(c, MaxN=4), ["Brion", "BarvinokStep"]), 120 * k, 5, ck.seed)])
    cases = [case(g, ck.rng) for g in sum(B[:3], [])]
    cases += [case(g, ck.rng, g["recs"]) for g in sum(B[3:7], []) if g["pts"]]
    cases = latte.pmap(lambda c: cones.observe(c, ck.rng), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.cov["skipped_runs"] = sum(o["rc"] == "skipped" for c in cases for o in c["runs"])
    ck.judge("ConeTrace", cases, record=lambda c: cones.observe(dict(c), ck.rng), describe=cones.describe)


checklib.main(run, "C10", ["hstages"])
