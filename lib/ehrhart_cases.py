"""The cases of C07 (polynomials) and C08 (series and Taylor coefficients)."""
import counting, ehrhart, formats, latte, tlc

FAMS = ["transport", "magic", "order", "hull", "smallhull", "hypersimplex", "cube", "cross", "pyramid"]
POLY = [["--irrational-primal"], ["--irrational-all-primal"], ["--all-primal"], ["--maxdet=2"], ["--maxdet=10"], ["--maxdet=1000"],
        ["--exponential"], ["--triangulation=cddlib"], ["--random-seed=7"], ["--compute-vertex-cones=cdd"], ["--compute-vertex-cones=4ti2"],
        ["--redundancy-check=none"], ["--redundancy-check=full-cddlib"], ["--triangulation=delone"],
        ["--irrational-primal", "--maxdet=5"], ["--all-primal", "--maxdet=100"]]
SERIES = [["--redundancy-check=cddlib"], ["--triangulation=cddlib"], ["--random-seed=7"], ["--triangulation=4ti2"]]


def case(g, rng, verts, d, q, lo, hi):
    """one polytope (nonnegativity rows may go to a nonnegative line)"""
    lin = [i - 1 for i in g["lin"]]
    c = {"n": g["n"], "rows": g["rows"], "lin": lin, "d": d, "q": q, "lo": lo, "hi": hi, "verts": verts, "runs": [],
         "_ops": g.get("ops", g.get("fam"))}
    r2, l2, nn = counting.nonneg_split(g["rows"], lin, rng)
    c["_text"] = latte.hrep(g["n"], r2, l2, nn, rng.choice(["ln", "nl"]))
    c["_ine"] = latte.ine(g["n"], g["rows"], lin)
    return c


def jobs(c, what, rng, integral_verts, points):
    must = c["d"] > 0 and points
    H, out = {"input.latte": c["_text"]}, []
    if what == "poly":
        out = [("poly", [], H, 0, must and c["q"] == 1)]
        out += [("poly", o, H, 0, False) for o in rng.sample(POLY, 3)]
        out.append(("poly", ["--cdd"], {"input.ine": c["_ine"]}, 0, must and c["q"] == 1))
        if integral_verts and c["d"] == c["n"]:
            t = [formats.q(v) for v in integral_verts]
            out.append(("poly", ["--vrep"], {"input.vrep": latte.vrep(c["n"], t)}, 0, True))
            out.append(("poly", ["--cdd"], {"input.ext": latte.ext(c["n"], t)}, 0, True))
    else:
        N = rng.choice([1, 2, 3, 5, 8, 15, 40, 100])
        out = [("series", [], H, 0, must), ("taylor", [], H, N, must)]
        o = rng.choice(SERIES)
        out += [("series", o, H, 0, False), ("taylor", rng.choice(SERIES), H, rng.choice([1, 4, 6, 20]), False)]
        out.append(("taylor" if rng.random() < 0.6 else "series", ["--cdd"], {"input.ine": c["_ine"]}, N, False))
    c["_jobs"] = out
    return c


def run(ck, what):
    gen = dict(B=6, Dil=1, MaxDim=4, MaxPts=150, MaxCoef=200, PerVariant=1, NumVariants=1)
    cat = counting.catalog_cfg(FAMS + (["knapsack", "graph", "orthant", "boxcut"] if what == "series" else []))
    num = ck.scale(1, 8)
    B = ck.generate_all([("LattDescribe", tlc.cfg("DescSpec", dict(gen, Profile=p, Steps=s), ["TypeOK"]), n * num, 60, ck.seed * 10 + i)
                         for i, (p, s, n) in enumerate((("full", 3, 250), ("full", 1, 100), ("any", 4, 250), ("lowdim", 4, 200)))] +
                        [("LattCatalog", cat, 500 * num, 5, ck.seed)])
    cases = []
    for g in sum(B[:4], []):
        v = g["verts"]
        if not v or not g["npts"] and g["lin"]:
            continue
        q, d = ehrhart.period(v), formats.affdim(v)
        if what == "poly" and q > 1 and ck.rng.random() < 0.8:
            continue
        lo, hi = ehrhart.box_of(v)
        if q > 12 or ehrhart.work(lo, hi, q * (d + 1) - 1) * q * (d + 1) > (40000 if what == "series" else 20000):
            continue
        c = case(g, ck.rng, v, d, q, lo, hi)
        cases.append(jobs(c, what, ck.rng, v if q == 1 else None, g["npts"] > 0 or d == g["n"]))
    for g in B[4]:
        if not g["integral"] or not counting.affordable({"rows": g["rows"], "n": g["n"], "_fam": g["fam"]}):
            continue
        if g["how"] == "box":
            lo, hi = boxes(g)
        else:
            lo, hi = g["lo"], g["hi"]
            if g["how"] == "hull":
                lo, hi = ehrhart.box_of([[v, 1] for v in g["verts"]])
        if lo is None or any(a > b for a, b in zip(lo, hi)) or (g["how"] != "hull" and ehrhart.work(lo, hi, g["deg"]) > 3e6):
            continue
        if g["how"] == "hull" and ehrhart.work(lo, hi, g["deg"]) > 3000:
            continue
        c = case(g, ck.rng, [[v, 1] for v in g["verts"]], g["deg"], 1, lo, hi)
        cases.append(jobs(c, what, ck.rng, c["verts"], True))
    ck.note("%d cases" % len(cases))
    cases = latte.pmap(lambda c: ehrhart.observe(c, ck.rng), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("EhrhartTrace", cases, record=lambda c: ehrhart.observe(dict(c), ck.rng), describe=ehrhart.describe)


def boxes(g):
    """bounds by propagation (checked by nobody: too small a box would only raise alarms)"""
    n = g["n"]
    lo, hi = [None] * n, [None] * n
    rows = [(r, False) for r in g["rows"]] + [([-x for x in g["rows"][i - 1]], True) for i in g["lin"]]
    for _ in range(6):
        for r, _e in rows:
            for i in range(n):
                a = r[i + 1]
                if a == 0:
                    continue
                s = r[0]
                for j in range(n):
                    if j != i and r[j + 1]:
                        b = hi[j] if r[j + 1] > 0 else lo[j]
                        if b is None:
                            s = None
                            break
                        s += r[j + 1] * b
                if s is None:
                    continue
                if a > 0:
                    v = -(s // a)
                    lo[i] = v if lo[i] is None else max(lo[i], v)
                else:
                    v = s // -a
                    hi[i] = v if hi[i] is None else min(hi[i], v)
    if None in lo or None in hi:
        return None, None
    if any(a > b for a, b in zip(lo, hi)):
        return [1] * n, [0] * n          # no points; the bounds of an empty polytope grow without end
    return lo, hi
