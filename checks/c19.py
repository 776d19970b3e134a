import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, latte, rays, tlc

METHODS = [[], ["--triangulation=cddlib"], ["--triangulation=4ti2"], ["--triangulation=cdd"], ["--triangulation=topcom"], ["--triangulation=delone"]]
HEIGHTS = [[], [], ["--triangulation-max-height=3"], ["--triangulation-max-height=1000000"], ["--triangulation-bias=30"]]


def cones_of(text):
    try:
        return rays.read_cones(text), ""
    except (ValueError, KeyError, IndexError) as e:
        return [], "unreadable file: %s" % e


def event(opts, r, text, must, sub, heights=(), cones=None, bad=""):
    import counting
    rc = counting.rc_of(r)
    if rc == "ok" and text is None and cones is None:
        rc = "fail"
    if rc == "ok" and cones is None:
        cones, bad = cones_of(text)
    if cones and any(abs(x) >= rays.BIG for k in cones for v in k["rays"] + k["facets"] for x in v):
        rc, must = "skipped", False
    ok = rc == "ok"
    return {"opts": opts, "rc": rc, "must": must, "sub": sub, "heights": list(heights), "bad": bad if ok else "",
            "cones": [{"rays": k["rays"], "facets": k["facets"]} for k in cones] if ok else [], "_err": r.err[-300:], "_text": text}


def observe(c):
    c["runs"] = []
    n = c["n"]
    ext, rf = rays.cdd_ext(c["rays"], n), rays.rays_file(c["rays"], n)
    for prog, opts, sub, must in c["_jobs"]:
        label = prog + " " + " ".join(opts)
        if prog == "triangulate":
            r = latte.run(prog, opts + ["a.ext"], {"a.ext": ext}, want=["triangulation"])
            c["runs"].append(event(label, r, r.files["triangulation"], must, sub, [sum(x * x for x in v) for v in c["rays"]] if "--triangulation=delone" in opts else ()))
        elif prog == "triangulate-cone":
            cone = rays.cone_file(1, [0] * n, c["rays"])
            r = latte.run("triangulate", opts + ["a.cone"], {"a.cone": cone}, want=["triangulation"])
            c["runs"].append(event(label, r, r.files["triangulation"], must, sub, [sum(x * x for x in v) for v in c["rays"]] if "--triangulation=delone" in opts else ()))
        elif prog == "triang":
            r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate"] + opts + ["a.rays"], {"a.rays": rf}, want=["a.rays.triang"])
            c["runs"].append(event(label, r, r.files["a.rays.triang"], must, sub))
        elif prog == "subcones":
            r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate", "--output-subcones=s.sub"] + opts + ["a.ext"], {"a.ext": ext}, want=["s.sub"])
            cones, bad = None, ""
            if r.files["s.sub"] is not None:
                try:
                    m, w = rays.read_vectors(r.files["s.sub"])
                    if w != len(c["rays"]) or any(x not in (0, 1) for v in m for x in v):
                        bad = "not a list of indicators"
                    cones = [{"rays": [q for q, x in zip(c["rays"], v) if x], "facets": []} for v in m]
                except (ValueError, IndexError) as e:
                    cones, bad = [], "unreadable file: %s" % e
            c["runs"].append(event(label, r, r.files["s.sub"], must, sub, cones=cones, bad=bad))
        elif prog == "heights":
            hv = "1 %d\n%s\n" % (len(c["heights"]), " ".join(map(str, c["heights"])))
            r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate", "--triangulation-height-vector=h.vec"] + opts + ["a.rays"],
                          {"a.rays": rf, "h.vec": hv}, want=["a.rays.triang"])
            c["runs"].append(event(label, r, r.files["a.rays.triang"], must, sub, heights=c["heights"]))
    return c


def describe(c, why):
    return {"why": why, "rays": c["rays"], "heights": c["heights"], "file": rays.cdd_ext(c["rays"], c["n"]),
            "observed": [{"how": e["opts"], "rc": e["rc"], "text": e["_text"], "stderr": e["_err"]} for e in c["runs"]]}


def lowdim(c):
    import formats
    return formats.affdim([[[0] * c["n"], 1]] + [[r, 1] for r in c["rays"]]) < c["n"]


def jobs(c, rng):
    out = []
    def pick(prog, ms, k):
        for m in rng.sample(ms, k):
            h = rng.choice(HEIGHTS) if not m or "cddlib" in m[0] or "4ti2" in m[0] else []
            ns = rng.random() < 0.15 and (not m or "delone" not in m[0])
            o = m + h + (["--nonsimplicial-subdivision"] if ns else [])
            # only 4ti2 handles cones of lower dimension
            out.append((prog, o, ns or prog in ("triang", "subcones"), not c["_lowdim"] or (prog in ("triang", "subcones") and m == METHODS[2])))
    c["_lowdim"] = lowdim(c)
    pick("triangulate", METHODS, 3)
    pick("triangulate-cone", METHODS, 1)
    pick("triang", METHODS[1:3], 1)
    pick("subcones", METHODS[1:3], 1)
    out.append(("heights", rng.choice([[], ["--triangulation=4ti2"]]), True, True))
    return out


def run(ck):
    ck.model("LattPlacing", tlc.cfg("PSpec", dict(D=2, NumRays=4, K=1), ["CoversOnce", "OrderIrrelevant", "HilbertIsEnough"]))
    ck.model("LattPlacing", tlc.cfg("PSpec", dict(D=3, NumRays=4, K=1) if ck.thorough else dict(D=2, NumRays=4, K=2), ["CoversOnce", "OrderIrrelevant", "HilbertIsEnough"]))
    k = ck.scale(1, 8)
    G = dict(MinD=2, MaxD=4, Extra=3, W=3, Steps=7, Embed=False, Thick=2)
    gens = ck.generate_all([
        ("LattRaysGen", tlc.cfg("GenSpec", G, ["StaysPointed"]), 120 * k, 12, ck.seed),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, MaxD=3, Thick=1, W=4, Extra=5), ["StaysPointed"]), 100 * k, 12, ck.seed + 1),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, MinD=4, MaxD=5, Thick=1, W=1, Extra=2, Steps=4)), 40 * k, 12, ck.seed + 2),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, MaxD=3, Embed=True, Steps=9), ["StaysPointed"]), 80 * k, 12, ck.seed + 3)])
    cases = []
    for g in [x for l in gens for x in l]:
        if len(g["rays"]) > 9:
            continue
        g["heights"] = [ck.rng.choice([0, 1, ck.rng.randint(0, 9), ck.rng.randint(0, 60)]) for _ in g["rays"]]
        g["_jobs"] = jobs(g, ck.rng)
        cases.append(g)
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("TriangTrace", cases, record=lambda c: observe(dict(c)), describe=describe)


checklib.main(run, "C19", ["triangulate", "hilbert-from-rays"])
