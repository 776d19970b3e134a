import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, rays, tlc

DUAL = [[], [], ["--dualization=cdd"], ["--dualization=4ti2"]]
TRI = [[], [], ["--triangulation=4ti2"], ["--triangulation=cddlib"], ["--triangulation=topcom"], ["--triangulation=cdd"], ["--triangulation-max-height=2"],
       ["--triangulation-bias=30"], ["--triangulation=delone"]]
ENUM = [[], [], ["--max-determinant-for-enumeration=1000000"], ["--max-determinant-for-enumeration=5"]]
FACETS = [[], [], ["--max-facets=3"], ["--max-facets=4"], ["--max-facets=1"]]
INIT = [[], ["--no-initial-triangulation"], ["--no-triang-file"], ["--output-subcones=o.sub"]]


def vectors(text):
    if text is None:
        return [], "no file"
    try:
        v, n = rays.read_vectors(text)
        return v, ""
    except (ValueError, IndexError) as e:
        return [], "unreadable file: %s" % e


def event(opts, r, texts, must, n):
    rc = counting.rc_of(r)
    hil, bad = [], ""
    if rc == "ok":
        for t in texts:
            v, b = vectors(t)
            hil += v
            bad = bad or b
        if any(len(v) != n for v in hil):
            bad = "a vector of another dimension"
        if any(abs(x) > 10 ** 6 for v in hil for x in v):
            bad = "a vector with huge entries"
    return {"opts": opts, "rc": rc, "must": must, "bad": bad, "hil": [] if bad else hil, "_err": r.err[-300:], "_text": "\n".join(str(t) for t in texts)}


def observe(c):
    c["runs"] = []
    n = c["n"]
    ext, rf = rays.cdd_ext(c["rays"], n), rays.rays_file(c["rays"], n)
    for kind, opts, must in c["_jobs"]:
        label = kind + " " + " ".join(opts)
        name = "a.ext" if c["_ext"] else "a.rays"
        files = {name: ext if c["_ext"] else rf}
        if kind == "one":
            r = latte.run("hilbert-from-rays", ["--quiet"] + opts + [name], files, want=[name + ".hil"])
            c["runs"].append(event(label, r, [r.files[name + ".hil"]], must, n))
        elif kind == "triang":           # triangulate, then work on the triangulation
            r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate"] + opts + [name], files, want=[name + ".triang"])
            if r.files[name + ".triang"]:
                r = latte.run("hilbert-from-rays", ["--quiet"] + opts + ["b.triang"], {"b.triang": r.files[name + ".triang"]}, want=["b.triang.hil"])
                c["runs"].append(event(label, r, [r.files["b.triang.hil"]], must, n))
            else:
                c["runs"].append(event(label, r, [None], must, n))
        elif kind == "subcones":         # the subcones in two files
            r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate", "--output-subcones=o.sub"] + opts + [name], files, want=["o.sub"])
            v, bad = vectors(r.files["o.sub"])
            if bad or not v:
                c["runs"].append(event(label, r, [r.files["o.sub"]], must, n))
                continue
            texts, rs = [], []
            k = (len(v) + 1) // 2
            for part in (v[:k], v[k:]):
                if part:
                    f = dict(files, **{"p.sub": rays.rays_file(part, len(c["rays"]))})
                    h = name + "--subcones-p.sub.hil"
                    r = latte.run("hilbert-from-rays", ["--quiet", "--subcones=p.sub"] + opts + [name], f, want=[h])
                    texts.append(r.files[h])
                    rs.append(r)
            worst = ([x for x in rs if x.rc != 0] + rs)[0]
            c["runs"].append(event(label, worst, texts, must, n))
    return c


def describe(c, why):
    return {"why": why, "rays": c["rays"], "file": rays.cdd_ext(c["rays"], c["n"]),
            "observed": [{"how": e["opts"], "rc": e["rc"], "text": e["_text"], "stderr": e["_err"]} for e in c["runs"]]}


def run(ck):
    for D, K in ((2, 1), (2, 2)):
        ck.model("LattPlacing", tlc.cfg("PSpec", dict(D=D, NumRays=4, K=K), ["CoversOnce", "OrderIrrelevant", "HilbertIsEnough"]))
    k = ck.scale(1, 8)
    G = dict(MinD=2, MaxD=3, Extra=3, W=3, Steps=7, Embed=False, Thick=2)
    gens = ck.generate_all([
        ("LattRaysGen", tlc.cfg("GenSpec", G, ["StaysPointed"]), 100 * k, 12, ck.seed),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, Thick=4, W=5, Extra=1, Steps=4), ["StaysPointed"]), 100 * k, 12, ck.seed + 1),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, MinD=4, MaxD=4, W=1, Extra=2, Steps=3)), 80 * k, 12, ck.seed + 2),
        ("LattRaysGen", tlc.cfg("GenSpec", dict(G, Embed=True, Steps=9), ["StaysPointed"]), 80 * k, 12, ck.seed + 3)])
    cases = []
    for g in [x for l in gens for x in l]:
        if len(g["rays"]) > 8:
            continue
        rng = ck.rng
        low = counting_lowdim(g)
        g["budget"] = ck.scale(2500, 6000)
        g["_ext"] = rng.random() < 0.5
        js = [("one", [], True), ("one", ["--no-initial-triangulation"], not low)]
        for _ in range(3):
            kind = rng.choice(["one", "one", "triang", "subcones"])
            t = rng.choice(TRI)
            o = rng.choice(DUAL) + t + rng.choice(ENUM) + rng.choice(FACETS) + (rng.choice(INIT) if kind == "one" else [])
            # only 4ti2 subdivides cones of lower dimension; fixed subdivisions may make no progress
            must = not (low and t and t[0] not in ("--triangulation=4ti2",))  \
                and not (low and "--no-initial-triangulation" in o) \
                and "--max-facets=1" not in o and not ("--max-facets=3" in o and g["n"] > 3) and "--triangulation=delone" not in o
            js.append((kind, o, must))
        g["_jobs"] = js
        cases.append(g)
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("HilbertTrace", cases, record=lambda c: observe(dict(c)), describe=describe)


def counting_lowdim(g):
    import formats
    return formats.affdim([[[0] * g["n"], 1]] + [[r, 1] for r in g["rays"]]) < g["n"]


checklib.main(run, "C18", ["hilbert-from-rays"])
