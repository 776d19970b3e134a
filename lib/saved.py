"""Histories of saved cones: the plans of LattSaved carried out with the programs."""
import os, shutil, tempfile
from fractions import Fraction
import counting, ehrhart, genfun, latte, rays
from checklib import num, PRIMES

COUNT = [[], [], ["--exponential"], ["--irrational-primal"], ["--irrational-all-primal"], ["--maxdet=3"], ["--irrational-primal", "--maxdet=10"],
         ["--triangulation=4ti2"], ["--random-seed=5"]]
DUALCOUNT = [[], [], ["--triangulation=4ti2"], ["--random-seed=3"]]
TRI = [[], ["--triangulation=cddlib"], ["--triangulation=4ti2"], ["--triangulation=topcom"], ["--triangulation=delone"]]


def key(c):
    return (tuple(Fraction(x) for x in c["vertex"]), tuple(sorted(map(tuple, c["rays"]))), tuple(sorted(map(tuple, c["facets"]))))


def dump(cones):
    return "".join(rays.cone_file(c["coef"], c["vertex"], c["rays"], c["facets"], c["det"], c.get("ddet", 0)) for c in cones) + "\n"


class Names:
    def __init__(self):
        self.ids = {}

    def of(self, c):
        return self.ids.setdefault(key(c), len(self.ids) + 1)


def vertex_of(c):
    v = [Fraction(x) for x in c["vertex"]]
    d = 1
    for x in v:
        d = d * x.denominator // __import__("math").gcd(d, x.denominator)
    w = [int(x * d) for x in v]
    return [w, d] if d < 30000 and all(abs(x) < 10 ** 6 for x in w) else []


def observe(c, rng):
    """c['plan'], c['_in'] (options, files): fills c['runs']"""
    seed = c.setdefault("_seed", rng.randrange(10 ** 9))
    rng = __import__("random").Random(seed)
    d = tempfile.mkdtemp(prefix="verif-saved-")
    try:
        return _observe(c, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def blank(op, part, how):
    return {"op": op, "how": how, "part": part, "from": 0, "rc": "ok", "must": False, "bad": "", "cones": [], "verts": [],
            "terms": [], "got": False, "val": [], "dil": 1, "unbounded": False, "_text": "", "_err": ""}


def _observe(c, rng, d):
    names, texts, cones, made = Names(), [], [], []
    runs = c["runs"] = []
    opts, files = c["_in"]
    dual = c["plan"][0]["set"] == [1]
    must = c["must"]
    sub = None          # the subcones file belongs to file 1

    def record(e, text, r, f=None):
        """a cone file has been written by a program (r) or by the user"""
        e["_text"] = text
        if r is not None:
            e["rc"], e["_err"] = counting.rc_of(r), r.err[-300:]
            if text is None and e["rc"] == "ok":
                e["rc"] = "none"
        cs = []
        if e["rc"] == "ok":
            try:
                cs = [] if "No cones in list" in (text or "") else rays.read_cones(text)
                if e["op"] == "compute" and not dual:
                    cs.sort(key=key)
                e["cones"] = [[names.of(x), x["coef"]] for x in cs]
                if e["op"] == "compute" and not dual:
                    vs = [vertex_of(x) for x in cs]
                    e["verts"] = vs if all(vs) else []
            except (ValueError, KeyError, IndexError, ZeroDivisionError) as x:
                e["bad"] = "unreadable cone file: %s" % x
        runs.append(e)
        texts.append(text)
        cones.append(cs)
        made.append(len(runs))

    def ptc(args, what):
        for f in args:
            pass
        r = latte.run("polyhedron-to-cones", what + ["--output-cones=out.cones"], args, want=["out.cones"], cwd=None)
        return r, r.files["out.cones"]

    flag = "--input-dual-homog-cones=" if dual else "--input-vertex-cones="
    for s in c["plan"]:
        src = [i - 1 for i in s["src"]]
        if any(texts[i] is None or (not cones[i] and runs[made[i] - 1]["rc"] != "ok") for i in src):
            if s["op"] not in ("count", "gf"):
                e = blank(s["op"], s["part"], "skipped")
                e["rc"] = "skipped"
                runs.append(e)
                texts.append(None)
                cones.append([])
                made.append(len(runs))
            continue
        e = blank(s["op"], s["part"], s["op"])
        if src:
            e["from"] = made[src[0]]
        if s["op"] == "compute":
            o = opts + (["--homog"] if dual else [])
            e["how"], e["must"] = " ".join(o), must
            r, t = ptc(files, o + list(files))
            record(e, t, r)
        elif s["op"] == "copy":
            e["must"] = True
            r, t = ptc({"in.cones": texts[src[0]]}, [flag + "in.cones"])
            record(e, t, r)
        elif s["op"] == "subdivide":
            o = rng.choice(TRI)
            e["how"] = " ".join(["triangulate"] + o)
            r = latte.run("triangulate", o + ["in.cones"], {"in.cones": texts[src[0]]}, want=["triangulation"])
            record(e, r.files["triangulation"], r)
        elif s["op"] in ("take", "rest", "join", "negate", "shuffle"):
            first = [k for k, _ in runs[made[0] - 1]["cones"]]
            cl = lambda x: s_class(first, names.of(x))
            a = cones[src[0]]
            if s["op"] == "take":
                out = [x for x in a if cl(x) in s["set"]]
            elif s["op"] == "join":
                out = a + cones[src[1]]
            elif s["op"] == "negate":
                out = [dict(x, coef=-x["coef"]) for x in a]
            elif s["op"] == "rest":        # the whole with parts taken away
                out = a + [dict(x, coef=-x["coef"]) for x in cones[src[1]]]
                out = cancel(out, names)
            else:
                out = a[:]
                rng.shuffle(out)
            record(e, dump(out) if out else "No cones in list.\n\n", None)
        elif s["op"] == "count":
            count(c, rng, e, s, texts[src[0]], flag, dual, runs)
        elif s["op"] == "gf":
            gf(c, e, texts[src[0]], flag, runs)
    # results from every file
    for i, t in enumerate(texts):
        if t is None or not cones[i]:
            continue
        part = runs[made[i] - 1]["part"]
        if not dual and c["full"] and any(part):
            e = blank("gf", part, "gf of file %d" % (i + 1))
            gf(c, e, t, flag, runs)
        if all(x == 1 for x in part) and i > 0:
            e = blank("count", part, "")
            count(c, rng, e, None, t, flag, dual, runs)
    if dual and texts and texts[0] and cones[0]:
        subcones(c, rng, cones[0][0], runs)
    rs = sorted({tuple(x) for e in runs for q in e["terms"] for x in q["rays"]} | {tuple(x) for x in c["recs"]})
    for k in range(200):
        c["z"] = [[rng.randrange(2, p - 1) for _ in range(c["n"])] for p in PRIMES]
        if genfun.value_exists(c["z"], rs):
            break
    else:
        raise RuntimeError("no evaluation point")
    return c


def s_class(first, k):
    return (first.index(k) % 3) + 1 if k in first else 0


def cancel(cs, names):
    """cones whose coefficients cancel are left out"""
    tot, rep = {}, {}
    for x in cs:
        k = names.of(x)
        tot[k] = tot.get(k, 0) + x["coef"]
        rep.setdefault(k, x)
    return [dict(rep[k], coef=v) for k, v in tot.items() if v]


def result(r, e):
    f = (r.files.get("numOfLatticePoints") or "").strip()
    e["rc"], e["_err"] = counting.rc_of(r), r.err[-300:]
    if r.err and "unbounded" in r.err.lower():
        e["unbounded"] = True
    m = counting.ERRNUM.findall(r.err)
    if e["rc"] == "ok":
        v = f if f.lstrip("-").isdigit() else (m[-1] if m else "")
        e["val"] = [num(v)] if v else []


def count(c, rng, e, s, text, flag, dual, runs):
    o = list(rng.choice(DUALCOUNT if dual else COUNT))
    if c["dils"] and rng.random() < 0.4:
        e["dil"] = rng.choice(c["dils"])
        o.append("--dilation=%d" % e["dil"])
    e["op"], e["how"] = "count", "count " + " ".join(o)
    e["must"] = c["must"] and not (dual and e["rc"] != "ok")
    r = latte.run_lucky("count", [flag + "in.cones"] + o, {"in.cones": text}, want=["numOfLatticePoints"])
    result(r, e)
    runs.append(e)


def gf(c, e, text, flag, runs):
    if not c["full"]:
        return
    r = latte.run_lucky("count", [flag + "in.cones", "--multivariate-generating-function"], {"in.cones": text}, want=["in.cones.rat"])
    e["rc"], e["_err"], e["must"] = counting.rc_of(r), r.err[-300:], c["must"]
    t = r.files["in.cones.rat"]
    e["_text"] = t
    if t is not None and e["rc"] == "ok":
        try:
            e["terms"], e["got"] = genfun.parse(t, c["n"]), True
        except ValueError as x:
            e["bad"] = "the generating function cannot be read"
        if any(not any(x) for q in e["terms"] for x in q["rays"]):
            e["bad"], e["terms"], e["got"] = "a denominator vanishes", [], False
        if max([abs(x) for q in e["terms"] for v in q["rays"] + q["pts"] for x in v] + [0]) >= 2 ** 31 - 1 or len(e["terms"]) > 800:
            e["terms"], e["got"], e["must"] = [], False, False
    runs.append(e)


def subcones(c, rng, cone, runs):
    """the same dual cone as a CDD file, whole and with a subdivision"""
    n = len(cone["rays"][0])
    ext = rays.cdd_ext(cone["rays"], n)
    e = blank("count", [1, 1, 1], "")
    o = rng.choice(DUALCOUNT)
    e["how"], e["must"] = "--input-dual-homog-cone " + " ".join(o), c["must"]
    result(latte.run_lucky("count", ["--input-dual-homog-cone=d.ext"] + o, {"d.ext": ext}, want=["numOfLatticePoints"]), e)
    runs.append(e)
    t = rng.choice(TRI)
    r = latte.run("hilbert-from-rays", ["--quiet", "--only-triangulate", "--output-subcones=s.sub"] + t + ["d.ext"], {"d.ext": ext}, want=["s.sub"])
    if r.files["s.sub"] is None or r.rc != 0:
        return
    e = blank("count", [1, 1, 1], "--input-dual-homog-cone --subcones " + " ".join(t))
    e["must"] = False
    result(latte.run_lucky("count", ["--input-dual-homog-cone=d.ext", "--subcones=s.sub"], {"d.ext": ext, "s.sub": r.files["s.sub"]},
                           want=["numOfLatticePoints"]), e)
    runs.append(e)


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "input": c["_in"], "plan": c["plan"], "rows": c["rows"], "lin": c["lin"], "points": c["pts"][:30], "recs": c["recs"],
            "event": c["runs"][k] if k is not None and k < len(c["runs"]) else None, "observed": c["runs"]}
