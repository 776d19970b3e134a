"""Reading polyhedra: the coordinates and vertex cones the programs work with."""
import counting, latte, stages


def blank(n, rows, lin, nonneg, pts, verts, npts, dil=1, opts=()):
    return {"n": n, "rows": rows, "lin": lin, "nonneg": nonneg, "pts": [[dil * x for x in p] for p in pts],
            "npts": npts if dil == 1 else -1,
            "verts": [scaled(v, dil) for v in verts], "dil": dil, "obs": [], "early": -1, "stages": [], "_opts": list(opts)}


def scaled(v, k):
    from math import gcd
    n, d = [k * x for x in v[0]], v[1]
    g = d
    for x in n:
        g = gcd(g, x)
    return [[x // g for x in n], d // g]


def observe(c, timeout=60):
    text = latte.hrep(c["n"], c["rows"], c["lin"], c["nonneg"], c.get("_order", "ln"))
    c["_text"] = text
    args = ["--read-only"] + c["_opts"] + (["--dilation=%d" % c["dil"]] if c["dil"] != 1 else []) + ["input.latte"]
    r, st = stages.read_stages(text, {"input.latte": text}, args, timeout)
    c["obs"], c["early"], c["stages"] = [], -1, []
    if st and st[0]["stage"] == "read" and st[0]["vars"] > 0:
        s = st[0]
        cones = [x for x in st[1:] if x["stage"] == "vertex"]
        o = {"vars": s["vars"], "basis": s["basis"], "origin": s["origin"], "matrix": s["matrix"],
             "verts": [stages.common(x["vertex"]) for x in cones],
             "cones": [{"vertex": stages.common(x["vertex"]), "rays": x["rays"]} for x in cones if x["rays"]]}
        if not stages.small([o["basis"], o["origin"], o["matrix"]]):
            c["_skip"] = True
            return c
        c["obs"] = [o]
        c["stages"] = ["lattice", "equations", "points"]
        if stages.small([x for v in o["verts"] for x in v[0] + [v[1]]]) and c["_vertices"]:
            c["stages"].append("vertices")
            if o["cones"] and c["n"] <= 4 and len(c["rows"]) <= 12:
                c["stages"].append("rays")
        if not o["cones"]:
            o["cones"] = [{"vertex": [[0], 1], "rays": [[0]]}]
    else:
        f = (r.files["numOfLatticePoints"] or "").strip()
        c["early"] = int(f) if f.isdigit() and int(f) < 2 ** 30 else -1 - 10 ** 9
        c["stages"] = ["early"]
        c["_err"] = r.err[-500:]
        c["_rc"] = r.rc
    return c


def describe(c, why):
    return {"why": why, "file": c["_text"], "options": c["_opts"], "dilation": c["dil"], "observed": c["obs"] or [c["early"], c.get("_err")]}
