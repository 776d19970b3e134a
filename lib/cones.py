"""Cones between the vertex cones and the specialisation (harness hstages)."""
import counting, genfun, stages
from checklib import PRIMES

BIG = 2 ** 31 - 1


def rowsum(rows):
    v = 1
    for r in rows:
        v *= max(1, sum(abs(x) for x in r))
    return v


def run_of(args, files, must, maxdet):
    r, st = stages.read_stages(list(files)[0], files, args)
    o = {"opts": " ".join(args), "rc": counting.rc_of(r), "must": must, "maxdet": maxdet, "vars": 0,
         "origin": [], "finals": [], "starts": [], "perVertex": False, "z2": []}
    if o["rc"] != "ok" or not st or st[-1]["stage"] != "done":
        o["rc"] = "none" if o["rc"] == "ok" else o["rc"]
        return o, None
    o["vars"] = st[0]["vars"]
    basis = st[0]["basis"] if st[0]["projected"] else None
    o["origin"] = st[0]["origin"] if st[0]["projected"] else [0] * st[0]["vars"]
    group = 0
    for s in st[1:]:
        if s["stage"] == "vertex":
            v, d = stages.common(s["vertex"]) if s["vertex"] else [[], 1]
            o["starts"].append({"vertex": v, "den": d, "rays": s["rays"] or [], "exact": bool(v)})
        elif s["stage"] == "next":
            group += 1
        elif s["stage"] == "final":
            v, d = stages.common(s["vertex"]) if s["vertex"] else [[], 1]
            o["finals"].append({"coef": s["coef"], "vertex": v, "den": d, "rays": s["rays"], "pts": s["points"], "group": group,
                                "exact": True})
    o["perVertex"] = group == len(o["starts"])
    return o, basis


def limit(o):
    """keeps TLC's integers small; False: the run cannot be judged"""
    if len(o["finals"]) > 250 or sum(len(f["pts"]) for f in o["finals"]) > 2500:
        return False
    for f in o["finals"] + o["starts"]:
        top = max([1] + [sum(abs(f["den"] * x) + abs(y) for x, y in zip(p, f["vertex"])) for p in f.get("pts", [])])
        if rowsum(f["rays"]) * top >= BIG or f["den"] * rowsum(f["rays"]) >= BIG or not stages.small([f["vertex"], f["den"]]):
            f["exact"], f["vertex"], f["den"] = False, [], 1
        if rowsum(f["rays"]) * max([1] + [max(map(abs, p)) for p in f.get("pts", []) if p]) >= BIG:
            return False
    return stages.small([o["origin"]])


def observe(c, rng):
    """c['_jobs']: (args, files, must, maxdet)"""
    c["runs"] = []
    bases = []
    for args, files, must, maxdet in c["_jobs"]:
        o, basis = run_of(args, files, must, maxdet)
        if o["rc"] == "ok" and not limit(o):
            o.update(rc="skipped", must=False, finals=[], starts=[])
        c["runs"].append(o)
        bases.append(basis)
    for _ in range(100):
        c["z"] = [[rng.randrange(2, p - 1) for _ in range(c["n"])] for p in PRIMES]
        ok = genfun.value_exists(c["z"], c["recs"])
        for o, b in zip(c["runs"], bases):
            if o["rc"] != "ok":
                continue
            o["z2"] = []
            for z, p in zip(c["z"], PRIMES):
                y = []
                for j in range(o["vars"]):
                    if b is None:
                        y.append(z[j])
                    else:
                        v = 1
                        for i in range(c["n"]):
                            v = v * pow(z[i], b[i][j] % (p - 1), p) % p
                        y.append(v)
                o["z2"].append(y)
            rays = {tuple(r) for f in o["finals"] + o["starts"] for r in f["rays"]}
            ok = ok and genfun.value_exists(o["z2"], rays)
        if ok:
            return c
    raise RuntimeError("no evaluation point")


def describe(c, why):
    k = counting.event(why)
    return {"why": why, "run": c["_jobs"][k] if k is not None else None, "observed": c["runs"][k] if k is not None else None,
            "points": c["pts"][:50], "recs": c["recs"], "rows": c["rows"], "lin": c["lin"]}
