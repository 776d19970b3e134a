import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, converting as cv, counting, latte, tlc


def observe(c):
    c["events"] = []
    n = c["n"]
    text = latte.hrep(n, c["rows"], [i - 1 for i in c["lin"]], list(range(n)), c["_order"])
    # the rows of the nonnegative line follow
    r = latte.run("aggregate", [str(i) for i in c["agg"]], stdin=text)
    e = cv.file_event("aggregate", r, r.out, cv.read_latte, must=True)
    small = []
    for row in e["desc"]["_plain"]:
        small.append([int(x) for x in row] if all("/" not in x and abs(int(x)) < 1000 for x in row) else [])
    e["desc"]["small"] = small
    c["events"].append(e)
    if e["rc"] == "ok":
        q = latte.run_lucky("count", ["x.latte"], {"x.latte": r.out}, want=["numOfLatticePoints"])
        ev = cv.count_event("count", q, bool(c["pts"]))
        ev["desc"]["small"] = []
        if not c["pts"] and not ev["val"] and "mpty" in q.err:
            ev["val"] = [checklib.num(0)]
        c["events"].append(ev)
    return c


def describe(c, why):
    return {"why": why, "rows": c["rows"], "lin": c["lin"], "agg": c["agg"], "points": c["pts"],
            "observed": [{"how": e["how"], "rc": e["rc"], "text": e["_text"], "count": e["val"], "stderr": e["_err"]} for e in c["events"]]}


def run(ck):
    ck.model("LattAggregate", tlc.cfg("Spec0", dict(MaxN=2, MaxM=2, MaxA=1, MaxB=2), ["Kept"]))
    if ck.thorough:
        ck.model("LattAggregate", tlc.cfg("Spec0", dict(MaxN=2, MaxM=2, MaxA=2, MaxB=2), ["Kept"]))
    cases = []
    for n in (1, 2, 3, 4):
        for g in ck.generate("LattAggregate", tlc.cfg("GSpec0", dict(MaxN=n, MaxM=3, MaxA=9, MaxB=12)), ck.scale(80, 800), 4):
            if len(g["pts"]) <= 200:
                g.update(events=[], _order=ck.rng.choice(["ln", "nl"]))
                cases.append(g)
    cases = latte.pmap(observe, cases)
    ck.cov["program_runs"] += sum(len(c["events"]) for c in cases)
    ck.judge("AggregateTrace", cases, record=lambda c: observe(dict(c)), describe=describe)


checklib.main(run, "C26", ["count", "aggregate"])
