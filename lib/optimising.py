"""latte-maximize and latte-minimize: cases, runs, observation."""
import re
import counting, latte, tlc
from checklib import num, PRIMES

GEN = dict(B=6, Dil=1, MaxDim=4, MaxPts=300, MaxCoef=300)
SOL = re.compile(r"An optimal solution for\s+\[[^\]]*\] is: \[([^\]]*)\]")
VAL = re.compile(r"The optimal value(?: is)?:\s*(-?\d+)")
NUM = re.compile(r"There (?:is|are) (one|-?\d+) optimal solution")
NUMB = re.compile(r"^(?:The number of optimal solutions: )?(-?\d+)\nTime: ", re.M)


def observe(r, prog, opts, must):
    ns = [1 if x == "one" else int(x) for x in NUM.findall(r.err)] + [int(x) for x in NUMB.findall(r.err)]
    if "single" in opts:
        ns = []         # one vertex cone only: other optima are not seen
    sols = [[int(x) for x in s.split()] for s in SOL.findall(r.err)]
    return {"max": prog == "latte-maximize", "opts": " ".join(opts), "rc": counting.rc_of(r), "must": must,
            "sols": [s for s in sols if max([abs(x) for x in s] or [0]) < 10 ** 8],
            "vals": [num(v) for v in VAL.findall(r.err)], "num": [num(v) for v in ns],
            "empty": ("ntegrally empty" in r.err or "Empty polytope" in r.err) and "latte_BS" not in r.err}


def run_case(c, optsets, timeout=20):
    n = c["n"]
    cost = [c["_k"] * x for x in c["cost"]]
    files = {"p": counting.text_of(c), "p.cost": "1 %d\n%s\n" % (n, " ".join(map(str, cost)))}
    c["_files"], c["_optsets"], c["runs"] = files, optsets, []
    for prog, opts, must in optsets:
        r = latte.run_lucky(prog, list(opts) + ["p"], files, timeout=timeout if must else 4)
        if r.rc == "timeout" and must and timeout < 60:
            r = latte.run_lucky(prog, list(opts) + ["p"], files, timeout=60)
        c["runs"].append(observe(r, prog, opts, must))
    return c


def with_cost(c, j, rng, big):
    if j["kind"] == "row":
        r = c["rows"][j["pick"] % len(c["rows"])]
        c["cost"] = [j["sign"] * x for x in r[1:]]
    else:
        c["cost"] = j["cost"]
    k = rng.randint(1, 10 ** rng.choice([3, 9, 25])) if big else 1
    c["_k"], c["scale"] = k, [k % p for p in PRIMES]
    return c


def describe(c, why):
    return {"why": why, "files": c["_files"], "programs": [[p] + list(o) for p, o, _ in c["_optsets"]],
            "observed": c["runs"], "objective": c["cost"], "factor": c["_k"], "points": c["npts"]}
