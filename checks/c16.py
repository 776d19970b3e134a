import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, counting, latte, tlc
from optimising import GEN, run_case, with_cost, describe

FAMS = ["orthant", "boxcut", "order", "graph", "cube", "cross", "pyramid", "knapsack", "transport", "hypersimplex"]


def run(ck):
    ck.generate("LattOptimiseMC", tlc.cfg("OSpec", dict(B=6, Dil=1), ["DigFinds", "BisectBrackets", "SlicesAgree"]),
                ck.scale(400, 5000), 80)
    n = ck.scale(1, 8)
    jobs = [("LattBuildGen", tlc.cfg("GenSpec", dict(GEN, Profile=p, Steps=s), ["TypeOK"]), m * n, 60, ck.seed * 10 + i)
            for i, (p, s, m) in enumerate((("full", 3, 90), ("full", 6, 90), ("lowdim", 5, 70), ("any", 5, 60), ("empty", 4, 15)))]
    jobs += [("LattCatalog", counting.catalog_cfg(FAMS), 160 * n, 5, ck.seed),
             ("LattObjective", tlc.cfg("JSpec", dict(MaxN=9)), 900 * n, 5, ck.seed)]
    out = ck.generate_all(jobs)
    J = {}
    for j in out[-1]:
        J.setdefault(j["n"], []).append(j)
    todo = []
    for c in [counting.from_build(g, ck.rng) for b in out[:-2] for g in b] + \
             [counting.from_catalog(g, ck.rng) for g in out[-2]]:
        if c["how"] == "npoints" or c["n"] > 9 or (c["how"] != "points" and not fits(c)):
            continue
        with_cost(c, ck.rng.choice(J[c["n"]]), ck.rng, ck.rng.random() < 0.15)
        todo.append((c, options(c, ck.rng)))
    cases = latte.pmap(lambda t: run_case(*t), todo)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("OptimiseTrace", cases, record=lambda c: run_case(dict(c), c["_optsets"], timeout=60), describe=describe)


def fits(c):
    return c["_fam"] not in ("cross", "pyramid") or c["n"] <= 4


def options(c, rng):
    equ = ["equ"] if c["lin"] else []
    out = []
    for prog in ("latte-maximize", "latte-minimize"):
        out.append((prog, equ, True))
        x = rng.random()
        if x < 0.4:
            out.append((prog, equ + ["bbs"], True))
        elif x < 0.7:
            out.append((prog, equ + ["single"], False))
    return out


checklib.main(run, "C16", ["latte-maximize", "latte-minimize", "count"])
