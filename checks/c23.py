import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, corrupting, latte, tlc

KINDS = [("latte", 180), ("vrep", 60), ("ine", 70), ("ext", 60), ("mono", 70), ("lin", 60), ("prod", 60), ("cones", 60), ("knapsack", 30),
         ("rays", 40), ("args", 60)]
WORDS = ["x", "nan", "inf", "0x1", "linearity", "1e", "end"]


def run(ck):
    for kind, n in (("latte", ck.scale(9, 10)), ("mono", 12), ("lin", 15), ("prod", 17), ("ine", ck.scale(7, 8))):
        ck.model("LattReaderMC", tlc.cfg("MCSpec", dict(Kind=kind, MaxLen=n, N=1), ["ReaderIsGrammar", "Balanced", "NothingAfter"]), args=("-deadlock",))
    k = ck.scale(1, 30)
    G = ck.generate_all([("LattCorrupt", tlc.cfg("CSpec", dict(Kind=kind, MaxDim=3, B=3, Words=WORDS), ["BaseIsGood"]), n * k, 8, ck.seed)
                         for kind, n in KINDS])
    cases = []
    for g in sum(G, []):
        cases.append({x: g[x] for x in ("kind", "n", "eq", "doc", "what", "rows", "lin")})
    cases = latte.pmap(lambda c: corrupting.observe(c, ck.rng), cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.judge("CorruptTrace", cases, record=lambda c: corrupting.observe(dict(c), ck.rng), describe=corrupting.describe)


checklib.main(run, "C23", ["count", "integrate", "latte2ine", "latte2ext", "polyhedron-to-cones",
                           "ConvertCDDineToLatte", "top-ehrhart-knapsack", "hilbert-from-rays"])
