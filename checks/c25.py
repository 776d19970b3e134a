import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, database, latte, tlc

G = dict(Fill=14, Ops=24, Dims=[2, 3], Vcs=[3, 4, 6], Degs=[1, 2, 4], Vals=[1, 2], Times=[0, 1, 2, 700], Drive=False)


def run(ck):
    inv = ["Legal", "Attached", "Single", "NoDuplicates", "Timed"]
    ck.model("LattDbMC", tlc.cfg("MSpec", dict(Degs=[1, 2], Vcs=[3], MaxPoly=2, MaxTope=2, MaxTest=2, Vals=[1, 2]), inv, ["Keeps"]))
    ck.model("LattDbMC", tlc.cfg("MSpec", dict(Degs=[1], Vcs=[3], MaxPoly=2, MaxTope=ck.scale(2, 4), MaxTest=ck.scale(3, 4), Vals=[1, 2]), inv, ["Keeps"]))
    k = ck.scale(1, 10)
    jobs = [(dict(G), 100 * k), (dict(G, Dims=[2], Vcs=[3, 6], Degs=[1, 4]), 140 * k), (dict(G, Dims=[3], Vcs=[7], Degs=[2, 4], Ops=40), 100 * k),
            (dict(G, Dims=[2], Vcs=[6], Degs=[4], Ops=30, Fill=16), 100 * k),
            (dict(G, Dims=[2], Vcs=[4], Degs=[1, 2], Drive=True), 50 * k), (dict(G, Dims=[2, 3], Vcs=[6], Degs=[2], Drive=True), 50 * k)]
    gen = ck.generate_all([("LattDbGen", tlc.cfg("GSpec", g), n, 80, ck.seed * 10 + i) for i, (g, n) in enumerate(jobs)])
    cases = [database.case(g, ck.rng, j["Drive"]) for (j, _), b in zip(jobs, gen) for g in b]
    cases += [database.known(ck.rng, f) for f in ck.findings if "driver" in f]
    cases = latte.pmap(database.observe, cases)
    ck.cov["program_runs"] += sum(c["_runs"] for c in cases)
    ck.judge("DbTrace", cases, record=lambda c: database.observe(dict(c)), describe=database.describe, match=database.match)


checklib.main(run, "C25", ["hdb", "integrate-database-polytopes", "find-volume-database-polytopes"])
