import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, knapsack, latte, tlc


def body(ck):
    ck.model("LattKnapsackMC", tlc.cfg("MSpec", dict(MaxLen=ck.scale(3, 4), MaxPart=ck.scale(8, 9)), ["QuasiPolynomial", "PoleWeights", "Periods"]))
    cases = [{"a": g["a"], "L": g["L"], "_g": g} for g in
             ck.generate("LattKnapsackGen", tlc.cfg("GSpec", dict(MaxLen=6, MaxLcm=120)), ck.scale(150, 1500), 5)]
    cases = latte.pmap(knapsack.observe, cases)
    ck.cov["program_runs"] += sum(len(c["runs"]) for c in cases)
    ck.cov["coefficients"] = sum(len(o["coefs"]) for c in cases for o in c["runs"])
    ck.cov["timeouts"] = sum(o["rc"] == "timeout" for c in cases for o in c["runs"])
    ck.judge("KnapsackTrace", cases, record=lambda c: knapsack.observe(dict(c)), describe=knapsack.describe)


checklib.main(body, "C15", ["top-ehrhart-knapsack"])
