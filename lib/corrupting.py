"""Corrupt input files: texts of the files of LattCorrupt and runs of the programs that read them."""
import re
import latte

DIGITS = re.compile(r"^\s*-?\d+\s*$", re.M)
ANSWER = re.compile(r"Answer:\s*\S|Decimal:\s*\S|Ehrhart polynomial:|Total number of lattice points|number of lattice points is|volume|The number of optimal|An optimal")
CORRUPTED = re.compile(r"free\(\)|malloc|double free|corrupted|stack smashing|munmap_chunk|Segmentation|terminate called after throwing an instance of 'std::(bad_alloc|length_error)'")
BANNER = re.compile(r"^(This is LattE|Invocation:|Available from|This software|under certain|conditions|by the|\s*$)", re.M)
KEY = {"linearity", "nonnegative", "begin", "end", "H-representation", "V-representation"}
CONEKEY = {"==========", "Cone.", "Coefficient:", "Vertex:", "Extreme", "Determinant:", "Facets:", "Dual", "Lattice"}


def text(kind, n, doc, rng):
    toks = [t["s"] for t in doc]
    if kind in ("mono", "lin", "prod"):
        s = ""
        for t in toks:
            if s and s[-1] not in "[],(){};" and t and t[0] not in "[],(){};":
                s += " "
            s += t
        return s + "\n"
    if kind == "cones":
        s = ""
        for a, b in zip([""] + toks, toks):
            if b in CONEKEY or (b == "[" and a in ("]", "rays:", "Facets:", "parallelepiped:")):
                s += "\n" + b
            elif a == "[" or b == "]" or not s:
                s += b
            else:
                s += " " + b
        return s.lstrip("\n") + "\n\n"
    if kind in ("cost",):
        return toks[0] + " " + " ".join(toks[1:2]) + "\n" + " ".join(toks[2:]) + "\n" if toks else ""
    s, k = "", 0
    width = n + 1 if kind != "rays" else n
    header = 2
    for i, t in enumerate(toks):
        word = t in KEY or doc[i]["t"] == "word" and t not in ("integer", "rational", "real")
        if word:
            s = s.rstrip(" ")
            s += ("" if not s or s.endswith("\n") else "\n") + t + ("\n" if t in ("begin", "end", "H-representation", "V-representation") else " ")
            k, header = 0, (2 if t == "begin" else 0 if t in ("linearity", "nonnegative") else header)
            if t in ("linearity", "nonnegative"):
                k = -10 ** 6
            continue
        s += t + " "
        if kind in ("ine", "ext") and t in ("integer", "rational", "real"):
            s, k, header = s.rstrip(" ") + "\n", 0, 0
            continue
        k += 1
        if header and k == header:
            if kind not in ("ine", "ext"):
                s, k, header = s.rstrip(" ") + "\n", 0, 0
        elif not header and k == width:
            s, k = s.rstrip(" ") + "\n", 0
    return s.rstrip(" ") + ("" if s.endswith("\n") else "\n")


def runs_for(c, txt, rng):
    """(program, arguments, files, stdin)"""
    k = c["kind"]
    base = latte.hrep(c["n"], c["rows"])
    if k == "latte":
        f = {"input.latte": txt}
        out = [("count", ["input.latte"], f, None)]
        out.append(rng.choice([
            ("count", ["--ehrhart-polynomial", "input.latte"], f, None),
            ("count", ["--multivariate-generating-function", "input.latte"], f, None),
            ("count", ["--homog", "input.latte"], f, None),
            ("count", ["--redundancy-check=none", "input.latte"], f, None),
            ("count", ["--compute-vertex-cones=cdd", "--dilation=2", "input.latte"], f, None),
            ("polyhedron-to-cones", ["--output-cones=o.cones", "input.latte"], f, None)]))
        out.append(rng.choice([
            ("integrate", ["--valuation=volume", "input.latte"], f, None),
            ("integrate", ["--valuation=volume", "--triangulate", "input.latte"], f, None),
            ("latte2ine", [], {}, txt)]))
        return out
    if k == "vrep":
        f = {"input.latte": txt}
        return [("count", ["--vrep", "input.latte"], f, None), ("latte2ext", [], {}, txt),
                ("integrate", ["--valuation=volume", rng.choice(["--triangulate", "--cone-decompose"]), "--vrep", "input.latte"], f, None)]
    if k in ("ine", "ext"):
        f = {"input." + k: txt}
        out = [("count", ["--cdd", "input." + k], f, None), ("integrate", ["--valuation=volume", "--cdd", "input." + k], f, None)]
        if k == "ine" and not c["eq"]:
            out.append(("ConvertCDDineToLatte", ["input.ine", "o.latte"], f, None))
        return out
    if k in ("mono", "lin", "prod"):
        o = {"mono": "--monomials=", "lin": "--linear-forms=", "prod": "--product-linear-forms="}[k]
        return [("integrate", ["--valuation=integrate", rng.choice(["--triangulate", "--cone-decompose"]), o + "f.txt", "input.latte"],
                 {"input.latte": base, "f.txt": txt}, None)]
    if k == "cones":
        return [("count", ["--input-vertex-cones=c.cones"], {"c.cones": txt}, None)]
    if k == "cost":
        return [(rng.choice(["latte-maximize", "latte-minimize"]), ["input.latte"], {"input.latte": base, "input.latte.cost": txt}, None)]
    if k == "knapsack":
        return [("top-ehrhart-knapsack", ["-f", "k.txt", "-o", "out.mpl", "--all-k", "2"], {"k.txt": txt}, None)]
    if k == "rays":
        return [("hilbert-from-rays", ["--only-triangulate"] * 0 + ["r.rays"], {"r.rays": txt}, None)]
    a = [t["s"] for t in c["doc"]]
    return [("integrate" if any(x.startswith("--valuation") for x in a) else "count", a, {"input.latte": base}, None)]


def observe(c, rng):
    seed = c.setdefault("_seed", rng.randrange(10 ** 9))
    rng = __import__("random").Random(seed)
    txt = c["_text"] = text(c["kind"], c["n"], c["doc"], rng)
    c["runs"] = []
    for prog, args, files, stdin in runs_for(c, txt, rng):
        r = latte.run(prog, args, files, want=["numOfLatticePoints", "input.latte.rat", "r.rays.hil", "out.mpl", "o.latte", "o.cones"], timeout=15, stdin=stdin)
        text_out = r.out
        answered = bool(ANSWER.search(r.out) or r.files["input.latte.rat"] or r.files["r.rays.hil"] or
                        (prog == "count" and (DIGITS.search(r.out) or r.files["numOfLatticePoints"])))
        if r.rc == 0 and not answered:
            answered = bool(r.out.strip() or r.files["out.mpl"] or r.files["o.latte"] or r.files["o.cones"])
        why = [l for l in (r.err + "\n" + r.out).splitlines() if not BANNER.match(l)]
        rc = "ok" if r.rc == 0 else "timeout" if r.rc == "timeout" else "fail"
        if rc == "fail" and (r.rc in (-11, -8, -4, -7) or (r.rc == -6 and CORRUPTED.search(r.err))):
            rc = "crash"
        c["runs"].append({"prog": prog, "args": " ".join(args), "rc": rc, "said": bool(why), "answered": answered,
                          "_out": r.out[-300:], "_err": r.err[-300:], "_rc": str(r.rc)})
    return c


def describe(c, why):
    return {"why": why, "kind": c["kind"], "what": c["what"], "text": c["_text"], "runs": c["runs"], "n": c["n"]}
