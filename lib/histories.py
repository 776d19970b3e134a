"""Histories of programs in one working directory (LattDir, carried out)."""
import os, random, re, shutil, subprocess, tempfile
import build, counting, formats, latte, rays

SHIM = os.path.join(build.OUT, "shim.so")
TIME = re.compile(r"\d+(\.\d+)?(e-?\d+)? *(sec|seconds|s)\b|^\s*(Time|Total time|Total|This took)\b.*$|^.*\btime\b.*$|^Invocation:.*$|/tmp/\S*|^.*\b[sS]econds?\b.*$|"
                  r"^.*\((including|excluding) .*time.*$", re.M)


def shim():
    src = os.path.join(build.VERIF, "harness", "shim.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        t = SHIM + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", t, src, "-ldl"], check=True)
        os.rename(t, SHIM)


# program, arguments (@: the name of the problem's files), result files
FAMILIES = {
    1: [("count", ["--compute-vertex-cones=cdd", "@.latte"], []),
        ("count", ["--compute-vertex-cones=cdd", "--exp", "@.latte"], []),
        ("count", ["--compute-vertex-cones=cdd", "--irrational-all-primal", "@.latte"], []),
        ("count", ["--cdd", "--compute-vertex-cones=cdd", "@.ine"], []),
        ("count", ["--cdd", "@.ext"], []),
        ("count", ["--vrep", "@.vrep"], []),
        ("count", ["--dualization=cdd", "@.latte"], []),
        ("count", ["--compute-vertex-cones=cdd", "--multivariate-generating-function", "@.latte"], ["@.latte.rat"]),
        ("polyhedron-to-cones", ["--compute-vertex-cones=cdd", "--output-cones=@.cones", "@.latte"], ["@.cones"]),
        ("integrate", ["--valuation=volume", "--compute-vertex-cones=cdd", "@.latte"], []),
        ("integrate", ["--valuation=volume", "--vrep", "@.vrep"], []),
        ("count", ["--triangulation=cdd", "@.latte"], [])],
    2: [("latte-maximize", ["@.latte"], []), ("latte-minimize", ["@.latte"], []),
        ("latte-maximize", ["bbs", "@.latte"], []), ("latte-minimize", ["bbs", "@.latte"], []),
        ("latte-maximize", ["single", "@.latte"], []), ("latte-minimize", ["single", "@.latte"], []),
        ("latte-maximize", ["hull", "@.latte"], []), ("count", ["@.latte"], []),
        ("count", ["--compute-vertex-cones=cdd", "@.latte"], []), ("ehrhart", ["@.latte"], [])],
    3: [("count", ["@.latte"], []), ("count", ["--homog", "@.latte"], []),
        ("count", ["--redundancy-check=full-cddlib", "@.latte"], []),
        ("count", ["--ehrhart-series", "@.latte"], ["@.latte.rat"]),
        ("count", ["--simplified-ehrhart-polynomial", "@.latte"], []),
        ("count", ["--ehrhart-polynomial", "@.latte"], []), ("count", ["--ehrhart-taylor=3", "@.latte"], []),
        ("count", ["--multivariate-generating-function", "@.latte"], ["@.latte.rat"]),
        ("ehrhart", ["@.latte"], []), ("count", ["--interior", "@.latte"], []),
        ("count", ["--cdd", "@.ine"], []), ("count", ["--triangulation=topcom", "@.latte"], [])],
    4: [("polyhedron-to-cones", ["--output-cones=@.cones", "@.latte"], ["@.cones"]),
        ("triangulate", ["@.rays.ext"], ["triangulation"]),
        ("triangulate", ["--triangulation=topcom", "@.rays.ext"], ["triangulation"]),
        ("hilbert-from-rays", ["@.rays"], ["@.rays.hil"]),
        ("hilbert-from-rays", ["--triangulation=topcom", "@.rays"], ["@.rays.hil"]),
        ("ConvertCDDineToLatte", ["@.ine", "@.conv"], ["@.conv"]),
        ("count", ["--multivariate-generating-function", "@.latte"], ["@.latte.rat"])],
    5: [("integrate", ["--valuation=volume", "@.latte"], []),
        ("integrate", ["--valuation=volume", "--cone-decompose", "@.latte"], []),
        ("integrate", ["--valuation=volume", "--triangulate", "@.latte"], []),
        ("integrate", ["--valuation=integrate", "--triangulate", "--monomials=@.mono", "@.latte"], []),
        ("integrate", ["--valuation=integrate", "--cone-decompose", "--monomials=@.mono", "@.latte"], []),
        ("integrate", ["--valuation=integrate", "--triangulate", "--linear-forms=@.lin", "@.latte"], []),
        ("count", ["--compute-vertex-cones=cdd", "@.latte"], []), ("count", ["@.latte"], [])],
}


def bundle(name, g, rng):
    n = g["n"]
    lin = [i - 1 for i in g.get("lin", [])]
    r2, l2, nn = counting.nonneg_split(g["rows"], lin, rng)
    verts = [formats.q(v) for v in g.get("verts") or []]
    f = {"%s.latte" % name: latte.hrep(n, r2, l2, nn), "%s.ine" % name: latte.ine(n, g["rows"], lin),
         "%s.latte.cost" % name: "1 %d\n%s\n" % (n, " ".join(str(rng.randint(-4, 4)) for _ in range(n))),
         "%s.mono" % name: "[%s]" % ",".join("[%d,[%s]]" % (rng.randint(1, 5), ",".join(str(rng.randint(0, 2)) for _ in range(n))) for _ in range(2)),
         "%s.lin" % name: "[[%d,[%d,[%s]]]]" % (rng.randint(1, 5), rng.randint(0, 3), ",".join(str(rng.randint(-2, 3)) for _ in range(n)))}
    if not g.get("verts"):
        return f
    if all(v[1] == 1 for v in g["verts"]):
        f["%s.ext" % name] = latte.ext(n, verts)
        f["%s.vrep" % name] = latte.vrep(n, verts)
    hom = [list(v[0]) + [v[1]] for v in g["verts"]]
    f["%s.rays.ext" % name] = rays.cdd_ext(hom, n + 1)
    f["%s.rays" % name] = rays.rays_file(hom, n + 1)
    return f


def answer(r, wants, name):
    """what the program says and the result files it writes when run alone"""
    s = TIME.sub("", r.out)
    s = "\n".join(x.strip() for x in s.splitlines() if x.strip())
    import optimising
    e = [counting.ERRNUM.findall(r.err)[-1:], optimising.SOL.findall(r.err), optimising.VAL.findall(r.err), optimising.NUM.findall(r.err),
         "unbounded" in r.err.lower(), "mpty" in r.err]
    return "\n".join([s, repr(e)] + ["%s:\n%s" % (w, r.files.get(w)) for w in wants if r.rc == 0])


def run(prog, args, d, wants, env=None, timeout=20):
    rc, out, err = latte._exec([os.path.join(latte.BIN, prog)] + args, d, timeout, env)
    got = {}
    for w in wants:
        p = os.path.join(d, w)
        got[w] = open(p, errors="replace").read() if os.path.isfile(p) else None
    return latte.Result(rc, out, err, got, None)


def observe(c):
    """c['plan'], c['_problems'] (the problems of the plan), c['_same'], c['_seed']"""
    rng = random.Random(c["_seed"])
    names = ["p"] * len(c["_problems"]) if c["_same"] else ["p%d" % i for i in range(len(c["_problems"]))]
    files = [bundle(nm, g, rng) for nm, g in zip(names, c["_problems"])]
    known, ids, claims = {}, {}, {}
    runs = c["runs"] = []

    def fresh(q, prog, args, wants):
        k = (q, prog, tuple(args))
        if k not in known:
            d = tempfile.mkdtemp(prefix="verif-fresh-")
            try:
                write(d, files[q])
                r = run(prog, args, d, wants)
                known[k] = len(known) + 1
                claims[known[k]] = [w for w in wants if r.files[w] is not None]
                runs.append({"key": known[k], "kind": "fresh", "rc": counting.rc_of(r), "ans": ids.setdefault(answer(r, claims[known[k]], names[q]), len(ids) + 1),
                             "_cmd": [prog] + args, "_out": r.out[-1500:], "_err": r.err[-1500:], "_files": files[q], "_got": r.files})
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return known[k]

    d = tempfile.mkdtemp(prefix="verif-dir-")
    try:
        for s in c["plan"]:
            q = s["prob"] - 1
            nm = names[q]
            fam = [x for x in FAMILIES[s["fam"]] if all(a.replace("@", nm) in files[q] for a in x[1] if a.startswith("@") and not a.endswith(".conv"))]
            prog, args, wants = rng.choice(fam)
            args, wants = [a.replace("@", nm) for a in args], [w.replace("@", nm) for w in wants]
            mode = s["how"]
            if mode == "bad":
                bad = dict(files[q])
                f = args[-1] if args[-1] in bad else nm + ".latte"
                bad[f] = bad[f][:len(bad[f]) // rng.choice([2, 3, 10])]
                write(d, bad)
                run(prog, args, d, [])
                continue
            key = fresh(q, prog, args, wants)
            write(d, files[q])
            env = {}
            if mode != "run":
                env["LD_PRELOAD"] = SHIM
            if mode in ("keep", "keepcut"):
                env["SHIM_KEEP"] = "1"
            if mode in ("kill", "kill2"):
                env.update(SHIM_MAIN=prog[:15], SHIM_STOP=str(rng.randint(1, 30)))
            if mode == "kill2":
                env["SHIM_KEEP"] = "1"
            if mode == "toolkill":
                env.update(SHIM_TOOL=rng.choice(tools(args)), SHIM_TOOLSTOP=str(rng.randint(1, 4)))
            for w in wants:
                if os.path.exists(os.path.join(d, w)) and rng.random() < 0.5:
                    os.remove(os.path.join(d, w))
            r = run(prog, args, d, wants, env)
            runs.append({"key": key, "kind": mode, "rc": counting.rc_of(r), "ans": ids.setdefault(answer(r, claims[key], nm), len(ids) + 1),
                         "_cmd": [prog] + args, "_env": env, "_out": r.out[-1500:], "_err": r.err[-1500:], "_got": r.files})
            if mode == "keepcut":
                inputs = set().union(*files)
                for f in sorted(os.listdir(d)):
                    p = os.path.join(d, f)
                    if f not in inputs and os.path.isfile(p):
                        with open(p, "r+b") as h:
                            h.truncate(os.path.getsize(p) // 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c


def tools(args):
    a = " ".join(args)
    return (["count", "count", "rm"] if "bbs" in a else ["topcom-points2placingtriang", "points2placingtriang", "rm"] if "topcom" in a
            else ["scdd_gmp", "scdd_gmp", "rm", "sh"] if "cdd" in a or "vrep" in a else ["scdd_gmp", "redcheck_gmp", "rm", "sh"])


def write(d, files):
    for n, t in files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)


def describe(c, why):
    return {"why": why, "plan": c["plan"], "runs": c["runs"], "same names": c["_same"]}
