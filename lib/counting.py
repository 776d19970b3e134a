"""Cases for `count` and the observation of its runs."""
import os, re, tempfile, shutil
import latte
from checklib import num, PRIMES

ERRNUM = re.compile(r"number of lattice points(?: is)?:?\s+(-?\d+)")


def rc_of(r):
    if r.rc == 0:
        return "ok"
    if r.rc == "timeout":
        return "timeout"
    return "crash" if isinstance(r.rc, int) and (r.rc < 0 or r.rc >= 128) else "fail"


def observe(r, opts, must=True):
    f = (r.files.get("numOfLatticePoints") or "").strip()
    last = r.out.strip().splitlines()[-1].strip() if r.out.strip() else ""
    m = ERRNUM.findall(r.err)
    isint = lambda s: re.fullmatch(r"-?\d+", s) is not None
    return {"opts": " ".join(opts), "rc": rc_of(r), "must": bool(must),
            "file": [num(f)] if isint(f) else [],
            "out": [num(last)] if isint(last) else [],
            "err": [num(m[-1])] if m else [],
            "empty": "empty" in r.err.lower()}


def text_of(c):
    return latte.hrep(c["n"], c.get("_rows", c["rows"]), c["lin"], c["nonneg"], c.get("_order", "ln"))


def run_case(c, optsets, timeout=60):
    """optsets: list of (options, must); fills c['runs'].  c['_text'] overrides
    the rendering (file name -> content, the options select the format)."""
    files = c.get("_files") or {"input.latte": text_of(c)}
    name = c.get("_name", "input.latte")
    q = []
    if c["dil"] != 1:
        q.append("--dilation=%d" % c.get("_dil", c["dil"]))
    elif c.get("_dil"):
        q.append("--dilation=%d" % c["_dil"])
    if c["interior"]:
        q.append("--interior")
    c["runs"] = []
    c["_optsets"] = optsets
    for opts, must in optsets:
        r = latte.run_lucky("count", list(opts) + q + [name], files, want=["numOfLatticePoints"], timeout=timeout)
        c["runs"].append(observe(r, opts, must))
    return c


def blank(n, rows, lin, nonneg=(), how="points", **kw):
    c = {"n": n, "rows": rows, "lin": list(lin), "nonneg": list(nonneg), "how": how, "dil": 1,
         "interior": False, "pts": [], "npts": 0, "verts": [], "lo": [], "hi": [], "dilres": [1, 1, 1],
         "big": False, "deg": 0, "tail": [], "wres": []}
    c.update(kw)
    return c


def nonneg_split(rows, lin, rng, nonneg_lines=True):
    """rows x_i >= 0 may be moved to a nonnegative line"""
    nonneg = []
    if nonneg_lines and rng.random() < 0.5:
        keep, newlin = [], []
        for i, r in enumerate(rows):
            nz = [j for j in range(1, len(r)) if r[j] != 0]
            if i not in lin and r[0] == 0 and len(nz) == 1 and r[nz[0]] == 1 and rng.random() < 0.8 and len(rows) > 1:
                if nz[0] - 1 not in nonneg:
                    nonneg.append(nz[0] - 1)
                continue
            if i in lin:
                newlin.append(len(keep))
            keep.append(r)
        if keep:
            rows, lin = keep, newlin
        else:
            nonneg = []
    return rows, lin, nonneg


def from_build(g, rng, nonneg_lines=True):
    """a behaviour of LattBuild (1-based lin) as a case"""
    rows, lin, nonneg = nonneg_split(g["rows"], [i - 1 for i in g["lin"]], rng, nonneg_lines)
    order = rng.choice(["ln", "nl"])
    small = len(g["pts"]) <= 150
    return blank(g["n"], rows, lin, nonneg, how="points" if small else "npoints",
                 pts=g["pts"] if small else [], npts=g["npts"], _order=order, _ops=g["ops"])


def catalog_cfg(fams):
    return "SPECIFICATION CatSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n B = 6\n Dil = 1\n Families = {%s}\n" % ", ".join(
        '"%s"' % f for f in fams)


def from_catalog(g, rng, nonneg_lines=True):
    rows, lin = g["rows"], [i - 1 for i in g["lin"]]
    if rng.random() < 0.3:       # another order of the rows
        p = list(range(len(rows)))
        rng.shuffle(p)
        lin = [k for k, i in enumerate(p) if i in lin]
        rows = [rows[i] for i in p]
    rows, lin, nonneg = nonneg_split(rows, lin, rng, nonneg_lines)
    return blank(g["n"], rows, lin, nonneg, how=g["how"], verts=g["verts"], lo=g["lo"], hi=g["hi"],
                 deg=g["deg"], _fam=g["fam"], _integral=g["integral"], _order=rng.choice(["ln", "nl"]))


def affordable(c):
    """can the small dilations be enumerated?"""
    top = max(abs(r[0]) for r in c["rows"])
    if c["_fam"] in ("pyramid", "order", "cross") and c["n"] > 4:
        return False
    return c["n"] <= 5 and (c["_fam"] != "cube" or c["n"] <= 2 or (c["n"] <= 4 and top <= 3))


def enlarge(c, rng, digits, steps):
    """huge factors: the file describes the dilation by a huge number (integral
    polytopes), sheared and shifted by huge amounts; no nonnegative line"""
    assert not c["nonneg"] and c["dil"] == 1
    k = rng.randint(1, 10 ** digits) if c.get("_integral") else 1
    if k > 1:
        c["big"] = True
    c["dilres"] = [k % p for p in PRIMES]
    rows = [[k * r[0]] + list(r[1:]) for r in c["rows"]]
    for _ in range(steps):
        f = rng.choice([-1, 1]) * rng.randint(1, 10 ** digits)
        if c["n"] > 1 and rng.random() < 0.6:
            i, j = rng.sample(range(1, c["n"] + 1), 2)
            rows = [r[:j] + [r[j] - f * r[i]] + r[j + 1:] for r in rows]
            c["tail"].append({"op": "shear", "i": i, "j": j, "k": [f % p for p in PRIMES]})
        else:
            i = rng.randint(1, c["n"])
            rows = [[r[0] - f * r[i]] + r[1:] for r in rows]
            c["tail"].append({"op": "shift", "i": i, "j": i, "k": [f % p for p in PRIMES]})
    if not c["tail"]:
        c["tail"].append({"op": "shift", "i": 1, "j": 1, "k": [0, 0, 0]})
    c["wres"] = [[[x % p for p in PRIMES] for x in r] for r in rows]
    c["_rows"] = rows
    return c


def describe(c, why):
    return {"why": why, "program": "count", "file": c.get("_files") or text_of(c),
            "options": [" ".join(o) for o, _ in c["_optsets"]], "dilation": c.get("_dil", c["dil"]),
            "interior": c["interior"], "observed": c["runs"],
            "expected_how": c["how"], "expected_points": c["npts"]}


def event(why):
    m = re.match(r"(\d+),", str(why))
    return int(m.group(1)) - 1 if m else None


def match(c, why, f):
    """is this rejected run the one of the listed finding f?"""
    k = event(why)
    return k is not None and k < len(c["runs"]) and "rows" in f and f["rows"] == c["rows"] \
        and f.get("lin", []) == c["lin"] and f.get("nonneg", []) == c["nonneg"] \
        and f.get("dil", 1) == c["dil"] and f["options"] == c["runs"][k]["opts"]


def known(ck):
    """the inputs of the listed findings, one run each"""
    return [(blank(f["n"], f["rows"], f.get("lin", []), f.get("nonneg", []), how=f.get("how", "box"), dil=f.get("dil", 1),
                   lo=f.get("lo", []), hi=f.get("hi", [])),
             [(f["options"].split(), True)]) for f in ck.findings if "rows" in f]
