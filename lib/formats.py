"""One polyhedron in every input format `count` reads."""
from fractions import Fraction
import counting, latte


def q(v):
    """[numerators, denominator] -> printed coordinates"""
    return [str(Fraction(x, v[1])) for x in v[0]]


def spaced(text, rng):
    """other white space, same words (LattE reads words, not lines)"""
    out = []
    for line in text.splitlines():
        gaps = [" ", "  ", "   "] if line[0].isalpha() else [" ", "  ", "\t", "   "]    # keywords end in a space
        out.append("".join(w + rng.choice(gaps) for w in line.split()).rstrip())
        if rng.random() < 0.1:
            out.append("")
    return "\n".join(out) + rng.choice(["\n", "\n\n", "", "  \n"])


def pieces(k, rng):
    c = sorted({0, k} | {rng.randint(0, k) for _ in range(2)})
    return list(zip(c, c[1:]))


def ratrow(row, k):
    return [str(Fraction(x, k)) for x in row]


def affdim(verts):
    """affine dimension of points [numerators, denominator]"""
    m = [[Fraction(x, v[1]) - Fraction(y, verts[0][1]) for x, y in zip(v[0], verts[0][0])] for v in verts[1:]]
    r = 0
    for j in range(len(verts[0][0])):
        piv = next((i for i in range(r, len(m)) if m[i][j]), None)
        if piv is None:
            continue
        m[r], m[piv] = m[piv], m[r]
        for i in range(r + 1, len(m)):
            f = m[i][j] / m[r][j]
            m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        r += 1
    return r


def inputs(g, rng):
    """(label, options, files, must) for every description of the behaviour g of LattDescribe"""
    n, out = g["n"], []
    descs = [{"rows": g["rows"], "lin": g["lin"]}] + g["variants"]
    for d in descs:
        rows, lin = d["rows"], [i - 1 for i in d["lin"]]
        # LattE style, nonnegative and linearity lines in both orders
        for order in ("ln", "nl"):
            r2, l2, nn = counting.nonneg_split(rows, lin, rng)
            l2, nn = l2[:], nn[:]
            rng.shuffle(l2)
            rng.shuffle(nn)
            if rng.random() < 0.4 and len(l2) + len(nn) > 1:        # several lines of a kind
                cut = lambda l, o: [(o, l[a:b]) for a, b in pieces(len(l), rng)]
                order = cut(l2, "l") + cut(nn, "n")
                rng.shuffle(order)
            t = latte.hrep(n, r2, l2, nn, order)
            order = order if isinstance(order, str) else "lines"
            if rng.random() < 0.4:
                t = spaced(t, rng)
            out.append(("latte/" + order, [], {"input.latte": t}, True))
        # CDD inequalities
        if rng.random() < 0.6:
            out.append(("ine", [rng.choice(["--cdd", "cdd"])], {"input.ine": latte.ine(n, rows, lin)}, True))
        else:
            rr = [ratrow(r, rng.choice([1, 2, 3, 7])) for r in rows]
            out.append(("ine/rational", ["--cdd"], {"input.ine": latte.ine(n, rr, lin, "rational")},
                        all(str(x).lstrip("-").isdigit() for r in rr for x in r)))      # fractions are refused
        # all variables nonnegative, by the old keyword
        units = {j for j in range(1, n + 1) for i, r in enumerate(rows) if i not in lin and r[0] == 0 and r[j] > 0
                 and all(r[k] == 0 for k in range(1, n + 1) if k != j)}
        if len(units) == n:
            r2, l2 = [], []
            for i, r in enumerate(rows):
                nz = [k for k in range(1, n + 1) if r[k]]
                if i not in lin and r[0] == 0 and len(nz) == 1 and r[nz[0]] > 0 and rng.random() < 0.8:
                    continue
                if i in lin:
                    l2.append(len(r2))
                r2.append(r)
            if r2:
                out.append(("latte/+", ["+"], {"input.latte": latte.hrep(n, r2, l2)}, True))
    vs = g["verts"]
    if vs:
        for _ in range(2):
            w = vs[:]
            rng.shuffle(w)
            integral = all(v[1] == 1 for v in w)
            extra = []
            if integral and len(w) > 1 and rng.random() < 0.5:       # a redundant point
                extra = [rng.choice(w)]
            num = "integer" if integral and rng.random() < 0.5 else "rational"
            out.append(("ext", [rng.choice(["--cdd", "cdd"])],
                        {"input.ext": latte.ext(n, [q(v) for v in w + extra], num)},
                        not extra and affdim(w) == n))   # the others are refused by an assertion
            if integral:
                out.append(("vrep", [rng.choice(["--vrep", "vrep"])],
                            {"input.vrep": latte.vrep(n, [q(v) for v in w])}, affdim(w) == n))
            else:
                # rows d v.x form: common denominator in front
                t = "%d %d\n" % (len(w), n + 1) + "".join("1 " + " ".join(q(v)) + "\n" for v in w)
                out.append(("vrep/rational", ["--vrep"], {"input.vrep": t}, False))
    return out


def run_case(c, timeout=60):
    c["runs"] = []
    for label, opts, files, must in c["_inputs"]:
        r = latte.run_lucky("count", opts + list(files), files, want=["numOfLatticePoints"], timeout=timeout)
        c["runs"].append(counting.observe(r, [label], must))
    return c


def from_desc(g, rng):
    small = len(g["pts"]) <= 150
    return counting.blank(g["n"], g["rows"], [i - 1 for i in g["lin"]], [], how="points" if small else "npoints",
                          pts=g["pts"] if small else [], npts=g["npts"], _ops=g["ops"], _inputs=inputs(g, rng))


def describe(c, why):
    k = counting.event(why)
    bad = c["_inputs"][k] if k is not None else None
    return {"why": why, "program": "count", "input": bad, "observed": c["runs"], "expected_points": c["npts"], "rows": c["rows"], "lin": c["lin"]}


def solve(m, b):
    """the solution of a square system, None when singular"""
    n = len(m)
    a = [[Fraction(x) for x in r] + [Fraction(y)] for r, y in zip(m, b)]
    for j in range(n):
        piv = next((i for i in range(j, n) if a[i][j]), None)
        if piv is None:
            return None
        a[j], a[piv] = a[piv], a[j]
        a[j] = [x / a[j][j] for x in a[j]]
        for i in range(n):
            if i != j and a[i][j]:
                f = a[i][j]
                a[i] = [x - f * y for x, y in zip(a[i], a[j])]
    return [r[n] for r in a]


def vertices(n, rows, lin=()):
    """[numerators, denominator] of the vertices (used to render and to bound
    numbers only: the specification computes its own)"""
    import itertools, math
    out = set()
    for B in itertools.combinations(range(len(rows)), n):
        x = solve([rows[i][1:] for i in B], [-rows[i][0] for i in B])
        if x is None or tuple(x) in out:
            continue
        v = [r[0] + sum(a * y for a, y in zip(r[1:], x)) for r in rows]
        if all(t >= 0 for t in v) and all(v[i] == 0 for i in lin):
            out.add(tuple(x))
    res = []
    for x in sorted(out):
        d = math.lcm(*[y.denominator for y in x]) if x else 1
        res.append([[int(y * d) for y in x], d])
    return res
