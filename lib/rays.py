"""Cones by rays: input files, cone files, vector files, runs of the programs."""
import re
import counting, latte

BIG = 2 ** 31 - 1


def cdd_ext(rays, n, typ="integer"):
    return "V-representation\nbegin\n%d %d %s\n%send\n" % (len(rays), n + 1, typ, "".join("0 " + " ".join(map(str, r)) + "\n" for r in rays))


def rays_file(rays, n):
    return "%d %d\n%s" % (len(rays), n, "".join(" ".join(map(str, r)) + "\n" for r in rays))


def vec(line):
    m = re.fullmatch(r"\[((?:-?\d+ ?)*)\]", line.strip())
    if not m:
        raise ValueError(line)
    return [int(x) for x in m.group(1).split()]


def cone_file(coef, vertex, rays, facets=(), det=0, ddet=0):
    v = lambda l: "".join("[%s]\n" % " ".join(map(str, x)) for x in l) or "[]\n"
    return ("==========\nCone.\nCoefficient: %d\nVertex: [%s]\nExtreme rays:\n%sDeterminant:%d\nFacets:\n%sDual determinant:%d\n"
            "Lattice points in parallelepiped:\n[]\n==========\n\n" % (coef, " ".join(map(str, vertex)), v(rays), det, v(facets), ddet))


def read_cones(text):
    """list of {coef, vertex (list of strings), rays, facets, det}; ValueError"""
    out, cur, sect = [], None, None
    for line in text.splitlines():
        s = line.strip()
        if s == "==========":
            if cur is None:
                cur = {"rays": [], "facets": [], "points": [], "vertex": [], "coef": 0, "det": 0}
            else:
                for k in ("rays", "facets", "points"):
                    cur[k] = [x for x in cur[k] if x]
                out.append(cur)
                cur = None
            sect = None
        elif not s or s == "Cone.":
            pass
        elif cur is None:
            raise ValueError(line)
        elif s.startswith("Coefficient:"):
            cur["coef"] = int(s.split(":")[1])
        elif s.startswith("Vertex:"):
            cur["vertex"] = s.split(":", 1)[1].strip()[1:-1].split()
        elif s.startswith("Determinant:"):
            cur["det"] = int(s.split(":")[1])
        elif s.startswith("Dual determinant:"):
            cur["ddet"] = int(s.split(":")[1])
        elif s in ("Extreme rays:", "Facets:", "Lattice points in parallelepiped:"):
            sect = {"E": "rays", "F": "facets", "L": "points"}[s[0]]
        else:
            cur[sect].append(vec(s))
    if cur is not None:
        raise ValueError("unfinished cone")
    return out


def read_vectors(text):
    w = text.split()
    m, n = int(w[0]), int(w[1])
    if m < 0 or len(w) != 2 + m * n:
        raise ValueError("%d rows of %d numbers are announced, %d numbers follow" % (m, n, len(w) - 2))
    return [[int(x) for x in w[2 + i * n:2 + (i + 1) * n]] for i in range(m)], n
