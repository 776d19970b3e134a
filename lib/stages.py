"""What the stages of the computation produce (harness hstages)."""
import json, os
import counting, latte
from checklib import PRIMES


def small(x):
    if isinstance(x, list):
        return all(small(y) for y in x)
    return abs(x) < 2 ** 31 - 1


def ints(x):
    return [ints(y) for y in x] if isinstance(x, list) else int(x)


def read_stages(text, files, args, timeout=60):
    """-> (result, list of stage records with integers)"""
    r = latte.run_lucky("hstages", ["stages.json"] + args, files, want=["stages.json", "numOfLatticePoints"], timeout=timeout)
    out = []
    for line in (r.files["stages.json"] or "").splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            break
        for k in ("rays", "facets", "points", "vertex", "basis", "origin", "matrix"):
            if d.get(k) is not None:
                d[k] = ints(d[k])
        out.append(d)
    return r, out


def common(v):
    """[nums, dens] -> [nums over one denominator, denominator]"""
    from math import lcm, gcd
    d = 1
    for x in v[1]:
        d = lcm(d, x)
    n = [a * (d // b) for a, b in zip(*v)]
    g = d
    for x in n:
        g = gcd(g, x)
    return [[x // g for x in n], d // g]
