import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, integrals

METHODS = [[], [], ["--triangulate"], ["--cone-decompose"]]
EXTRA = [["--compute-vertex-cones=cdd"], ["--compute-vertex-cones=4ti2"], ["--redundancy-check=none"], ["--redundancy-check=full-cddlib"],
         ["--triangulation=cddlib"], ["--triangulation=4ti2"], ["--random-seed=5"]]


def make(c, rng, _):
    out = [(["--valuation=volume"] + m + ["input.latte"], {"input.latte": c["_H"]}, True, []) for m in METHODS[1:]]
    for _ in range(2):
        opts, files, must = integrals.inputs(c, rng)
        out.append((["--valuation=volume"] + rng.choice(METHODS) + opts + list(files), files, must, []))
    out.append((["--valuation=volume"] + rng.choice(METHODS) + rng.choice(EXTRA) + ["input.latte"], {"input.latte": c["_H"]}, False, []))
    return out


checklib.main(lambda ck: integrals.run(ck, make, 400, 0.35), "C11", ["integrate"])
