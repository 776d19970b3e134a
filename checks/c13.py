import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, integrals

METHODS = [[], [], ["--triangulate"], ["--cone-decompose"]]


def make(c, rng, I):
    out = []
    for k in range(3):
        text, ts = integrals.terms(rng.choice(I), rng, c)
        opts, files, must = integrals.inputs(c, rng) if k else ([], {"input.latte": c["_H"]}, True)
        for m in ([METHODS[0]] if k else [METHODS[0], rng.choice(METHODS[2:])]):
            out.append((["--valuation=integrate", "--linear-forms=f.txt"] + m + opts + list(files), dict(files, **{"f.txt": text}), must, ts))
    return out


checklib.main(lambda ck: integrals.run(ck, make, 300, 0.2, ["lin"]), "C13", ["integrate"])
