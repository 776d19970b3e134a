"""The frame every check runs in: seed, tier, evidence, violations."""
import glob, json, os, random, sys, time, traceback

import build, latte, tlc

VERIF = build.VERIF
PRIMES = [46337, 46327, 46309]


def num(v):
    """an integer reported by a program, as TLC sees it"""
    v = int(v)
    small = v if abs(v) < 2 ** 31 - 1 else -1 - 10 ** 9
    return {"small": small, "res": [v % p for p in PRIMES]}


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_states": 0, "generated_behaviours": 0, "program_runs": 0}
        self.violations = []
        for f in glob.glob(os.path.join(VERIF, "evidence", "replay", pid + "-*.json")):
            os.remove(f)
        self.known = []
        self.assumptions = []
        p = os.path.join(VERIF, "known-findings.json")
        self.findings = [f for f in json.load(open(p))["findings"] if f["property"] == pid] if os.path.exists(p) else []

    def note(self, what):
        if os.environ.get("VERIF_VERBOSE"):
            sys.stderr.write("[%6.1fs] %s\n" % (time.time() - self.t0, what))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC -----------------------------------------------------------------
    def add_states(self, st):
        self.cov["transitions"] += st[0]
        self.cov["states"] += st[1]

    def model(self, module, config, **kw):
        st = tlc.check(module, config, **kw)
        self.add_states(st)
        self.cov["model_states"] += st[1]
        self.note("model %s: %d states" % (module, st[1]))
        return st

    def generate(self, module, config, num, depth, seed=None, **kw):
        cases, st = tlc.generate(module, config, num, depth, self.seed if seed is None else seed, **kw)
        self.cov["generated_behaviours"] += len(cases)
        self.add_states(st)
        self.note("generate %s: %d" % (module, len(cases)))
        return cases

    def generate_all(self, jobs):
        """jobs: (module, config, num, depth, seed), generated in parallel"""
        res = latte.pmap(lambda j: tlc.generate(j[0], j[1], j[2], j[3], j[4], timeout=600, mem="2g"), jobs)
        for j, (cases, st) in zip(jobs, res):
            self.cov["generated_behaviours"] += len(cases)
            self.add_states(st)
        self.note("generated %s" % [len(c) for c, _ in res])
        return [c for c, _ in res]

    def judge(self, module, cases, record=None, describe=None, constants=None, match=None, **kw):
        """Judges the cases; `record(case)` re-runs the real code for one case
        and returns the trace anew, so that a rejection is reported only when it
        repeats.  match(case, finding) tells whether a listed finding is it."""
        for i, c in enumerate(cases):
            c["id"] = i + 1
        self.note("judging %d with %s" % (len(cases), module))
        verdict, st = tlc.judge(module, [strip(c) for c in cases], constants, **kw)
        self.add_states(st)
        self.cov["traces_validated_against_impl"] += len(cases)
        self.note("judged")
        bad = [c for c in cases if verdict[c["id"]] is not None]
        if bad and record:
            again = [record(c) for c in bad[:400 if os.environ.get("VERIF_VERBOSE") else 40]]
            for c, o in zip(again, bad):
                c["id"] = o["id"]
            v2, _ = tlc.judge(module, [strip(c) for c in again], constants, **kw)
            confirmed = [(c, v2[c["id"]]) for c in again if v2[c["id"]] is not None]
            for c in again:
                if v2[c["id"]] is None:
                    sys.stderr.write("not repeated: trace %s (%s)\n" % (c["id"], verdict[c["id"]]))
        else:
            confirmed = [(c, verdict[c["id"]]) for c in bad]
        for c, why in confirmed:
            f = None
            for g in self.findings:
                if match and match(c, why, g):
                    f = g
            if f:
                self.known_finding(f)
            else:
                self.violation(describe(c, why) if describe else {"case": strip(c), "why": why})
        for c in cases[:2]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(short(c))
        return verdict

    # -- outcomes ------------------------------------------------------------
    def known_finding(self, f):
        line = "KNOWN-FINDING: property=%s %s" % (self.pid, f["what"])
        if line not in self.known:
            self.known.append(line)

    def violation(self, info):
        n = len(self.violations) + 1
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        if n <= (400 if os.environ.get("VERIF_VERBOSE") else 20):
            with open(path, "w") as f:
                json.dump(info, f, indent=1, default=str)
        self.violations.append(path)

    def finish(self):
        cov = dict(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(k)
        for p in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not self.violations:
            print("OK property=%s tier=%s seed=%d traces=%d states=%d runs=%d wall=%.1fs" % (
                self.pid, self.tier, self.seed, cov["traces_validated_against_impl"], cov["states"],
                cov["program_runs"], time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def strip(c):
    return {k: ([strip(x) if isinstance(x, dict) else x for x in v] if isinstance(v, list) else v) for k, v in c.items() if not k.startswith("_")}


def short(c, limit=1200):
    s = json.dumps(strip(c), default=str)
    return s if len(s) <= limit else s[:limit] + "..."


def main(f, pid, targets):
    try:
        build.build(targets)
        c = Check(pid)
        f(c)
        c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
