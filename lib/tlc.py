"""Running TLC: generating behaviours, judging traces, model checking."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def _run(module, cfg, args, env=None, timeout=800, mem="6g"):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfgpath = os.path.join(meta, "M.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE",
               "-config", cfgpath] + args + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, JAVA_TOOL_OPTIONS="")
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise TlcError("TLC ran out of time on " + module)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def cfg(spec, constants=None, invariants=(), properties=(), extra=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if constants:
        s += "CONSTANTS\n"
        for k, v in constants.items():
            v = "{%s}" % ", ".join(json.dumps(x) for x in v) if isinstance(v, (list, tuple, set)) else str(v).upper() if isinstance(v, bool) else json.dumps(v) if isinstance(v, str) else v
            s += "  %s = %s\n" % (k, v)
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for p in properties:
        s += "PROPERTY %s\n" % p
    return s + extra


class Raw:
    def __init__(self, s):
        self.s = s


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        v = int(m[-1].replace(",", ""))
        return v, v
    return 0, 0


def generate(module, config, num, depth, seed, env=None, timeout=300, mem="6g"):
    """completed behaviours of a generator specification: the JSON it printed"""
    rc, out = _run(module, config, ["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth),
                                    "-seed", str(seed)], env, timeout, mem)
    if rc != 0:
        raise TlcError("TLC -simulate %s: exit %d\n%s" % (module, rc, out[-3000:]))
    cases, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"CASE ') and line not in seen:
            seen.add(line)
            cases.append(json.loads(json.loads(line)[5:]))
    return cases, _stats(out)


def check(module, config, workers=8, timeout=800, env=None, args=()):
    """exhaustive model checking; raises unless TLC reports no error"""
    rc, out = _run(module, config, ["-workers", str(workers)] + list(args), env, timeout)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("TLC %s: exit %d\n%s" % (module, rc, out[-3000:]))
    return _stats(out)


def _ints_ok(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x is not None
    if isinstance(x, int):
        return -2147483647 <= x <= 2147483647
    if isinstance(x, list):
        return all(_ints_ok(y) for y in x)
    if isinstance(x, dict):
        return all(_ints_ok(y) for y in x.values())
    return False


def judge(module, cases, constants=None, workers=8, timeout=800):
    """Checks recorded traces (one JSON object each, with an integer "id")
    against the trace specification `module`.  Returns {id: None | reason} and
    TLC's state counts."""
    if not cases:
        return {}, (0, 0)
    for c in cases:
        if not _ints_ok(c):
            raise TlcError("trace not representable in TLC: %r" % (c,))
    d = tempfile.mkdtemp(prefix="tlc-trace-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        rc, out = _run(module, cfg("Spec", constants), ["-workers", str(workers)],
                       {"TRACE": path}, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        raise TlcError("TLC %s: exit %d\n%s" % (module, rc, out[-4000:]))
    verdict = {}
    for line in out.splitlines():
        m = re.match(r'^<<"(ACCEPT|REJECT)", (\d+)(?:, (.*))?>>$', line)
        if m:
            verdict[int(m.group(2))] = None if m.group(1) == "ACCEPT" else (m.group(3) or "rejected")
    missing = [c["id"] for c in cases if c["id"] not in verdict]
    if missing:
        raise TlcError("TLC %s gave no verdict on traces %s\n%s" % (module, missing[:5], out[-3000:]))
    return verdict, _stats(out)
