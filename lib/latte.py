"""Running LattE programs in scratch directories and reading what they report."""
import glob, os, re, shutil, signal, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import build as _build

BIN = _build.BIN
JOBS = os.cpu_count() or 8


class Result:
    def __init__(self, rc, out, err, files, trace):
        self.rc, self.out, self.err, self.files, self.trace = rc, out, err, files, trace


def _exec(cmd, cwd, timeout, env=None, stdin=None):
    e = dict(os.environ, LC_ALL="C", LANG="C")
    e.pop("LATTE_VERIF_TRACE", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, text=True, errors="replace",
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    if rc != 0:         # its temporary directory is left behind
        for x in glob.glob("/tmp/latte-%d@*" % p.pid):
            shutil.rmtree(x, ignore_errors=True)
    return rc, out, err


def run(prog, args, files=None, want=(), timeout=60, cwd=None, trace=False, stdin=None):
    """Runs prog in a scratch directory holding `files`; returns rc, output and
    the contents of the files named in `want` (missing: None)."""
    d = cwd or tempfile.mkdtemp(prefix="latte-run-")
    try:
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        env = {"LATTE_VERIF_TRACE": os.path.join(d, "verif.trace")} if trace else None
        rc, out, err = _exec([os.path.join(BIN, prog)] + list(args), d, timeout, env, stdin)
        got = {}
        for n in want:
            p = os.path.join(d, n)
            got[n] = open(p, errors="replace").read() if os.path.isfile(p) else None
        tr = None
        if trace:
            p = os.path.join(d, "verif.trace")
            tr = open(p).read() if os.path.exists(p) else ""
        return Result(rc, out, err, got, tr)
    finally:
        if cwd is None:
            shutil.rmtree(d, ignore_errors=True)


def run_lucky(prog, args, *a, **kw):
    """Random heights may fail to triangulate a cone; the program then stops
    with an assertion (no number is reported).  Try other random numbers."""
    r = run(prog, args, *a, **kw)
    for seed in (2, 3, 4):
        if "num_rays == Parameters->Number_of_Variables" not in r.err:
            break
        r = run(prog, ["--random-seed=%d" % seed] + [x for x in args if "--random-seed" not in x], *a, **kw)
    return r


def pmap(f, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- rendering
# a polyhedron is {"n": dim, "rows": [[b, a1..an], ...]} meaning b + a.x >= 0,
# with "lin": 0-based row indices that are equations, "nonneg": 0-based variables
def hrep(n, rows, lin=(), nonneg=(), order="ln"):
    """order: the order of the keyword lines, or the lines themselves [(letter, indices)]"""
    if not isinstance(order, str):
        return hrep(n, rows) + "".join(hrep(0, [], *((x, ()) if o == "l" else ((), x)), o).split("\n", 1)[1] for o, x in order)
    s = "%d %d\n" % (len(rows), n + 1)
    for r in rows:
        s += " ".join(str(x) for x in r) + "\n"
    for o in order:
        if o == "l" and lin:
            s += "linearity %d %s\n" % (len(lin), " ".join(str(i + 1) for i in lin))
        if o == "n" and nonneg:
            s += "nonnegative %d %s\n" % (len(nonneg), " ".join(str(i + 1) for i in nonneg))
    return s


def ine(n, rows, lin=(), num="integer"):
    s = "H-representation\n"
    if lin:
        s += "linearity %d %s\n" % (len(lin), " ".join(str(i + 1) for i in lin))
    s += "begin\n%d %d %s\n" % (len(rows), n + 1, num)
    for r in rows:
        s += " ".join(str(x) for x in r) + "\n"
    return s + "end\n"


def ext(n, verts, num="rational"):
    s = "V-representation\nbegin\n%d %d %s\n" % (len(verts), n + 1, num)
    for v in verts:
        s += "1 " + " ".join(str(x) for x in v) + "\n"
    return s + "end\n"


def vrep(n, verts):
    s = "%d %d\n" % (len(verts), n + 1)
    for v in verts:
        s += "1 " + " ".join(str(x) for x in v) + "\n"
    return s
