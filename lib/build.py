#!/usr/bin/env python3
"""Builds the LattE programs from /repo's working tree into /verif/.build
(hooks on: -DLATTE_VERIF_TRACE).  The sources are mirrored by content, so an
object is rebuilt exactly when something it includes really changed."""
import filecmp, fcntl, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LATTE_REPO", "/repo")
OUT = os.environ.get("LATTE_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(OUT, "src")
BIN = os.path.join(OUT, "bin")
CFG = os.path.join(VERIF, "cfg")
CONDS = {"HAVE_DATABASE", "HAVE_EXPERIMENTS", "HAVE_FORTYTWO_LIB",
         "HAVE_TOPCOM_BIN", "HAVE_CDDLIB"}
OPT = os.environ.get("LATTE_OPT", "-O1")
CXXFLAGS = (OPT + " -w -DHAVE_CONFIG_H -DLATTE_VERIF_TRACE -D__STDC_LIMIT_MACROS -D_4ti2_GMP_ "
            "-DINSTALLDIR='\"/usr/local/bin\"' -DINSTALLPREFIX='\"{out}\"' -I{cfg} -I{cfg}/inc -I{src} -I{src}/latte "
            "-I/usr/include/4ti2 -I/usr/include/x86_64-linux-gnu/4ti2").format(cfg=CFG, src=SRC, out=OUT)
GNULIB = "allocator areadlink careadlinkat exitfail malloca progname unistd xmalloc xalloc-die xreadlink".split()
LIBS = "-lntl -lcddgmp -l4ti2gmp -lzsolve -lgmpxx -lgmp"


def mirror():
    """content mirror of /repo/code (sources only)"""
    keep = (".cpp", ".h", ".hpp", ".c", ".am", ".add", ".mpl")
    seen = set()
    for top in ("latte", "gnulib"):
        base = os.path.join(REPO, "code", top)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if not x.startswith(".")]
            rel = os.path.relpath(d, os.path.join(REPO, "code"))
            for f in files:
                if not f.endswith(keep):
                    continue
                s = os.path.join(d, f)
                t = os.path.join(SRC, rel, f)
                seen.add(t)
                if not os.path.exists(t) or not filecmp.cmp(s, t, shallow=False):
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    shutil.copyfile(s, t)
    for d, dirs, files in os.walk(SRC):
        for f in files:
            if os.path.join(d, f) not in seen:
                os.remove(os.path.join(d, f))


def parse_am(path):
    """variables of a Makefile.am under CONDS"""
    text = open(path).read().replace("\\\n", " ")
    var, stack = {}, []
    for line in text.splitlines():
        m = re.match(r"^if\s+(!?)(\w+)", line)
        if m:
            stack.append((m.group(2) in CONDS) != bool(m.group(1)))
            continue
        if re.match(r"^else\b", line):
            stack[-1] = not stack[-1]
            continue
        if re.match(r"^endif\b", line):
            stack.pop()
            continue
        if not all(stack):
            continue
        m = re.match(r"^([A-Za-z_]\w*)\s*(\+?=)\s*(.*?)(#.*)?$", line)
        if m:
            val = m.group(3).split()
            if m.group(2) == "=":
                var[m.group(1)] = val
            else:
                var[m.group(1)] = var.get(m.group(1), []) + val
    return var


def generate():
    am = parse_am(os.path.join(SRC, "latte", "Makefile.am"))
    nam = parse_am(os.path.join(SRC, "latte", "normalize", "Makefile.am"))
    cpp = lambda l: list(dict.fromkeys(x for x in l if x.endswith(".cpp")))
    lib = cpp(am["liblatte_la_SOURCES"] + am.get("nodist_liblatte_la_SOURCES", []))
    progs = {}
    for p in am["bin_PROGRAMS"] + am["check_PROGRAMS"]:
        v = re.sub(r"\W", "_", p)
        s = cpp(am.get(v + "_SOURCES", []) + am.get("nodist_" + v + "_SOURCES", []))
        if s and all(os.path.exists(os.path.join(SRC, "latte", x)) for x in s):
            progs[p] = (s, "-lsqlite3" if "-lsqlite3" in am.get(v + "_LDFLAGS", []) else "")
    nlib = ["normalize/" + x for x in cpp(nam["libnormalize_la_SOURCES"])]
    nprogs = {}
    for p in nam["bin_PROGRAMS"]:
        v = re.sub(r"\W", "_", p)
        nprogs[p] = ["normalize/" + x for x in cpp(nam.get(v + "_SOURCES", []))]
    # harness programs of /verif, linked against the mirrored sources
    hdir = os.path.join(VERIF, "harness")
    harness = sorted(f for f in os.listdir(hdir) if f.endswith(".cpp")) if os.path.isdir(hdir) else []
    mk = ["CXXFLAGS = " + CXXFLAGS, "all:", ".DELETE_ON_ERROR:"]
    objs = {}

    def obj(s):
        o = "obj/" + re.sub(r"[/.]", "_", s) + ".o"
        if s not in objs:
            objs[s] = o
            path = s if s.startswith("/") else "src/latte/" + s
            mk.append("%s: %s\n\tg++ $(CXXFLAGS) -MMD -MP -c -o $@ %s" % (o, path, path))
        return o

    gobjs = []
    for g in GNULIB:
        o = "obj/gnu_%s.o" % g.replace("-", "_")
        gobjs.append(o)
        mk.append("%s: src/gnulib/%s.c\n\tgcc -O1 -w -DHAVE_CONFIG_H -I%s/gnulib -I%s -Isrc/gnulib -c -o $@ $<" % (o, g, CFG, CFG))
    mk.append("liblatte.a: %s\n\trm -f $@; ar rcs $@ $^" % " ".join([obj(s) for s in lib] + gobjs))
    mk.append("libnormalize.a: %s\n\trm -f $@; ar rcs $@ $^" % " ".join(obj(s) for s in nlib))
    allp = []
    for p, (s, l) in progs.items():
        o = [obj(x) for x in s]
        allp.append("bin/" + p)
        mk.append("bin/%s: %s liblatte.a\n\tg++ -o $@ $^ %s %s" % (p, " ".join(o), l, LIBS))
    for p, s in nprogs.items():
        o = [obj(x) for x in s]
        allp.append("bin/" + p)
        mk.append("bin/%s: %s libnormalize.a liblatte.a\n\tg++ -o $@ $^ -l4ti2util %s" % (p, " ".join(o), LIBS))
    for h in harness:
        p = h[:-4]
        o = obj(os.path.join(hdir, h))
        extra = []
        for line in open(os.path.join(hdir, h)):
            m = re.match(r"// LINK: (.*)", line)
            if m:
                extra = [obj(x) for x in m.group(1).split() if x.endswith(".cpp")]
        sq = "-lsqlite3" if extra and any("sqlite" in x for x in extra) else ""
        allp.append("bin/" + p)
        mk.append("bin/%s: %s %s libnormalize.a liblatte.a\n\tg++ -o $@ $^ %s %s" % (p, o, " ".join(extra), sq, LIBS))
    mk.append("all: " + " ".join(allp))
    mk.append("-include obj/*.d")
    text = "\n".join(mk) + "\n"
    path = os.path.join(OUT, "Makefile")
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return sorted(os.path.basename(p) for p in allp)


def build(targets=None, quiet=True):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror()
        generate()
        t = ["bin/" + x for x in targets] if targets else ["all"]
        r = subprocess.run(["make", "-s", "-k", "-j", str(os.cpu_count() or 8)] + t, cwd=OUT,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise SystemExit("build of /repo failed")
        if not quiet:
            sys.stdout.write(r.stdout)
    return BIN


if __name__ == "__main__":
    t0 = time.time()
    build(sys.argv[1:] or None, quiet=False)
    print("built in %.1fs" % (time.time() - t0))
