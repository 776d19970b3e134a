"""The experiment database: histories of operations on IntegrationDB and
VolumeDB (harness hdb), and of the drivers that fill it."""
import os, shutil, sqlite3, subprocess, tempfile
from fractions import Fraction
import latte

SCHEMA = """
create table polynomial (dim integer, degree integer, filePath text);
create table polytope (dim integer, vertexCount integer, simple integer, latteFilePath text, polymakeFilePath text, dual integer);
create table integrate (polynomialID integer, polytopeID integer, timeLawrence real default -1, timeTriangulate real default -1,
                        integral text default 'NA', flagValue text, flagType text);
create table volume (polytopeID integer, timeLawrence real default -1, timeTriangulate real default -1,
                     theVolume text default 'NA', flagType text, flagValue text);
"""


def value(s):
    s = str(s).replace(" ", "")
    if s == "NA":
        return []
    try:
        f = Fraction(s)
        return [f.numerator, f.denominator]
    except (ValueError, ZeroDivisionError):
        return [0, 0]


def text(v):
    return "NA" if not v else str(Fraction(v[0], v[1]))


def number(x):
    """a time as an integer"""
    x = -9 if x is None else float(x)
    return int(x) if x >= 0 or x == int(x) else -8


def dump(f):
    con = sqlite3.connect(f)
    q = lambda s: con.execute(s).fetchall()
    out = {"poly": [dict(id=r[0], dim=r[1], deg=r[2], path=r[3]) for r in q("select rowid, dim, degree, filePath from polynomial order by rowid")],
           "tope": [dict(id=r[0], dim=r[1], vc=r[2], file=r[3], path=r[4], dual=r[5] or 0) for r in
                    q("select rowid, dim, vertexCount, latteFilePath, polymakeFilePath, dual from polytope order by rowid")],
           "test": [dict(id=r[0], p=r[1], t=r[2], tl=number(r[3]), tt=number(r[4]), val=value(r[5])) for r in
                    q("select rowid, polynomialID, polytopeID, timeLawrence, timeTriangulate, integral from integrate order by rowid")],
           "vol": [dict(id=r[0], t=r[1], tl=number(r[2]), tt=number(r[3]), val=value(r[4])) for r in
                   q("select rowid, polytopeID, timeLawrence, timeTriangulate, theVolume from volume order by rowid")]}
    con.close()
    return out


def execute(f, sql, *args):
    con = sqlite3.connect(f)
    con.execute(sql, args)
    con.commit()
    con.close()


def rounded(x):
    return int(round(x)) if abs(x - round(x)) < 1e-3 * max(1, abs(x) * 1e-3) else -999


def statistics(parts):
    def one(total, n, avg, lo, hi, sd, lim):
        n = int(n)
        return [rounded(float(avg) * n), rounded(float(lo)), rounded(float(hi)), rounded((float(sd) * n) ** 2), int(lim)]
    a = one(parts[0], *parts[1:7])
    b = one(parts[0], *parts[7:13])
    return [int(parts[0]), int(parts[1])] + a + [int(parts[7])] + b


class History:
    def __init__(self, c):
        self.c, self.events, self.crashed = c, [], ""
        self.dir = tempfile.mkdtemp(prefix="latte-db-")
        self.sub = os.path.join(self.dir, "w")
        os.mkdir(self.sub)
        self.db = os.path.join(self.dir, "x.sqlite3")
        con = sqlite3.connect(self.db)
        con.executescript(SCHEMA)
        con.close()
        self.state = dump(self.db)
        self.proc = subprocess.Popen([os.path.join(latte.BIN, "hdb"), self.db], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     text=True, cwd=self.dir)
        self.serial = 0
        self.runs = 0

    def close(self):
        self.proc.stdin.close()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def call(self, *args):
        """(ok, answer) of one operation; None after a crash"""
        try:
            self.proc.stdin.write("\t".join(str(a) for a in args) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            return None
        p = line.rstrip("\n").split("\t")
        return p[0] == "ok", p[1:]

    def event(self, op, ok, res, **fields):
        self.state = dump(self.db)
        self.events.append(dict(fields, op=op, ok=ok, res=res, after=self.state, i=len(self.events) + 1))

    def ask(self, op, args, convert, **fields):
        r = self.call(op, *args)
        if r is None:
            self.crashed = op
            self.event("crash", False, 0)
            return False
        ok, ans = r
        self.event(op, ok, convert(ans) if ok else 0, **fields)
        return ok

    # -------------------------------------------------------------- picking
    def pick(self, l, k):
        return l[k % len(l)] if l else None

    def originals(self):
        return [t for t in self.state["tope"] if t["dual"] == 0]

    def tope(self, h, dual=0):
        self.serial += 1
        n = self.serial
        t = {"file": "./t%d.hrep.latte" % n, "path": "./P%d.polymake" % n}
        self.ask("insTope", [h["dim"], h["vc"] if not dual else h["vc"] + 1, 1, dual or -1, t["file"], t["path"]], lambda a: int(a[0]),
                 dim=h["dim"], vc=h["vc"] if not dual else h["vc"] + 1, of=dual, **t)
        if self.c["_drive"]:
            b = self.c["_boxof"](n, h["dim"])
            self.c["boxes"].append(dict(file=t["file"], **b))
            rows = []
            for i in range(h["dim"]):
                e = [0] * h["dim"]
                e[i] = 1
                rows.append([-b["lo"][i]] + e)
                rows.append([b["hi"][i]] + [-x for x in e])
            with open(os.path.join(self.dir, t["file"]), "w") as f:
                f.write(latte.hrep(h["dim"], rows))
        return self.state["tope"][-1]["id"]

    def polynomial(self, h):
        path = "./m%d-%d-%d.txt" % (h["dim"], h["deg"], h["k"] % 9)
        if self.c["_drive"] and not os.path.exists(os.path.join(self.dir, path)):
            e = [0] * h["dim"]
            for j in range(h["deg"]):
                e[(h["k"] * (j + 1) + j // 2) % h["dim"]] += 1
            self.c["monomials"].append({"path": path, "e": e})
            with open(os.path.join(self.dir, path), "w") as f:
                f.write("[[1,%s]]\n" % str(e).replace(" ", ""))
        self.ask("insPoly", [h["dim"], h["deg"], path], lambda a: int(a[0]), dim=h["dim"], deg=h["deg"], path=path)

    # ----------------------------------------------------------- operations
    def do(self, h):
        op, s = h["op"], self.state
        o = self.pick(self.originals(), h["k"])
        opath = o["path"] if o else "./none.polymake"
        cls = dict(dim=h["dim"], vc=h["vc"], deg=h["deg"], dual=h["dual"])
        lst = [h["dim"], h["vc"], h["deg"], int(h["dual"])]
        num = lambda a: int(a[0])
        rows = lambda a: [r.split("|") for r in a if r]
        lines = lambda a: [[r[0], r[1], number(r[2]), number(r[3]), value(r[4]), int(r[5])] for r in rows(a)]
        vlines = lambda a: [["", r[0], number(r[1]), number(r[2]), value(r[3]), int(r[4])] for r in rows(a)]
        if op == "insPoly":
            self.polynomial(h)
        elif op == "insPair":
            t = self.tope(h)
            self.tope(h, t)
        elif op == "insTope":
            self.tope(h)
        elif op == "delPoly":
            used = {r["p"] for r in s["test"]}
            p = self.pick([p for p in s["poly"] if p["id"] not in used], h["k"])
            if p:
                self.ask(op, [p["id"]], lambda a: 0, id=p["id"])
        elif op == "tests":
            self.ask(op, [h["dim"], h["deg"], h["vc"], h["count"]], lambda a: 0, count=h["count"], **cls)
        elif op == "specific":
            t = self.pick(s["tope"] + [{"path": "./none.polymake"}], h["k"])
            self.ask(op, [t["path"], h["deg"], h["count"]], lambda a: 0, path=t["path"], deg=h["deg"], count=h["count"])
        elif op in ("update", "updVol"):
            r = self.pick(s["test" if op == "update" else "vol"], h["k"])
            if r:
                # the recorded value again, half the time
                v = r["val"] if r["val"] and h["count"] % 2 else h["val"]
                self.ask(op, [h["alg"], h["time"], text(v), r["id"]], lambda a: 0, id=r["id"], alg=h["alg"], time=h["time"], val=v)
        elif op == "skip":
            table = "test" if h["count"] else "vol"
            r = self.pick(s[table], h["k"])
            if r:
                execute(self.db, "update %s set %s = -2 where rowid = ?" % ({"test": "integrate", "vol": "volume"}[table],
                                                                           ("timeLawrence", "timeTriangulate")[h["alg"] - 1]), r["id"])
                self.event("outside", True, 0)
        elif op == "addVol":
            have = {v["t"] for v in s["vol"]}
            t = self.pick([t for t in s["tope"] if t["id"] not in have], h["k"])
            if t:
                execute(self.db, "insert into volume (polytopeID) values (?)", t["id"])
                self.event("outside", True, 0)
        elif op == "polyExists":
            path = "./m%d-%d-%d.txt" % (h["dim"], h["deg"], h["k"] % 9)
            self.ask(op, [path], num, path=path)
        elif op == "topeExists":
            t = self.pick(s["tope"] + [{"path": "./none.polymake"}], h["k"])
            self.ask(op, [t["path"]], num, path=t["path"])
        elif op == "numPoly":
            self.ask(op, [h["dim"], h["deg"]], num, **cls)
        elif op == "numTopes":
            self.ask(op, [h["dim"], h["vc"], int(h["dual"])], num, **cls)
        elif op == "numTests":
            self.ask(op, lst, num, **cls)
        elif op in ("completed", "limit"):
            self.ask(op, [h["alg"]] + lst, num, alg=h["alg"], **cls)
        elif op == "finish":
            self.ask(op, [h["alg"]] + lst + [h["secs"]], num, alg=h["alg"], secs=h["secs"], **cls)
        elif op == "numTestsFile":
            self.ask(op, [opath, h["deg"], int(h["dual"])], num, path=opath, **cls)
        elif op == "limitFile":
            self.ask(op, [h["alg"], opath, h["deg"], int(h["dual"])], num, path=opath, alg=h["alg"], **cls)
        elif op == "finishFile":
            self.ask(op, [h["alg"], opath, h["deg"], int(h["dual"]), h["secs"]], num, path=opath, alg=h["alg"], secs=h["secs"], **cls)
        elif op == "rows":
            self.ask(op, lst + [h["limit"]], lines, limit=h["limit"], **cls)
        elif op == "rowsFile":
            self.ask(op, [opath, h["deg"], int(h["dual"]), h["limit"]], lines, path=opath, limit=h["limit"], **cls)
        elif op == "files":
            self.ask(op, [], lambda a: [r[0] for r in rows(a)])
        elif op == "stats":
            self.ask(op, lst, statistics, **cls)
        elif op == "statsFile":
            self.ask(op, [opath, h["deg"], int(h["dual"])], statistics, path=opath, **cls)
        elif op == "volRows":
            self.ask(op, [h["dim"], h["vc"], int(h["dual"]), h["limit"]], vlines, limit=h["limit"], **cls)
        elif op == "volRowsFile":
            self.ask(op, [opath, int(h["dual"])], vlines, path=opath, limit=99, **cls)
        elif op == "volCompleted":
            self.ask(op, [h["alg"], h["dim"], h["vc"], int(h["dual"])], num, alg=h["alg"], **cls)
        elif op == "volFinish":
            self.ask(op, [h["alg"], h["dim"], h["vc"], int(h["dual"]), h["secs"]], num, alg=h["alg"], secs=h["secs"], **cls)
        elif op == "volStats":
            self.ask(op, [h["dim"], h["vc"], int(h["dual"])], statistics, **cls)
        elif op.startswith("run"):
            self.drive(h, op, opath, cls)
        else:
            raise ValueError(op)

    def drive(self, h, op, opath, cls):
        """a run of a driver over a class, or the tests of a file, when it has any"""
        table, byfile = ("vol" if "Vol" in op else "test"), op.endswith("File")
        s = self.state
        ofs = {t["id"] for t in s["tope"] if t["path"] == opath}
        org = {t["id"]: t for t in s["tope"]}
        if byfile:
            topes = {t["id"] for t in s["tope"] if (t["dual"] in ofs if h["dual"] else t["id"] in ofs)}
        else:
            topes = {t["id"] for t in s["tope"] if bool(t["dual"]) == h["dual"] and
                     (lambda o: o["dim"] == h["dim"] and o["vc"] == h["vc"])(org[t["dual"]] if t["dual"] else t)}
        deg = {p["id"]: p["deg"] for p in s["poly"]}
        R = [r for r in s[table] if r["t"] in topes and (table == "vol" or deg[r["p"]] == h["deg"])]
        alg = h["alg"] if table == "test" else self.c.get("_volalg", 2)
        if not R:
            return
        dual = "true" if h["dual"] else "false"
        prog = os.path.join(latte.BIN, "integrate-database-polytopes" if table == "test" else "find-volume-database-polytopes")
        where = ["specficFile", opath] if byfile else [h["dim"], h["vc"]]
        args = [self.db] + where + ([h["deg"]] if table == "test" else []) + [dual, alg]
        cwd = self.dir if table == "test" else self.sub
        link = os.path.join(self.dir, "driver")
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(prog, link)            # the log is written beside the name it was started with
        self.runs += 1
        try:
            p = subprocess.run([link] + [str(a) for a in args], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=60)
            ok = p.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        done = all((r["tl"], r["tt"])[alg - 1] >= 0 and r["val"] for r in R)
        self.event("run", ok, 0, table=table, alg=alg, file=byfile, path=opath, **cls)
        if done:
            self.events[-1]["ok"] = True        # nothing to do: refused with a status of 1 when every test is done


def observe(c):
    c["boxes"], c["monomials"] = [], []
    c["_boxof"] = lambda n, d: c["_boxes"][n % len(c["_boxes"])][d]
    H = History(c)
    try:
        for h in c["_hist"]:
            H.do(h)
            if H.crashed:
                break
    finally:
        H.close()
    c["events"], c["_runs"] = H.events, H.runs + len(H.events)
    del c["_boxof"]
    return c


def case(g, rng, drive):
    box = lambda d: (lambda lo: {"lo": lo, "hi": [x + rng.randint(1, 2) for x in lo]})([rng.randint(-1, 1) for _ in range(d)])
    return {"_hist": g["hist"], "_drive": drive, "_boxes": [{d: box(d) for d in (2, 3)} for _ in range(6)], "events": [], "boxes": [], "monomials": []}


def describe(c, why):
    pos = int(str(why).split(",")[0])
    return {"why": why, "history": [{k: v for k, v in e.items() if k != "after"} for e in c["events"][:pos]],
            "before": c["events"][pos - 2]["after"] if pos > 1 else {}, "after": c["events"][pos - 1]["after"],
            "boxes": c["boxes"], "monomials": c["monomials"]}


def known(rng, f):
    """the run of a listed finding"""
    h = dict(alg=1, dim=2, vc=4, deg=1, dual=False, count=0, limit=1, secs=1, k=0, time=0, val=[1, 1])
    return dict(case({"hist": [dict(h, op=o) for o in ("insTope", "addVol", "runVol")]}, rng, True), _volalg=f["algorithm"])


def match(c, why, f):
    k = str(why).split(",", 1)
    e = c["events"][int(k[0]) - 1]
    return "driver" in f and f["complaint"] in k[1] and e["op"] == "run" and e["table"] == "vol" and e["alg"] == f["algorithm"]
