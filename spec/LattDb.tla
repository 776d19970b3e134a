------------------------------- MODULE LattDb -------------------------------
(* The experiment database: polynomials, polytopes (a dual one points to its  *)
(* original), integration tests (a polynomial over a polytope, with the time  *)
(* of either method, -1 before it has run and -2 where it is to be skipped,   *)
(* and the integral n/d as <<n, d>>, <<>> before anything has run) and volume *)
(* tests.                                                                     *)
(*   poly: <<[id, dim, deg, path]>>           tope: <<[id, dim, vc, file, path, dual]>> *)
(*   test: <<[id, p, t, tl, tt, val]>>        vol:  <<[id, t, tl, tt, val]>>  *)
(* Tables are ordered by id.  What an operation may do is a relation between  *)
(* the tables before and after it: Judge(db, ev) is "" if the event           *)
(* [op, .., ok, res, after] is legal, and a complaint otherwise.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NA == <<>>
Rng(s) == {s[i] : i \in DOMAIN s}
Ids(s) == {r.id : r \in Rng(s)}
Row(s, id) == CHOOSE r \in Rng(s) : r.id = id
MaxId(s) == Max({0} \cup Ids(s))

(* ------------------------------------------------------------ the classes *)
Original(db, t) == IF t.dual = 0 THEN t ELSE Row(db.tope, t.dual)
InClass(db, t, dim, vc, dual) ==
  IF dual THEN t.dual # 0 /\ t.dual \in Ids(db.tope) /\ Original(db, t).dim = dim /\ Original(db, t).vc = vc
  ELSE t.dual = 0 /\ t.dim = dim /\ t.vc = vc
TopesIn(db, dim, vc, dual) == {t.id : t \in {t \in Rng(db.tope) : InClass(db, t, dim, vc, dual)}}
PolysIn(db, dim, deg) == {p.id : p \in {p \in Rng(db.poly) : p.dim = dim /\ p.deg = deg}}
Degrees(db, deg) == {p.id : p \in {p \in Rng(db.poly) : p.deg = deg}}
DegreesTo(db, deg) == {p.id : p \in {p \in Rng(db.poly) : p.deg <= deg}}
(* the tests over polytopes ts with polynomials ps *)
TestsIn(db, ts, ps) == {r \in Rng(db.test) : r.t \in ts /\ r.p \in ps}
VolsIn(db, ts) == {r \in Rng(db.vol) : r.t \in ts}
Found(db, path) == {t.id : t \in {t \in Rng(db.tope) : t.path = path}}
OfFile(db, path, dual) ==      \* the original with this path, or its duals
  IF dual THEN {t.id : t \in {t \in Rng(db.tope) : t.dual # 0 /\ t.dual \in Found(db, path)}}
  ELSE {t \in Found(db, path) : Row(db.tope, t).dual = 0}

(* -------------------------------------------------------------- statistics *)
TimeOf(alg, r) == IF alg = 1 THEN r.tl ELSE r.tt
SumOver(R, f(_)) == FoldSet(LAMBDA r, acc : acc + f(r), 0, R)
Stat(R, alg) ==      \* total, finished, sum, min, max, n * sum of squares - square of sum, limited
  LET F == {r \in R : TimeOf(alg, r) >= 0}
      T == {TimeOf(alg, r) : r \in F}
      n == Cardinality(F)
      s == SumOver(F, LAMBDA r : TimeOf(alg, r))
      q == SumOver(F, LAMBDA r : TimeOf(alg, r) * TimeOf(alg, r))
  IN <<Cardinality(R), n, s, IF n = 0 THEN 0 ELSE Min(T), IF n = 0 THEN 0 ELSE Max(T), n * q - s * s,
       IF \E r \in R : TimeOf(alg, r) = -2 THEN 1 ELSE 0>>

(* whether a test may be expected to end within secs: *)
MayFinish(alg, basic, wide, exact, secs) ==
  LET done == {r \in exact : TimeOf(alg, r) >= 0}
      ever == {r \in wide : TimeOf(alg, r) >= 0}
  IN IF \E r \in wide : TimeOf(alg, r) = -2 THEN 0
     ELSE IF done # {} THEN (IF SumOver(done, LAMBDA r : TimeOf(alg, r)) < secs * Cardinality(done) THEN 1 ELSE 0)
     ELSE IF basic \/ ever = {} THEN 1
     ELSE IF Max({TimeOf(alg, r) : r \in ever}) < secs THEN 1 ELSE 0

(* --------------------------------------------------------------- operations *)
Same(db, b, tables) == \A x \in tables : db[x] = b[x]
All == {"poly", "tope", "test", "vol"}
Added(a, b) == IF Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a THEN SubSeq(b, Len(a) + 1, Len(b)) ELSE <<>>
Grown(a, b) == Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a
Fresh(db, r) == r.tl = -1 /\ r.tt = -1 /\ r.val = NA

(* new tests new: over unused polytopes and with unused polynomials of a class *)
GoodNew(db, new, ts, ps, used) ==
  LET S == Rng(new)
  IN /\ \A r \in S : Fresh(db, r) /\ r.t \in ts /\ r.p \in ps
     /\ \A r \in S : \A u \in used : r.p # u.p
     /\ \A r, u \in S : r.id # u.id => r.p # u.p
OneTopeEach(new, used) == /\ \A r \in Rng(new) : \A u \in used : r.t # u.t
                          /\ \A r, u \in Rng(new) : r.id # u.id => r.t # u.t

InsertTests(db, ev) ==
  LET b == ev.after
      ps == PolysIn(db, ev.dim, ev.deg)
      ds == Degrees(db, ev.deg)
      ts(d) == TopesIn(db, ev.dim, ev.vc, d)
      old(d) == TestsIn(db, ts(d), ds)
      new == Added(db.test, b.test)
      newOf(d) == SelectSeq(new, LAMBDA r : r.t \in ts(d))
      more(d) == IF ev.count > Cardinality(old(d)) THEN ev.count - Cardinality(old(d)) ELSE 0
      free(d) == /\ Cardinality(ps \ {r.p : r \in old(d)}) >= more(d)
                 /\ Cardinality(ts(d) \ {r.t : r \in old(d)}) >= more(d)
      enough == Cardinality(ps) >= ev.count /\ \A d \in BOOLEAN : Cardinality(ts(d)) >= ev.count /\ free(d)
  IN IF ~Same(db, b, All \ {"test"}) \/ ~Grown(db.test, b.test) THEN "insertion of tests changes other rows"
     ELSE IF \E r \in Rng(new) : r.t \notin ts(TRUE) \cup ts(FALSE) THEN "a test over a polytope of another class"
     ELSE IF \E d \in BOOLEAN : ~GoodNew(db, newOf(d), ts(d), ps, old(d)) \/ ~OneTopeEach(newOf(d), old(d)) THEN "a new test is not what was asked for"
     ELSE IF ev.ok THEN (IF \A d \in BOOLEAN : Len(newOf(d)) = more(d) THEN "" ELSE "not as many tests as asked for")
     ELSE IF enough THEN "refuses to insert tests" ELSE ""

InsertForFile(db, ev) ==
  LET b == ev.after
      t == Found(db, ev.path)
      dim == IF t = {} THEN 0 ELSE Row(db.tope, Min(t)).dim
      ps == PolysIn(db, dim, ev.deg)
      old == TestsIn(db, t, Degrees(db, ev.deg))
      new == Added(db.test, b.test)
      more == IF ev.count > Cardinality(old) THEN ev.count - Cardinality(old) ELSE 0
      enough == t # {} /\ Cardinality(ps) >= ev.count /\ Cardinality(ps \ {r.p : r \in old}) >= more
  IN IF ~Same(db, b, All \ {"test"}) \/ ~Grown(db.test, b.test) THEN "insertion of tests changes other rows"
     ELSE IF ~GoodNew(db, new, t, ps, old) THEN "a new test is not what was asked for"
     ELSE IF ev.ok THEN (IF t = {} THEN "inserts tests of a polytope that does not exist" ELSE IF Len(new) = more THEN "" ELSE "not as many tests as asked for")
     ELSE IF enough THEN "refuses to insert tests" ELSE ""

Recorded(r, ev) == IF ev.alg = 1 THEN [r EXCEPT !.tl = ev.time, !.val = ev.val] ELSE [r EXCEPT !.tt = ev.time, !.val = ev.val]
Update(db, ev, table) ==
  LET b == ev.after
      old == Row(db[table], ev.id)
      accept == old.val \in {NA, ev.val}
      want == [i \in DOMAIN db[table] |-> IF db[table][i].id = ev.id THEN Recorded(db[table][i], ev) ELSE db[table][i]]
  IN IF ~Same(db, b, All \ {table}) THEN "an update changes another table"
     ELSE IF ~accept THEN (IF ev.ok THEN "a different value is accepted" ELSE IF b[table] = db[table] THEN "" ELSE "a refused update changes the table")
     ELSE IF ~ev.ok THEN "an update is refused"
     ELSE IF b[table] = want THEN "" ELSE "an update is recorded wrongly"

RowsFor(db, R, table) ==      \* what the programs are given of tests R
  IF table = "test" THEN {<<Row(db.poly, r.p).path, Row(db.tope, r.t).file, r.tl, r.tt, r.val, r.id>> : r \in R}
  ELSE {<<"", Row(db.tope, r.t).file, r.tl, r.tt, r.val, r.id>> : r \in R}
Listed(db, ev, R, table) ==
  LET S == RowsFor(db, R, table)
  IN IF Rng(ev.res) \subseteq S /\ Cardinality(Rng(ev.res)) = Len(ev.res) /\ Len(ev.res) = (IF ev.limit < Cardinality(S) THEN ev.limit ELSE Cardinality(S))
     THEN "" ELSE "other rows are listed"
Is(x, y) == IF x = y THEN "" ELSE "the answer differs from the tables"
ClassTests(db, ev) == TestsIn(db, TopesIn(db, ev.dim, ev.vc, ev.dual), Degrees(db, ev.deg))
ClassTestsTo(db, ev) == TestsIn(db, TopesIn(db, ev.dim, ev.vc, ev.dual), DegreesTo(db, ev.deg))
FileTests(db, ev) == TestsIn(db, OfFile(db, ev.path, ev.dual), Degrees(db, ev.deg))
FileTestsTo(db, ev) == TestsIn(db, OfFile(db, ev.path, ev.dual), DegreesTo(db, ev.deg))
ClassVols(db, ev) == VolsIn(db, TopesIn(db, ev.dim, ev.vc, ev.dual))
SmallerVols(db, ev) == UNION {VolsIn(db, TopesIn(db, ev.dim, v, ev.dual)) : v \in 0..ev.vc}
Finished(R, alg) == Cardinality({r \in R : TimeOf(alg, r) >= 0})
BothStats(R) == Stat(R, 1) \o Tail(Stat(R, 2))

Query(db, ev) ==
  CASE ev.op = "polyExists" -> Is(ev.res > 0, \E p \in Rng(db.poly) : p.path = ev.path /\ (ev.res > 0 => p.id = ev.res))
    [] ev.op = "topeExists" -> Is(ev.res > 0, Found(db, ev.path) # {} /\ (ev.res > 0 => ev.res \in Found(db, ev.path)))
    [] ev.op = "numPoly" -> Is(ev.res, Cardinality(PolysIn(db, ev.dim, ev.deg)))
    [] ev.op = "numTopes" -> Is(ev.res, Cardinality(TopesIn(db, ev.dim, ev.vc, ev.dual)))
    [] ev.op = "numTests" -> Is(ev.res, Cardinality(ClassTests(db, ev)))
    [] ev.op = "numTestsFile" -> Is(ev.res, Cardinality(FileTests(db, ev)))
    [] ev.op = "completed" -> Is(ev.res, Finished(ClassTests(db, ev), ev.alg))
    [] ev.op = "limit" -> Is(ev.res, Stat(ClassTests(db, ev), ev.alg)[7])
    [] ev.op = "limitFile" -> Is(ev.res, Stat(FileTests(db, ev), ev.alg)[7])
    [] ev.op = "rows" -> Listed(db, ev, ClassTests(db, ev), "test")
    [] ev.op = "rowsFile" -> Listed(db, ev, FileTests(db, ev), "test")
    [] ev.op = "files" -> Is(Rng(ev.res), {t.path : t \in {t \in Rng(db.tope) : t.dual = 0}})
    [] ev.op = "stats" -> Is(ev.res, BothStats(ClassTests(db, ev)))
    [] ev.op = "statsFile" -> IF Found(db, ev.path) = {} THEN "" ELSE Is(ev.res, BothStats(FileTests(db, ev)))
    [] ev.op = "finish" -> Is(ev.res, MayFinish(ev.alg, ev.vc <= ev.dim + 3, ClassTestsTo(db, ev), ClassTests(db, ev), ev.secs))
    [] ev.op = "finishFile" -> Is(ev.res, MayFinish(ev.alg, ev.deg <= 3, FileTestsTo(db, ev), FileTests(db, ev), ev.secs))
    [] ev.op = "volRows" -> Listed(db, ev, ClassVols(db, ev), "vol")
    [] ev.op = "volRowsFile" -> Listed(db, ev, VolsIn(db, OfFile(db, ev.path, ev.dual)), "vol")
    [] ev.op = "volCompleted" -> Is(ev.res, Finished(ClassVols(db, ev), ev.alg))
    [] ev.op = "volStats" -> Is(ev.res, BothStats(ClassVols(db, ev)))
    [] ev.op = "volFinish" ->
         LET st == Stat(ClassVols(db, ev), ev.alg)
         IN IF Stat(SmallerVols(db, ev), ev.alg)[7] = 1 THEN Is(ev.res, 0)
            ELSE IF st[2] < 3 \/ st[3] <= ev.secs * st[2] THEN Is(ev.res, 1)
            ELSE IF st[3] >= (ev.secs + 1) * st[2] THEN Is(ev.res, 0) ELSE ""

Judge(db, ev) ==
  LET b == ev.after
  IN CASE ev.op = "insPoly" ->
            IF \E p \in Rng(db.poly) : p.path = ev.path
            THEN (IF ev.ok THEN "a polynomial is inserted twice" ELSE IF db = b THEN "" ELSE "a refused insertion changes the tables")
            ELSE IF ~ev.ok THEN "a polynomial is refused"
            ELSE IF Same(db, b, All \ {"poly"}) /\ ev.res \notin Ids(db.poly) /\ b.poly = Append(db.poly, [id |-> ev.res, dim |-> ev.dim, deg |-> ev.deg, path |-> ev.path])
            THEN "" ELSE "a polynomial is inserted wrongly"
       [] ev.op = "insTope" ->
            IF ~ev.ok THEN "a polytope is refused"
            ELSE IF Same(db, b, All \ {"tope"}) /\ ev.res \notin Ids(db.tope)
                    /\ b.tope = Append(db.tope, [id |-> ev.res, dim |-> ev.dim, vc |-> ev.vc, file |-> ev.file, path |-> ev.path, dual |-> ev.of])
            THEN "" ELSE "a polytope is inserted wrongly"
       [] ev.op = "delPoly" ->
            IF ~ev.ok THEN "a deletion is refused"
            ELSE IF Same(db, b, All \ {"poly"}) /\ b.poly = SelectSeq(db.poly, LAMBDA p : p.id # ev.id) THEN "" ELSE "a polynomial is deleted wrongly"
       [] ev.op = "tests" -> InsertTests(db, ev)
       [] ev.op = "specific" -> InsertForFile(db, ev)
       [] ev.op = "update" -> Update(db, ev, "test")
       [] ev.op = "updVol" -> Update(db, ev, "vol")
       [] ev.op = "outside" -> ""                     \* somebody else wrote into the tables
       [] OTHER -> IF db # b THEN "a question changes the tables"
                   ELSE IF ~ev.ok THEN (IF ev.op = "statsFile" /\ Found(db, ev.path) = {} THEN "" ELSE "no answer") ELSE Query(db, ev)
=============================================================================
