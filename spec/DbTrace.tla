------------------------------- MODULE DbTrace -------------------------------
(* Judges a recorded history of the experiment database: events as in LattDb; *)
(* the runs of the drivers are events "run": an update of each unfinished     *)
(* test of a class with the value of the integral, where polytopes are boxes  *)
(* and polynomials monomials.                                                 *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status
Db == INSTANCE LattDb
Empty == [poly |-> <<>>, tope |-> <<>>, test |-> <<>>, vol |-> <<>>]

(* --------------------------------------- the integral of x^e over lo..hi *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
BoxIntegral(lo, hi, e) == <<Prod([i \in DOMAIN lo |-> Pow(hi[i], e[i] + 1) - Pow(lo[i], e[i] + 1)]), Prod([i \in DOMAIN lo |-> e[i] + 1])>>
Equal(v, w) == v[1] * w[2] = w[1] * v[2]
(* c.boxes: [file, lo, hi] and c.monomials: [path, e] *)
Truth(c, a, ev, r) ==
  LET b == CHOOSE x \in Db!Rng(c.boxes) : x.file = Db!Row(a.tope, r.t).file
      e == IF ev.table = "test" THEN (CHOOSE x \in Db!Rng(c.monomials) : x.path = Db!Row(a.poly, r.p).path).e ELSE [i \in DOMAIN b.lo |-> 0]
  IN BoxIntegral(b.lo, b.hi, e)

(* -------------------------------------------------- a driver's run *)
Over(a, ev) == IF ev.file THEN Db!OfFile(a, ev.path, ev.dual) ELSE Db!TopesIn(a, ev.dim, ev.vc, ev.dual)
Tests(a, ev) == IF ev.table = "test" THEN Db!TestsIn(a, Over(a, ev), Db!Degrees(a, ev.deg)) ELSE Db!VolsIn(a, Over(a, ev))
(* a test of this class, or of an easier one, is to be skipped, or the class   *)
(* has taken too long                                                          *)
Skipped(a, ev) ==
  IF ev.table = "test"
  THEN Db!MayFinish(ev.alg, IF ev.file THEN ev.deg <= 3 ELSE ev.vc <= ev.dim + 3, Db!TestsIn(a, Over(a, ev), Db!DegreesTo(a, ev.deg)), Tests(a, ev), 600) = 0
  ELSE \E r \in (IF ev.file THEN Db!VolsIn(a, Over(a, ev)) ELSE Db!SmallerVols(a, ev)) : Db!TimeOf(ev.alg, r) = -2
RunOf(c, a, ev) ==
  LET b == ev.after
      R == Tests(a, ev)
      old == a[ev.table]
      new == b[ev.table]
      todo == {r \in R : r.val = <<>> \/ Db!TimeOf(ev.alg, r) < 0}
      spoilt == {r \in todo : r.val # <<>> /\ ~Equal(r.val, Truth(c, a, ev, r))}
      kept(r, u) == u = r
      ran(r, u) == /\ u.val # <<>> /\ Equal(u.val, Truth(c, a, ev, r)) /\ r.val \in {<<>>, u.val}
                   /\ Db!TimeOf(ev.alg, u) >= 0 /\ Db!TimeOf(3 - ev.alg, u) = Db!TimeOf(3 - ev.alg, r)
                   /\ [u EXCEPT !.val = r.val, !.tl = r.tl, !.tt = r.tt] = r
  IN IF ~Db!Same(a, b, Db!All \ {ev.table}) \/ Len(old) # Len(new) THEN "a run changes other tables"
     ELSE IF \E i \in DOMAIN old : old[i] \notin todo /\ ~kept(old[i], new[i]) THEN "a run changes a row it was not asked for"
     ELSE IF \E i \in DOMAIN old : ~kept(old[i], new[i]) /\ ~ran(old[i], new[i]) THEN "a run records something else"
     ELSE IF Skipped(a, ev) THEN (IF old = new THEN "" ELSE "a run of tests that are to be skipped")
     ELSE IF spoilt # {} THEN (IF ev.ok THEN "a run ignores a different value" ELSE "")
     ELSE IF todo # {} /\ ~ev.ok THEN "a run fails"
     ELSE IF \E i \in DOMAIN old : old[i] \in todo /\ ~ran(old[i], new[i]) THEN "a run leaves out a test"
     ELSE ""

P(c) == Empty
E(c) == c.events
S(c, a, ev) ==
  LET db == IF ev.i = 1 THEN a ELSE c.events[ev.i - 1].after
  IN IF ev.op = "run" THEN RunOf(c, db, ev) ELSE Db!Judge(db, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
==============================================================================
