------------------------------ MODULE EmptyTrace ------------------------------
(* Judges what is reported for polyhedra without integer points and for      *)
(* unbounded ones.  kind = "none": no integer points (pts = {} in a          *)
(* behaviour of LattBuild);  kind = "unbounded": rec is a direction and      *)
(* point a point of the polyhedron.                                          *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status

NonnegRows(c) == [i \in DOMAIN c.nonneg |-> [k \in 1..(c.n + 1) |-> IF k = c.nonneg[i] + 2 THEN 1 ELSE 0]]
AllRows(c) == c.rows \o NonnegRows(c)
LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}
UnboundedOK(c) ==
  LET rows == AllRows(c)
  IN /\ Sat(rows, LinSet(c), c.point)
     /\ \E i \in DOMAIN c.rec : c.rec[i] # 0
     /\ \A r \in DOMAIN rows : LET v == Dot(Tail(rows[r]), c.rec) IN IF r \in LinSet(c) THEN v = 0 ELSE v >= 0

Numbers(run) == ToSet(run.out) \cup ToSet(run.file) \cup ToSet(run.err)
Judge(c, run) ==
  IF run.rc \in {"crash", "timeout"} THEN (IF run.must THEN "no report: the program crashed" ELSE "")
  ELSE IF \E v \in Numbers(run) : v.small # 0 THEN "a number other than 0 is reported"
  ELSE IF c.kind = "unbounded" /\ run.must /\ ~run.unbounded THEN "unboundedness is not reported"
  ELSE IF c.kind = "unbounded" /\ run.rc = "ok" /\ Numbers(run) # {} THEN "a number is reported for an unbounded polyhedron"
  ELSE IF c.kind = "none" /\ run.must /\ ~run.empty /\ Numbers(run) = {} THEN "emptiness is not reported"
  ELSE ""

P(c) == IF c.kind = "unbounded" /\ ~UnboundedOK(c) THEN Assert(FALSE, <<"not unbounded", c.id>>) ELSE <<>>
E(c) == c.runs
S(c, a, ev) == Judge(c, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
