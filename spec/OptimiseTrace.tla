---------------------------- MODULE OptimiseTrace ----------------------------
(* Judges runs of latte-maximize and latte-minimize.  A case is a polyhedron  *)
(* (as in CountTrace) with an objective: cost, written to the file multiplied *)
(* by a factor with residues scale.                                           *)
(* run: [max, opts, rc, must, sols (points reported), vals (values reported), *)
(*       num (number of optima reported), empty]                              *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status
O == INSTANCE LattOptimise

NonnegRows(c) == [i \in DOMAIN c.nonneg |-> [k \in 1..(c.n + 1) |-> IF k = c.nonneg[i] + 2 THEN 1 ELSE 0]]
AllRows(c) == c.rows \o NonnegRows(c)
LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}
PointsOK(c) == Cardinality(ToSet(c.pts)) = c.npts /\ \A i \in DOMAIN c.pts : Sat(AllRows(c), LinSet(c), c.pts[i])
BoxOf(c, rows) ==
  IF c.how = "given" THEN <<c.lo, c.hi>>
  ELSE LET b == ImpliedBox(rows, LinSet(c), c.n)
       IN IF BoxKnown(b) THEN <<BoxLo(b), BoxHi(b)>> ELSE Assert(FALSE, <<"no box", c.id>>)
(* <<the maximum of cost, the maximum of -cost>>                              *)
Both(c) ==
  IF c.how = "points"
  THEN IF PointsOK(c) THEN LET P == ToSet(c.pts) IN <<O!OptimumOf(P, c.cost), O!OptimumOf(P, NegV(c.cost))>>
       ELSE Assert(FALSE, <<"points do not satisfy the description", c.id>>)
  ELSE LET rows == TLCEval(AllRows(c)) b == TLCEval(BoxOf(c, rows))
       IN <<O!Optimum(rows, LinSet(c), c.cost, b[1], b[2]), O!Optimum(rows, LinSet(c), NegV(c.cost), b[1], b[2])>>
(* when the equations leave a single point the programs only say so          *)
OnePoint(c) ==
  IF c.how = "points" THEN c.npts = 1
  ELSE LET rows == TLCEval(AllRows(c)) b == TLCEval(BoxOf(c, rows)) IN CountBT(rows, LinSet(c), b[1], b[2]) = 1
Judge(c, both, run) ==
  LET o == IF run.max THEN both[1] ELSE both[2]
      best == IF run.max THEN o[2] ELSE -o[2]
      valueOK(v) == \A q \in DOMAIN PrimeSeq : v.res[q] = MulM(c.scale[q], best % PrimeSeq[q], PrimeSeq[q])
  IN IF run.rc = "crash" /\ run.must /\ ~(o[1] = 0 /\ run.empty) THEN "the program crashed"
     ELSE IF run.rc = "timeout" THEN (IF run.must THEN "no answer in time" ELSE "")
     ELSE IF o[1] = 0
     THEN IF run.sols # <<>> THEN "a solution reported for an empty polyhedron"
          ELSE IF run.vals # <<>> /\ (run.num = <<>> \/ run.num[1].small # 0) THEN "an optimum reported for an empty polyhedron"
          ELSE ""
     ELSE IF run.empty THEN "reported to be empty"
     ELSE IF \E i \in DOMAIN run.sols : Len(run.sols[i]) # c.n THEN "solution of another dimension"
     ELSE IF \E i \in DOMAIN run.sols : ~Sat(AllRows(c), LinSet(c), run.sols[i]) THEN "the solution is not in the polyhedron"
     ELSE IF \E i \in DOMAIN run.sols : Dot(c.cost, run.sols[i]) # best THEN "the solution is not optimal"
     ELSE IF \E i \in DOMAIN run.vals : ~valueOK(run.vals[i]) THEN "wrong optimal value"
     ELSE IF \E i \in DOMAIN run.num : run.num[i].small # o[1] THEN "wrong number of optimal solutions"
     ELSE IF run.must /\ run.vals = <<>> /\ ~OnePoint(c) THEN "no optimum reported"
     ELSE ""
P(c) == Both(c)
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
