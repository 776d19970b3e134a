------------------------------ MODULE GFTrace ------------------------------
(* Judges multivariate generating functions written by count.                *)
(* A case: n, rows, lin (0-based), how, pts, recs (the integer points are     *)
(* pts plus nonnegative combinations of recs, each in one way), lo, hi, z     *)
(* (evaluation points, one per prime) and runs with terms [coef, pts, rays].  *)
EXTENDS LattTraceFile, LattCone
VARIABLES case, pos, abs, status

LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}
PointsOf(c) ==
  IF c.how = "points" THEN c.pts ELSE SetToSeq(PointsBT(c.rows, LinSet(c), c.lo, c.hi))
DescriptionOK(c, ps) ==
  /\ \A i \in DOMAIN ps : Sat(c.rows, LinSet(c), ps[i])
  /\ \A i \in DOMAIN c.recs : \A r \in DOMAIN c.rows :
        LET v == Dot(Tail(c.rows[r]), c.recs[i]) IN IF r \in LinSet(c) THEN v = 0 ELSE v >= 0
P(c) ==
  LET ps == TLCEval(PointsOf(c))
  IN IF c.how # "cone" /\ ~DescriptionOK(c, ps) THEN Assert(FALSE, <<"points do not satisfy the description", c.id>>)
     ELSE [count |-> Len(ps), val |-> TLCEval([j \in DOMAIN PrimeSeq |-> TermM(c.z[j], 1, ps, c.recs, PrimeSeq[j])])]
ValueM(c, terms, j) ==
  FoldLeft(LAMBDA acc, t : (acc + TermM(c.z[j], t.coef, t.pts, t.rays, PrimeSeq[j])) % PrimeSeq[j], 0, terms)
Judge(c, a, run) ==
  IF run.why # "" THEN run.why
  ELSE IF run.got
  THEN IF \A j \in DOMAIN PrimeSeq : ValueM(c, run.terms, j) = a.val[j] THEN "" ELSE "wrong generating function"
  ELSE IF run.must /\ run.rc = "crash" THEN "the program crashed"
  ELSE IF run.must /\ run.rc = "timeout" THEN "no answer in time"
  ELSE IF run.must /\ (a.count > 1 \/ c.recs # <<>>) THEN "no generating function"
  ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
