---------------------------- MODULE EhrhartTrace ----------------------------
(* Judges Ehrhart polynomials, series and Taylor coefficients of count.       *)
(* A case: n, rows, lin, d >= dimension, q, lo, hi (box), verts ([num, den]   *)
(* list or <<>> when the family guarantees q), runs.                          *)
EXTENDS LattTraceFile, LattEhrhart
VARIABLES case, pos, abs, status

LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}
VertsOK(c) ==
  \A i \in DOMAIN c.verts : /\ c.q % c.verts[i][2] = 0
                            /\ SatQ(c.rows, LinSet(c), c.verts[i])
P(c) ==
  IF ~VertsOK(c) THEN Assert(FALSE, <<"the vertices are not those of the case", c.id>>)
  ELSE [L |-> TLCEval(LTable(c.rows, LinSet(c), c.lo, c.hi, c.d, c.q))]

CoefM(q, j) == DivM(q[1][j], q[2][j], PrimeSeq[j])      \* numerator, denominator residues
PolyOK(c, a, poly) ==
  /\ Len(poly) <= c.d + 1
  /\ \A j \in DOMAIN PrimeSeq :
       LET cs == TLCEval([i \in DOMAIN poly |-> CoefM(poly[i], j)])
       IN \A n \in 0..c.d : EvalPolyM(cs, n, PrimeSeq[j]) = a.L[n + 1] % PrimeSeq[j]
TaylorOK(c, a, run) ==
  /\ \A i \in DOMAIN run.terms : run.terms[i].e <= run.N
  /\ \A i, k \in DOMAIN run.terms : i # k => run.terms[i].e # run.terms[k].e
  /\ \A n \in (IF run.N = 1 THEN 1 ELSE 0)..run.N :       \* for N = 1 only the count is printed
       LET is == {i \in DOMAIN run.terms : run.terms[i].e = n}
       IN \A j \in DOMAIN PrimeSeq :
            LAtM(a.L, c.d, c.q, n, PrimeSeq[j]) = (IF is = {} THEN 0 ELSE run.terms[CHOOSE i \in is : TRUE].c[j])
SeriesOK(c, a, run) ==
  \A j \in DOMAIN PrimeSeq :
    RunM(run.prog, run.ts[j], j) = SeriesAtM(a.L, c.d, c.q, run.ts[j], PrimeSeq[j])

(* for a single point the programs only print the count *)
Judge(c, a, run) ==
  LET must == run.must /\ \E k \in DOMAIN a.L : a.L[k] > 1
  IN
  IF run.why # "" THEN run.why
  ELSE IF must /\ run.rc = "crash" THEN "the program crashed"
  ELSE IF must /\ run.rc = "timeout" THEN "no answer in time"
  ELSE IF must /\ ~run.got THEN "no answer"
  ELSE IF ~run.got THEN ""
  ELSE CASE run.kind = "poly" -> IF c.q # 1 THEN "a polynomial for a rational polytope"
                                 ELSE IF PolyOK(c, a, run.poly) THEN "" ELSE "wrong Ehrhart polynomial"
         [] run.kind = "taylor" -> IF TaylorOK(c, a, run) THEN "" ELSE "wrong Taylor coefficients"
         [] run.kind = "series" -> IF SeriesOK(c, a, run) THEN "" ELSE "wrong Ehrhart series"
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
