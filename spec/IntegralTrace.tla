---------------------------- MODULE IntegralTrace ----------------------------
(* Judges volumes and integrals.  A case: n, rows, verts (given, or <<>>:     *)
(* computed from the rows), scale (the polytope used is the one of the rows   *)
(* dilated by a number with these residues, then shifted and sheared by tail),*)
(* and runs [rc, must, terms (<<>>: the volume), answers]; a term has the     *)
(* residues of its coefficient, the coefficients of its forms, the powers.    *)
(* An answer is [num, den], residues of numerator and denominator.            *)
EXTENDS LattTraceFile, LattIntegral
VARIABLES case, pos, abs, status

TailOp(x, t, j, p) ==       \* a step of the tail on a point modulo p
  IF t.op = "shear" THEN [x EXCEPT ![t.i] = (@ + t.k[j] * x[t.j]) % p]
  ELSE [x EXCEPT ![t.i] = (@ + t.k[j]) % p]
MoveM(x, c, j, p) ==
  FoldLeft(LAMBDA y, t : TailOp(y, t, j, p), [i \in DOMAIN x |-> MulM(x[i], c.scale[j], p)], c.tail)
P(c) ==
  LET V == TLCEval(IF c.verts # <<>> THEN c.verts ELSE SetToSeq(Vertices(c.rows, {})))
      simp == TLCEval(SetToSeq(Simplices(c.rows, V)))
      prime(j) ==
        LET p == PrimeSeq[j] M == PointsM(V, p)
        IN [pts |-> TLCEval([i \in DOMAIN V |-> MoveM(M[i], c, j, p)]),
            w |-> TLCEval([k \in DOMAIN simp |-> IF Cardinality(simp[k]) # c.n + 1 THEN 0 ELSE MulM(PowM(c.scale[j], c.n, p), WeightM(V, simp[k], p), p)])]
  IN [full |-> simp # <<>> /\ \A k \in DOMAIN simp : Cardinality(simp[k]) = c.n + 1,       \* the others are out of scope
      simp |-> simp, mod |-> TLCEval([j \in DOMAIN PrimeSeq |-> prime(j)])]
Value(c, a, terms, j) ==
  LET p == PrimeSeq[j]
      ts == [i \in DOMAIN terms |-> [coef |-> terms[i].coef[j], forms |-> terms[i].forms, pows |-> terms[i].pows]]
  IN IF terms = <<>> THEN VolumeM(c.n, a.mod[j].w, p)
     ELSE IntegralM(ts, c.n, a.mod[j].pts, a.simp, a.mod[j].w, p)
Is(answer, v) == \A j \in DOMAIN PrimeSeq : answer.den[j] # 0 /\ MulM(answer.den[j], v[j], PrimeSeq[j]) = answer.num[j]
Judge(c, a, run) ==
  IF ~a.full THEN "" ELSE IF run.answers = <<>> THEN (IF run.must THEN "no answer (" \o run.rc \o ")" ELSE "")
  ELSE LET v == TLCEval([j \in DOMAIN PrimeSeq |-> Value(c, a, run.terms, j)])
       IN IF \E i \in DOMAIN run.answers : ~Is(run.answers[i], v) THEN "a wrong value"
          ELSE IF run.rc # "ok" /\ run.must THEN "the program failed (" \o run.rc \o ")" ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
