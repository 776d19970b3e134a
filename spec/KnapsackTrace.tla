--------------------------- MODULE KnapsackTrace ---------------------------
(* Judges the coefficient functions printed by top-ehrhart-knapsack.  A case:  *)
(* a (the list), L; runs: coefs = list of [i, vals] with vals a list of        *)
(* [r (t modulo L), v (residues)], want (the indices i asked for), poly = list *)
(* of [r, t (residues), v].                                                    *)
EXTENDS LattTraceFile, LattKnapsack
VARIABLES case, pos, abs, status
P(c) == LET tabs == TLCEval([j \in DOMAIN PrimeSeq |-> Table(c.a, Len(c.a) * c.L, PrimeSeq[j])])
        IN IF LcmSeq(c.a) # c.L THEN Assert(FALSE, "period")
           ELSE [co |-> TLCEval([j \in DOMAIN PrimeSeq |-> [r \in 0..(c.L - 1) |-> ClassCoefs(tabs[j], c.a, c.L, r, PrimeSeq[j])]])]
N(c) == Len(c.a)
CoefOK(c, a, f) ==
  \A k \in DOMAIN f.vals : \A j \in DOMAIN PrimeSeq : f.vals[k].v[j] = a.co[j][f.vals[k].r][N(c) - f.i]
PolyOK(c, a, run) ==
  \A k \in DOMAIN run.poly : \A j \in DOMAIN PrimeSeq :
    LET q == run.poly[k]
    IN q.v[j] = SumM([m \in DOMAIN run.want |-> MulM(a.co[j][q.r][N(c) - run.want[m]], PowM(q.t[j], N(c) - 1 - run.want[m], PrimeSeq[j]), PrimeSeq[j])], PrimeSeq[j])
Judge(c, a, run) ==
  IF run.rc = "crash" /\ run.must THEN "the program crashed"
  ELSE IF run.rc = "timeout" /\ run.must THEN "no answer in time"
  ELSE IF ~run.got THEN IF run.must THEN "no answer" ELSE ""
  ELSE IF run.why # "" THEN run.why
  ELSE IF [m \in DOMAIN run.coefs |-> run.coefs[m].i] # run.want THEN "not the coefficients asked for"
  ELSE IF \E m \in DOMAIN run.coefs : ~CoefOK(c, a, run.coefs[m])
       THEN "wrong coefficient"
  ELSE IF ~PolyOK(c, a, run) THEN "wrong polynomial"
  ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
