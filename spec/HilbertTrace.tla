---------------------------- MODULE HilbertTrace ----------------------------
(* Judges the vectors hilbert-from-rays writes for a cone: they lie in the   *)
(* cone, and together with the given rays they generate its integer points.  *)
EXTENDS LattTraceFile, LattRays
VARIABLES case, pos, abs, status
P(c) ==
  LET f == TLCEval(Frame(c.rays, c.n))
      Rs == TLCEval([i \in DOMAIN c.rays |-> Coordinates(c.rays[i], f.I)])
      F == TLCEval(ConeFacets(Rs, f.d))
  IN [f |-> f, F |-> F,
      X |-> IF ZonotopeSize(c.rays, f.I) <= c.budget THEN TLCEval(Zonotope(c.rays, f, F, c.n)) ELSE {}]
Judge(c, a, ev) ==
  IF ev.rc # "ok" THEN (IF ev.must THEN "no vectors are written" ELSE "")
  ELSE IF ev.bad # "" THEN ev.bad
  ELSE LET H == {ev.hil[i] : i \in DOMAIN ev.hil}
       IN IF \E h \in H : ~InCone(c.rays, a.f, a.F, h) THEN "a vector is not in the cone"
          ELSE LET N == NotGenerated(a.X, H \cup ToSet(c.rays), a.f, a.F)
               IN IF N # {} THEN "not generated: " \o ToString(CHOOSE x \in N : TRUE) ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
