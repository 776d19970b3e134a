----------------------------- MODULE ConeTrace -----------------------------
(* Judges the cones produced between the vertex cones of a polyhedron and    *)
(* the cones that are finally specialised.  The coordinates y of the cones   *)
(* are those of x = origin + basis y.  A case: n, pts, recs (the integer     *)
(* points are pts plus nonnegative combinations of recs), z (evaluation      *)
(* points, one per prime), z2 (the same in the coordinates of the run) and   *)
(* runs with vars, origin, maxdet, finals [coef, vertex, den, exact, rays,  *)
(* pts,                                                                    *)
(* group] and starts (vertex cones [vertex, den, rays]).                     *)
EXTENDS LattTraceFile, LattCone
VARIABLES case, pos, abs, status

P(c) == [val |-> TLCEval([j \in DOMAIN PrimeSeq |-> TermM(c.z[j], 1, c.pts, c.recs, PrimeSeq[j])])]
Square(R, n) == Len(R) = n /\ \A i \in DOMAIN R : Len(R[i]) = n
Residue(R, x, d) == [k \in DOMAIN R |-> Coords(R, x)[k] % d]
ConeOK(run, f) ==
  IF ~Square(f.rays, run.vars) THEN "a final cone is not simplicial"
  ELSE LET d == TLCEval(Det(f.rays))
       IN IF d = 0 THEN "a final cone is not full-dimensional"
          ELSE IF run.maxdet > 0 /\ Abs(d) > run.maxdet
          THEN "the index of a final cone is too large"
          ELSE IF Len(f.pts) # Abs(d) THEN "a final cone has the wrong number of points"
          ELSE IF Cardinality({Residue(f.rays, f.pts[i], Abs(d)) : i \in DOMAIN f.pts}) # Abs(d)
          THEN "points of a final cone are congruent"
          ELSE IF f.exact /\ \E i \in DOMAIN f.pts : ~InParallelepiped(f.rays, f.vertex, f.den, f.pts[i])
          THEN "a point lies outside the parallelepiped"
          ELSE ""
ConesOK(run) ==
  FoldLeft(LAMBDA acc, f : IF acc # "" THEN acc ELSE ConeOK(run, f), "", run.finals)
(* sum of the terms of the cones of group g (0: all) *)
TermsM(run, g, z, p) ==
  FoldLeft(LAMBDA acc, f : IF g # 0 /\ f.group # g THEN acc
                           ELSE (acc + TermM(z, f.coef, f.pts, f.rays, p)) % p, 0, run.finals)
SimplicialStart(run, s) == Square(s.rays, run.vars) /\ s.exact /\ Det(s.rays) # 0 /\ Abs(Det(s.rays)) <= 150
StartOK(run, g) ==
  LET s == run.starts[g]
      box == TLCEval(ParallelepipedPoints(s.rays, s.vertex, s.den))
  IN TermsM(run, g, run.z2[1], PrimeSeq[1]) = TermM(run.z2[1], 1, SetToSeq(box), s.rays, PrimeSeq[1])
Volume(s) == FoldLeftDomain(LAMBDA acc, i : acc * (1 + FoldLeft(LAMBDA a, r : a + Abs(r[i]), 0, s.rays)), 1, s.vertex)
Judge(c, a, run) ==
  IF run.rc # "ok" THEN (IF run.must THEN "no decomposition (" \o run.rc \o ")" ELSE "")
  ELSE LET w == ConesOK(run)
       IN IF w # "" THEN w
          ELSE IF \E j \in DOMAIN PrimeSeq :
                    MulM(MonomialM(c.z[j], run.origin, PrimeSeq[j]), TermsM(run, 0, run.z2[j], PrimeSeq[j]), PrimeSeq[j]) # a.val[j]
          THEN "the cones do not sum to the polyhedron"
          ELSE IF run.perVertex
                  /\ \E g \in DOMAIN run.starts : SimplicialStart(run, run.starts[g]) /\ Volume(run.starts[g]) <= 4000 /\ ~StartOK(run, g)
          THEN "the cones of a vertex do not sum to its vertex cone"
          ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
