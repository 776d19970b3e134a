--------------------------- MODULE LattSimplicial ---------------------------
(* Simplicial cones with given primitive rays and apex, described by their   *)
(* facets; the integer points are those of the half-open parallelepiped plus *)
(* nonnegative combinations of the rays.                                     *)
EXTENDS LattCone, LattBuild
CONSTANTS MaxN, MaxDet
VARIABLES inst, fuel
svars == <<dim, rows, lin, pts, ops, inst, fuel>>
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
FacetRow(Rs, num, den, k) ==
  LET d == Det(Rs)
      f(x) == Sgn(d) * Coords(Rs, x)[k]
      n == Len(Rs)
      a == TLCEval([i \in 1..n |-> f([j \in 1..n |-> IF j = i THEN 1 ELSE 0])])
  IN Primitive(<<-Dot(a, num)>> \o ScaleV(den, a))
Rows(Rs, num, den) == [k \in DOMAIN Rs |-> FacetRow(Rs, num, den, k)]
SInit == Init /\ inst = <<>> /\ fuel = 1
(* homogeneous: the cone over a simplex of integer vertices (last coordinate 1) *)
SNext ==
  /\ fuel = 1 /\ fuel' = 0 /\ UNCHANGED vars
  /\ \E n \in {R(1..MaxN)} : \E w \in {IF n <= 2 THEN 7 ELSE IF n = 3 THEN 4 ELSE 2} :
     \E M \in {[i \in 1..n |-> Vec(n, -w..w)]}, num \in {Vec(n, -5..5)}, den \in {R({1, 1, 2, 3})} :
       /\ \A i \in 1..n : GcdSeq(M[i]) > 0
       /\ LET Rs == [i \in 1..n |-> Primitive(M[i])]
          IN /\ Det(Rs) # 0 /\ Abs(Det(Rs)) <= MaxDet
             /\ inst' = [n |-> n, rows |-> Rows(Rs, num, den), recs |-> Rs, num |-> num, den |-> den,
                         pts |-> ParallelepipedPoints(Rs, num, den), det |-> Abs(Det(Rs))]
             /\ PrintT("CASE " \o ToJson(inst'))
SSpec == SInit /\ [][SNext]_svars
(* the parallelepiped has det-many points, pairwise incongruent, all inside *)
PointsOfParallelepiped ==
  inst # <<>> =>
    /\ Cardinality(inst.pts) = inst.det
    /\ \A x \in inst.pts : Sat(inst.rows, {}, x)
    /\ \A x, y \in inst.pts : x # y => ~Congruent(inst.recs, x, y)
=============================================================================
