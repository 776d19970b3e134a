----------------------------- MODULE LattPlacing -----------------------------
(* The placing triangulation as a machine: rays are placed in any order.     *)
(* Checked exhaustively on small cones: the simplices have disjoint          *)
(* interiors, cover exactly the cone of the placed rays, and the volume of   *)
(* the whole does not depend on the order.                                   *)
EXTENDS LattRays
CONSTANTS D, NumRays, K
VARIABLES Rs, T, placed
pvars == <<Rs, T, placed>>
Vecs == {x \in [1..D -> -K..K] : x[D] = 1} \cup {x \in [1..D -> -K..K] : x[D] = 2 /\ x[1] = 1}
PInit ==
  /\ \E m \in D..NumRays : Rs \in [1..m -> Vecs]
  /\ \A i, j \in DOMAIN Rs : i < j => Rs[i] # Rs[j]
  /\ Det([i \in 1..D |-> Rs[i]]) # 0
  /\ placed = 1..D /\ T = {1..D}
PNext == \E r \in DOMAIN Rs \ placed : placed' = placed \cup {r} /\ T' = PlaceOne(Rs, T, r) /\ UNCHANGED Rs
PSpec == PInit /\ [][PNext]_pvars
Sub == Pick(Rs, placed)
Test == {x \in [1..D -> (-3 * K)..(3 * K)] : x[D] \in {2, 3}}
CoversOnce ==
  LET F == TLCEval(ConeFacets(Sub, D))
  IN \A x \in Test :
       LET w == TLCEval([S \in T |-> Where(Pick(Rs, S), x)])
           c == Cardinality({S \in T : w[S] = 1})
       IN /\ c <= 1
          /\ (WhereF(F, x) = -1 => \A S \in T : w[S] = -1)
          /\ (WhereF(F, x) >= 0 => \E S \in T : w[S] >= 0)
          /\ (c = 1 => Cardinality({S \in T : w[S] >= 0}) = 1)
OrderIrrelevant ==
  placed = DOMAIN Rs =>
    LET g == [i \in 1..D |-> IF i = D THEN 1 ELSE 0]
    IN VolM(Rs, T, g, 46337) = VolM(Rs, Placing(Rs, [i \in 1..D |-> i]), g, 46337)
(* the interior of a cone generated as in the trace specifications *)
HilbertIsEnough ==    \* D = 2: the irreducible points generate (checked in a larger box)
  placed = DOMAIN Rs /\ D = 2 =>
    LET f == [d |-> 2, B |-> <<1, 2>>, I |-> <<1, 2>>]
        F == ConeFacets(Rs, 2)
        X == Zonotope(Rs, f, F, 2)
        H == {x \in X : \A y \in X \ {x} : WhereF(F, SubV(x, y)) < 0}
        Y == {y \in [1..2 -> -8..8] : WhereF(F, y) >= 0 /\ y # <<0, 0>>}
    IN NotGenerated(X, H, f, F) = {} /\ NotGenerated(Y, H, f, F) = {}
=============================================================================
