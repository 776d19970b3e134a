---------------------------- MODULE LattObjective ----------------------------
(* Random objectives for polyhedra of dimension n (tlc -simulate): degenerate *)
(* ones (zero, unit vectors, a row of the polyhedron), small and large.       *)
(*   kind "row": the normal of the row with index pick (modulo the rows)      *)
EXTENDS LattArith, Json
CONSTANTS MaxN
VARIABLES inst, fuel
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
JInit == inst = <<>> /\ fuel = 1
JNext ==
  /\ fuel = 1 /\ fuel' = 0
  /\ \E n \in {R(1..MaxN)}, k \in {R(1..12)}, pick \in {R(1..60)}, s \in {R({-1, 1})} :
     \E c \in {CASE k = 1 -> [i \in 1..n |-> 0]
                 [] k <= 3 -> [i \in 1..n |-> IF i = 1 + (pick % n) THEN s ELSE 0]
                 [] k <= 5 -> Vec(n, -1..1)
                 [] k <= 9 -> Vec(n, -7..7)
                 [] OTHER -> Vec(n, -99..99)} :
       inst' = [n |-> n, kind |-> IF k \in {6, 7} THEN "row" ELSE "vec", pick |-> pick, sign |-> s, cost |-> c]
  /\ PrintT("CASE " \o ToJson(inst'))
JSpec == JInit /\ [][JNext]_<<inst, fuel>>
=============================================================================
