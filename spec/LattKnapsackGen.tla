-------------------------- MODULE LattKnapsackGen --------------------------
(* Random knapsack lists and command lines (tlc -simulate).                   *)
EXTENDS LattKnapsack, Json
CONSTANTS MaxLen, MaxLcm
VARIABLES inst, fuel
R(S) == RandomElement(S)
Parts == 1..12 \cup {14, 15, 16, 18, 20, 21, 24, 30, 35, 36, 40, 42, 45, 60, 72, 84, 90, 97, 105, 113, 120}
RECURSIVE Draw(_, _, _)
Draw(a, n, pool) ==
  IF n = 0 THEN a
  ELSE CHOOSE b \in {Draw(Append(a, k), n - 1, pool) : k \in {R({j \in pool : LcmSeq(Append(a, j)) <= MaxLcm} \cup {1})}} : TRUE
Multiples(g) == {k \in Parts : k % g = 0}
Pool(i) == IF i = 1 THEN Parts
           ELSE IF i = 2 THEN Multiples(2) \cup Multiples(3)
           ELSE IF i = 3 THEN Multiples(R({4, 5, 6, 7})) \cup {1, 2, 3}
           ELSE IF i = 4 THEN {k \in Parts : 60 % k = 0 \/ 72 % k = 0}
           ELSE {R(Parts), R(Parts), R(1..6)}
GInit == inst = <<>> /\ fuel = 1
GNext ==
  /\ fuel = 1 /\ fuel' = 0
  /\ \E n \in {R({1, 2, 3, 3, 4, 4, 5, 6})}, i \in {R(1..5)}, seed \in {R({0, 1, 7, 654354, 99999})} :
     \E pool \in {Pool(i)} :
     \E a \in {Draw(<<>>, n, pool)} :
       \E runs \in {[j \in 1..3 |-> [k |-> R(1..Len(a)), all |-> j = 1 \/ R(1..2) = 1, gcd |-> j % 2, rnd |-> IF j = 2 THEN seed ELSE 0 - 2, out |-> R(1..3) = 1, long |-> R(1..2) = 1]]} :
       inst' = [a |-> a, L |-> LcmSeq(a), gcd |-> GcdSeq(a), runs |-> [runs EXCEPT ![1].k = IF R(1..2) = 1 THEN Len(a) ELSE @]]
  /\ PrintT("CASE " \o ToJson(inst'))
GSpec == GInit /\ [][GNext]_<<inst, fuel>>
=============================================================================
