---------------------------- MODULE LattAggregate ----------------------------
(* Aggregation of equations (Kannan): rows with nonnegative coefficients over *)
(* nonnegative variables are replaced by one equation, inequalities get a     *)
(* slack.  The integer points stay the same (each extends in one way).        *)
(* rows are <<b, -a1, .., -an>> meaning b - a.x >= 0 (or = 0 for lin);        *)
(* variables are nonnegative; agg are the rows to be aggregated.              *)
EXTENDS LattGeom, TLC, Json
CONSTANTS MaxN, MaxM, MaxA, MaxB
VARIABLES n, rows, lin, agg, extra, step
avars == <<n, rows, lin, agg, extra, step>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Lambda == LET A == MaxOf({1} \cup {-rows[i][j] : i \in agg, j \in 2..(n + 1)})
              b == MaxOf({1} \cup {rows[i][1] : i \in agg})
          IN 3 * Cardinality(agg) * n * A * b
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
AggSeq == SetToSeq(agg)
Slacks == SetToSeq(agg \ lin)
Mult(k) == Pow(Lambda, Cardinality(agg) + 1) + Pow(Lambda, k)
(* the aggregated equation in the variables and the slacks: left side 0 *)
Value(x, s) ==
  LET R[k \in 0..Len(AggSeq)] ==
        IF k = 0 THEN 0
        ELSE LET i == AggSeq[k]
                 sl == IF i \in lin THEN 0 ELSE s[CHOOSE q \in DOMAIN Slacks : Slacks[q] = i]
             IN R[k - 1] + Mult(k) * (Val(rows[i], x) - sl)
  IN R[Len(AggSeq)]
Ok(i, x) == IF i \in lin THEN Val(rows[i], x) = 0 ELSE Val(rows[i], x) >= 0
Bound == MaxB
Xs == [1..n -> 0..Bound]
Kept == step = 1 /\ agg # {} =>
  /\ \A x \in Xs : (\A i \in agg : Ok(i, x)) => Value(x, [q \in DOMAIN Slacks |-> Val(rows[Slacks[q]], x)]) = 0
  /\ \A x \in Xs, s \in [DOMAIN Slacks -> 0..Bound] :
        Value(x, s) = 0 => /\ \A i \in agg : Ok(i, x)
                           /\ \A q \in DOMAIN Slacks : s[q] = Val(rows[Slacks[q]], x)
Init0 == n \in 1..MaxN /\ rows = <<>> /\ lin = {} /\ agg = {} /\ extra = <<>> /\ step = 0
Next0 == /\ step = 0 /\ step' = 1 /\ UNCHANGED <<n, extra>>
         /\ \E m \in 1..MaxM : /\ \E b \in [1..m -> 0..MaxB], a \in [1..m -> [1..n -> 0..MaxA]] : rows' = [i \in 1..m |-> <<b[i]>> \o NegV(a[i])]
                               /\ lin' \in SUBSET (1..m) /\ agg' = 1..m
Spec0 == Init0 /\ [][Next0]_avars

(* ------------------------------- generation ------------------------------- *)
R(S) == RandomElement(S)
Pts(rs, ls, hi) == {x \in [1..n -> 0..hi] : \A i \in DOMAIN rs : IF i \in ls THEN Val(rs[i], x) = 0 ELSE Val(rs[i], x) >= 0}
GNext0 ==
  /\ step = 0 /\ step' = 1 /\ UNCHANGED n
  /\ \E m \in {R(1..MaxM)}, top \in {R(0..MaxB)} :
       \E rs \in {[i \in 1..m |-> TLCEval(<<R(0..top)>> \o [j \in 1..n |-> -R({0, 1, 1, 2} \cup {R(0..MaxA)})])]},
          h \in {R(1..5)}, ls \in {{i \in 1..m : R(BOOLEAN)}}, ag \in {{i \in 1..m : R({TRUE, TRUE, FALSE})}},
          cut \in {[j \in 1..n |-> R({-1, 0, 1})]}, c \in {R(BOOLEAN)}, e \in {R(-1..3)} :
         LET ub == [j \in 1..n |-> <<h>> \o [k \in 1..n |-> IF k = j THEN -1 ELSE 0]]
             all == rs \o ub \o (IF c THEN << <<e>> \o cut >> ELSE <<>>)
             a2 == IF ag = {} THEN {1} ELSE ag
         IN /\ rows' = all /\ lin' = ls /\ agg' = a2 /\ extra' = <<>>
            /\ PrintT("CASE " \o ToJson([n |-> n, rows |-> all, lin |-> SetToSeq(ls), agg |-> SetToSeq(a2), pts |-> Pts(all, ls, h)]))
GSpec0 == Init0 /\ [][GNext0]_avars
=============================================================================
