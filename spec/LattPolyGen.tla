------------------------------ MODULE LattPolyGen ------------------------------
(* Builds polynomials term by term (tlc -simulate): new terms, terms again    *)
(* with another coefficient, terms that cancel an earlier one, whole grids of *)
(* exponents; then a simplex and a window of degrees to go with them.         *)
EXTENDS LattGeom, Json
CONSTANTS MaxN, Kinds, MaxGrow
VARIABLES inst, fuel
R(S) == RandomElement(S)
UnitVec(n, i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
Units(n) == [i \in 1..n |-> UnitVec(n, i)]
Vec(n, S) == [i \in 1..n |-> R(S)]
Top(n) == IF n = 1 THEN 14 ELSE IF n = 2 THEN 8 ELSE IF n = 3 THEN 6 ELSE 4
RECURSIVE Spread(_, _)
Spread(n, d) == IF d = 0 THEN [i \in 1..n |-> 0]
                ELSE CHOOSE u \in {[v EXCEPT ![k] = @ + 1] : v \in {Spread(n, d - 1)}, k \in {R(1..n)}} : TRUE
Num(x) == IF R(1..8) = 1 THEN R(-1000..1000) ELSE R({-5, -3, -2, -1, 0, 1, 2, 3, 7})
Den(x) == IF R(1..2) = 1 THEN 1 ELSE R({2, 3, 10})
LinForm(n) == CHOOSE f \in {IF k = 1 THEN UnitVec(n, i) ELSE IF k <= 4 THEN Vec(n, -2..2) ELSE Vec(n, -40..40)
                             : k \in {R(1..6)}, i \in {R(1..n)}} : TRUE
New(n, kind) ==
  IF kind = "mono" THEN [num |-> Num(n), den |-> Den(n), forms |-> Units(n), pows |-> Spread(n, R(0..Top(n)))]
  ELSE IF kind = "lin" THEN [num |-> Num(n), den |-> Den(n), forms |-> <<LinForm(n)>>, pows |-> <<R({0, 1, 2, 3, 4, 5, 8, 12, 13, 14, 17, 21})>>]
  ELSE [num |-> Num(n), den |-> Den(n), forms |-> [i \in 1..3 |-> LinForm(n)], pows |-> [i \in 1..3 |-> R(0..3)]]
Again(t) == [t EXCEPT !.num = Num(t), !.den = Den(t)]
Cancel(t) == [t EXCEPT !.num = -@]
(* all exponents of a box: more terms than fit in a block or container *)
RECURSIVE Boxed(_, _)
Boxed(n, k) == IF n = 0 THEN <<<<>>>> ELSE FlattenSeq([j \in 1..(k + 1) |-> [i \in DOMAIN Boxed(n - 1, k) |-> Append(Boxed(n - 1, k)[i], j - 1)]])
Grid(n, kind) ==
  LET k == IF n = 1 THEN 14 ELSE IF n = 2 THEN R({2, 8}) ELSE IF n = 3 THEN R({1, 3, 4}) ELSE 1
      es == TLCEval(Boxed(n, k))
  IN [i \in DOMAIN es |-> IF kind = "mono" THEN [num |-> ((i * i) % 11) - 5, den |-> 1 + (i % 3), forms |-> Units(n), pows |-> es[i]]
                          ELSE [num |-> ((i * i) % 11) - 5, den |-> 1, forms |-> <<es[i]>>, pows |-> <<i % 4>>]]
PInit == inst = [n |-> 0] /\ fuel = MaxGrow
Start ==
  /\ inst.n = 0 /\ UNCHANGED fuel
  /\ \E n \in {R(1..MaxN)}, kind \in {R(Kinds)} :
       inst' = [n |-> n, kind |-> kind, left |-> <<New(n, kind)>>, right |-> <<New(n, kind)>>]
Grow ==
  /\ inst.n > 0 /\ fuel > 0 /\ fuel' = fuel - 1
  /\ \E side \in {R({"left", "left", "right"})} :
       LET p == inst[side]
       IN \E op \in {R(1..9)}, i \in {R(DOMAIN p)} :
          inst' = [inst EXCEPT ![side] =
             IF op <= 4 THEN Append(@, New(inst.n, inst.kind))
             ELSE IF op <= 6 THEN Append(@, Again(p[i]))
             ELSE IF op <= 8 THEN Append(@, Cancel(p[i]))
             ELSE IF inst.kind = "prod" \/ Len(p) > 40 \/ side = "right" THEN @ ELSE @ \o Grid(inst.n, inst.kind)]
Stop ==
  /\ inst.n > 0 /\ fuel >= 0 /\ (fuel = 0 \/ R(1..3) = 1) /\ fuel' = -1
  /\ \E s \in {[i \in 1..(inst.n + 1) |-> Vec(inst.n, IF R(1..3) = 1 THEN -30..30 ELSE -3..3)]},
        k \in {R(1..8)}, lo \in {Vec(inst.n, 0..2)}, w \in {Vec(inst.n, 0..4)} :
       inst' = inst @@ [simplex |-> s, det |-> Det([i \in DOMAIN s |-> <<1>> \o s[i]]),
                        low |-> lo, high |-> [i \in 1..inst.n |-> lo[i] + w[i]]]
  /\ PrintT("CASE " \o ToJson(inst'))
PNext == Start \/ Grow \/ Stop
PSpec == PInit /\ [][PNext]_<<inst, fuel>>
================================================================================
