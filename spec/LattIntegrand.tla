---------------------------- MODULE LattIntegrand ----------------------------
(* Random integrands in the three input languages (tlc -simulate): sums of    *)
(* rational multiples of monomials ("mono"), of powers of linear forms        *)
(* ("lin"), of products of such powers ("prod").                              *)
(* A term is [num, den, forms, pows].                                         *)
EXTENDS LattArith, Json
CONSTANTS MaxN, MaxDeg, Kinds
VARIABLES inst, fuel
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
UnitVec(n, i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
RECURSIVE Spread(_, _)          \* d spread over n places at random
Spread(n, d) == IF d = 0 THEN [i \in 1..n |-> 0]
                ELSE CHOOSE u \in {[v EXCEPT ![k] = @ + 1] : v \in {Spread(n, d - 1)}, k \in {R(1..n)}} : TRUE
(* small entries make forms that are constant along edges of the polytope     *)
Form(n) == CHOOSE f \in {IF k = 1 THEN CHOOSE u \in {UnitVec(n, i) : i \in {R(1..n)}} : TRUE
                          ELSE IF k <= 4 THEN Vec(n, -1..1) ELSE IF k = 5 THEN Vec(n, -9..9) ELSE Vec(n, -60..60)
                          : k \in {R(1..6)}} : TRUE
Rational(num, den, forms, pows) == [num |-> num, den |-> den, forms |-> forms, pows |-> pows]
Num(d) == IF R(1..8) = 1 THEN R(-1000..1000) ELSE R({-5, -3, -2, -1, 0, 1, 2, 3, 7})
Den(d) == IF R(1..2) = 1 THEN 1 ELSE R({2, 3, 10})
Mono(n, d) == LET e == Spread(n, d) IN Rational(Num(d), Den(d), [i \in 1..n |-> UnitVec(n, i)], e)
Lin(n, d) == Rational(Num(d), Den(d), <<Form(n)>>, <<d>>)
ProdK(n, d, k) == Rational(Num(d), Den(d), [i \in 1..k |-> Form(n)], Spread(k, d))
Prod(n, d) == CHOOSE t \in {ProdK(n, d, k) : k \in {R(1..3)}} : TRUE
IInit == inst = <<>> /\ fuel = 1
INext ==
  /\ fuel = 1 /\ fuel' = 0
  /\ \E n \in {R(1..MaxN)}, kind \in {R(Kinds)}, t \in {R(1..4)} :
     \E ds \in {[i \in 1..t |-> R(0..(IF n >= 4 THEN MaxDeg - 2 ELSE MaxDeg))]} :
     \E terms \in {[i \in 1..t |-> IF kind = "mono" THEN Mono(n, ds[i]) ELSE IF kind = "lin" THEN Lin(n, ds[i]) ELSE Prod(n, ds[i])]} :
       inst' = [n |-> n, kind |-> kind, terms |-> terms]
  /\ PrintT("CASE " \o ToJson(inst'))
ISpec == IInit /\ [][INext]_<<inst, fuel>>
=============================================================================
