--------------------------- MODULE LattOptimiseMC ---------------------------
(* The two algorithms on the specification itself (TLC).                      *)
(*   Digging: the generating function of a polytope is a signed sum of        *)
(*     unimodular cones; expanded in the direction in which the objective     *)
(*     decreases, the first objective value whose coefficients do not cancel  *)
(*     is the optimum and the sum of the coefficients the number of optima.   *)
(*   Bisection: with the numbers of points with value >= k as oracle, the     *)
(*     interval [low, high) always contains the optimum and shrinks to it.    *)
EXTENDS LattOptimise, LattBuild
VARIABLES inst, level, low, high, phase
ovars == <<dim, rows, lin, pts, ops, inst, level, low, high, phase>>
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
(* polytopes with unimodular vertex cones: boxes and simplices, sheared       *)
Corner(n, bs) == [v |-> [i \in 1..n |-> IF i \in bs[2] THEN bs[1][2][i] ELSE bs[1][1][i]],
                 rays |-> [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN 0 ELSE IF i \in bs[2] THEN -1 ELSE 1]]]
BoxCones(lo, hi) == {Corner(Len(lo), <<<<lo, hi>>, S>>) : S \in SUBSET (1..Len(lo))}
Unit(n, i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
SimplexCones(n, k) ==
  {[v |-> [i \in 1..n |-> 0], rays |-> [i \in 1..n |-> Unit(n, i)]]}
  \cup {[v |-> ScaleV(k, Unit(n, q)),
         rays |-> [i \in 1..n |-> IF i = q THEN NegV(Unit(n, q)) ELSE SubV(Unit(n, i), Unit(n, q))]] : q \in 1..n}
Sheared(x, i, j, f) == [x EXCEPT ![j] = @ + f * x[i]]
ShearCone(c, i, j, f) == [v |-> Sheared(c.v, i, j, f), rays |-> [q \in DOMAIN c.rays |-> Sheared(c.rays[q], i, j, f)]]
OInit == Init /\ inst = <<>> /\ level = 0 /\ low = 0 /\ high = 0 /\ phase = "new"
Start ==
  /\ phase = "new"
  /\ \E n \in {R(1..3)}, lo \in {Vec(3, -3..1)}, w \in {Vec(3, 0..3)}, k \in {R(0..4)}, f \in {R(-2..2)}, box \in {R(BOOLEAN)},
        cost \in {Vec(3, -4..4)}, slack \in {Vec(2, 0..3)} :
     \E i \in {R(1..n)}, j \in {R(1..n)} :
     \E c \in {IF box THEN BoxCones(SubSeq(lo, 1, n), AddV(SubSeq(lo, 1, n), SubSeq(w, 1, n))) ELSE SimplexCones(n, k)},
        P \in {IF box THEN Box(SubSeq(lo, 1, n), AddV(SubSeq(lo, 1, n), SubSeq(w, 1, n)))
               ELSE {x \in Box([q \in 1..n |-> 0], [q \in 1..n |-> k]) : Sum(x) <= k}} :
       LET sh == i # j
           cones == IF sh THEN {ShearCone(q, i, j, f) : q \in c} ELSE c
           points == IF sh THEN {Sheared(x, i, j, f) : x \in P} ELSE P
           cc == SubSeq(cost, 1, n)
       IN /\ \A q \in cones : \A r \in DOMAIN q.rays : Dot(cc, q.rays[r]) # 0
          /\ Cardinality(cones) = Cardinality({q.v : q \in cones})
          /\ inst' = [n |-> n, cones |-> cones, points |-> points, cost |-> cc, slack |-> slack]
          /\ level' = Max({Dot(cc, q.v) : q \in cones})
          /\ phase' = "dig" /\ low' = 0 /\ high' = 0
  /\ UNCHANGED vars
(* coefficient of objective value t in the expansion of one cone              *)
RECURSIVE Ways(_, _)
Ways(s, d) == IF d < 0 THEN 0 ELSE IF s = <<>> THEN (IF d = 0 THEN 1 ELSE 0)
              ELSE Ways(Tail(s), d) + Ways(s, d - s[1])
Turned(c, cost) ==      \* rays turned so that the objective decreases
  LET up == {i \in DOMAIN c.rays : Dot(cost, c.rays[i]) > 0}
  IN [sign |-> IF Cardinality(up) % 2 = 0 THEN 1 ELSE -1,
      top |-> Dot(cost, c.v) - FoldSet(LAMBDA i, a : a + Dot(cost, c.rays[i]), 0, up),
      steps |-> [i \in DOMAIN c.rays |-> Abs(Dot(cost, c.rays[i]))]]
CoefAt(t) == FoldSet(LAMBDA c, acc : LET q == Turned(c, inst.cost) IN acc + q.sign * Ways(q.steps, q.top - t), 0, inst.cones)
Opt == OptimumOf(inst.points, inst.cost)
Dig ==
  /\ phase = "dig"
  /\ IF CoefAt(level) = 0 THEN level' = level - 1 /\ UNCHANGED <<low, high, phase>>
     ELSE /\ phase' = "bisect" /\ UNCHANGED level
          /\ high' = Opt[2] + inst.slack[1] + 1       \* the bound of the relaxation, rounded up, plus one
          /\ low' = Min({Dot(inst.cost, x) : x \in inst.points}) - inst.slack[2]
  /\ UNCHANGED <<dim, rows, lin, pts, ops, inst>>
AtLeast(k) == Cardinality({x \in inst.points : Dot(inst.cost, x) >= k})
Bisect ==
  /\ phase = "bisect"
  /\ IF high - low = 1 THEN phase' = "done" /\ UNCHANGED <<low, high>>
     ELSE /\ IF AtLeast((low + high) \div 2) > 0 THEN low' = (low + high) \div 2 /\ UNCHANGED high
             ELSE high' = (low + high) \div 2 /\ UNCHANGED low
          /\ UNCHANGED phase
  /\ UNCHANGED <<dim, rows, lin, pts, ops, inst, level>>
ONext == Start \/ Dig \/ Bisect
OSpec == OInit /\ [][ONext]_ovars
DigFinds ==
  /\ phase = "dig" => level >= Opt[2]
  /\ phase \in {"bisect", "done"} => level = Opt[2] /\ CoefAt(level) = Opt[1]
BisectBrackets ==
  /\ phase \in {"bisect", "done"} => low <= Opt[2] /\ Opt[2] < high
  /\ phase = "done" => low = Opt[2] /\ AtLeast(low) = Opt[1]
SlicesAgree ==       \* the slice-wise search agrees with the definition
  phase = "done" =>
    LET b == Box([i \in 1..inst.n |-> -2], [i \in 1..inst.n |-> 3])
        r == <<<<5>> \o [i \in 1..inst.n |-> -i]>>
    IN Optimum(r, {}, inst.cost, [i \in 1..inst.n |-> -2], [i \in 1..inst.n |-> 3])
         = OptimumOf({x \in b : Sat(r, {}, x)}, inst.cost)
=============================================================================
