---------------------------- MODULE LattBuildGen ----------------------------
(* Random behaviours of LattBuild (tlc -simulate -seed S): every completed   *)
(* behaviour prints the description it arrived at and its integer points.    *)
EXTENDS LattBuild
CONSTANTS MaxDim,      \* largest dimension
          Steps,       \* number of operations after the start
          MaxPts,      \* largest number of points carried along
          MaxCoef,     \* largest entry
          Profile      \* "full" | "lowdim" | "empty" | "any"
VARIABLE fuel
gvars == <<dim, rows, lin, pts, ops, fuel>>

(* every random choice is bound by \E x \in {..}, so that it is made once *)
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
StartRandom ==
  \E n \in {R(1..Min2(MaxDim, 4))}, k \in {R(1..10)} :
  \E w \in {IF n <= 2 THEN 6 ELSE IF n = 3 THEN 4 ELSE 2} :
     CASE k <= 3 -> \E lo \in {Vec(n, -3..2)} : \E hi \in {[i \in 1..n |-> lo[i] + R(0..w)]} : StartBox(lo, hi)
       [] k <= 5 -> \E a \in {Vec(n, 1..4)}, b \in {R(0..(2 * w))} : StartSimplex(a, b)
       [] k = 6 -> \E c \in {R(1..(IF n >= 3 THEN 2 ELSE 4))} : StartCross(Min2(n, 3), c)
       [] OTHER -> \E m \in {Min2(n, 3)} :
                   \E u \in {IF m <= 2 THEN 7 ELSE 4} :
                   \E vs \in {[i \in 1..(m + 1) |-> Vec(m, -u..u)]} : StartVertexSimplex(vs)

Home(x) == [i \in DOMAIN x |-> x[i] \div Dil]      \* near the polytope itself
CutRandom ==       \* a half-space through the neighbourhood of a point
  /\ pts # {}
  /\ \E a \in {Vec(dim, -3..3)}, x \in {Home(R(pts))}, d \in {Vec(dim, -1..1)}, e \in {R(0..2)} :
       Cut(<<-Dot(a, AddV(x, d)) + e>> \o a)
EquateRandom(hidden) ==
  /\ pts # {}
  /\ \E a \in {Vec(dim, -3..3)}, x \in {Home(R(pts))}, d \in {Vec(dim, -1..1)}, m \in {R(1..2)} :
     \E c \in {IF Profile = "empty" THEN AddV(x, d) ELSE x} :
     \E r \in {ScaleV(m, <<-Dot(a, c)>> \o a)} :
       /\ \E i \in DOMAIN a : a[i] # 0
       /\ IF hidden THEN EquateHidden(r) ELSE Equate(r)
Gap ==             \* an equation without integer solutions
  \E a \in {Vec(dim, -2..2)}, b \in {2 * R(-2..2) + 1} : Equate(<<b>> \o ScaleV(2, a))
LiftRandom(hidden) ==
  /\ dim < MaxDim
  /\ \E a \in {Vec(dim, -2..2)}, c \in {R(-3..3)}, m \in {R({-3, -2, -1, 1, 2, 3})} : Lift(a, c, m, hidden)
PrismRandom == dim < MaxDim /\ \E lo \in {R(-2..1)}, w \in {R(0..2)} : Prism(lo, lo + w)
ShearRandom ==
  dim > 1 /\ \E i \in {R(1..dim)} : \E j \in {R((1..dim) \ {i})}, k \in {R({-3, -2, -1, 1, 2, 3})} : Shear(i, j, k)
SwapRandom == dim > 1 /\ \E i \in {R(1..dim)} : \E j \in {R((1..dim) \ {i})} : Swap(i, j)
Row == R(DOMAIN rows)

StepRandom ==
  \E k \in {R(1..30)} :
     CASE k <= 6 -> CutRandom
       [] k <= 12 -> ShearRandom
       [] k <= 13 -> SwapRandom
       [] k <= 14 -> \E i \in {R(1..dim)} : Flip(i)
       [] k <= 15 -> \E i \in {R(1..dim)}, c \in {R(-4..4)} : Shift(i, c)
       [] k <= 17 -> PrismRandom
       [] k <= 18 -> \E r \in {Row}, c \in {R(2..5)} : ScaleRow(r, c)
       [] k <= 20 -> \E r \in {Row}, s \in {Row}, e \in {R(0..2)} : Redundant(r, s, e)
       [] k <= 22 -> \E a \in {Row}, b \in {Row} : Exchange(Min2(a, b), Max2(a, b))
       [] k <= 23 -> IF lin # {} THEN \E r \in {R(lin)} : NegateEquation(r) ELSE ShearRandom
       [] k <= 25 -> IF Profile = "full" THEN ShearRandom ELSE LiftRandom(FALSE)
       [] k <= 26 -> IF Profile = "full" THEN CutRandom ELSE LiftRandom(TRUE)
       [] k <= 28 -> IF Profile = "full" THEN CutRandom ELSE EquateRandom(FALSE)
       [] k <= 29 -> IF Profile = "full" THEN ShearRandom ELSE EquateRandom(TRUE)
       [] OTHER -> IF Profile = "empty" THEN Gap ELSE ShearRandom

Small ==
  /\ Cardinality(pts') <= MaxPts
  /\ Len(rows') <= 14
  /\ \A r \in DOMAIN rows' : \A i \in DOMAIN rows'[r] : Abs(rows'[r][i]) <= MaxCoef
Emit ==
  PrintT("CASE " \o ToJson([n |-> dim', rows |-> rows', lin |-> SetToSeq(lin'),
                            npts |-> Cardinality(pts'), pts |-> pts', ops |-> ops']))
GenInit == Init /\ fuel = Steps + 1
GenStep ==
  /\ fuel > 0
  /\ fuel' = fuel - 1
  /\ IF dim = 0 THEN StartRandom ELSE StepRandom
  /\ Small
GenNext == GenStep /\ (fuel' = 0 => Emit)
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
