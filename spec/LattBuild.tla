------------------------------ MODULE LattBuild ------------------------------
(* A machine that builds polyhedra together with their set of integer        *)
(* points.  Each step is an operation whose effect on the integer points is  *)
(* known (cuts, unimodular substitutions, embeddings into a higher           *)
(* dimension, products, re-descriptions), so a behaviour ends in a           *)
(* description of arbitrary shape whose integer points are known exactly.    *)
(* The invariant PointsAreExact is checked exhaustively on small constants   *)
(* (LattBuildMC.cfg); long random behaviours (LattBuildGen) are replayed     *)
(* into the real programs.                                                   *)
(* The rows describe P; pts are the integer points of its dilation Dil * P.  *)
EXTENDS LattGeom, TLC, Json

VARIABLES
  dim,      \* number of variables
  rows,     \* sequence of rows <<b, a1, .., an>>
  lin,      \* indices of the rows that are equations
  pts,      \* the integer points
  ops       \* names of the operations performed
vars == <<dim, rows, lin, pts, ops>>

CONSTANT Dil
Pts(r, l, lo, hi) == LatPts(DilateRows(r, Dil), l, DilateBox(lo, Dil), DilateBox(hi, Dil))
DVal(row, x) == (Dil - 1) * row[1] + Val(row, x)
Did(op) == ops' = Append(ops, op)

UnitRow(n, i, b, s) == <<b>> \o [j \in 1..n |-> IF j = i THEN s ELSE 0]
BoxRows(lo, hi) ==
  LET n == Len(lo)
  IN [k \in 1..(2 * n) |->
        IF k <= n THEN UnitRow(n, k, -lo[k], 1) ELSE UnitRow(n, k - n, hi[k - n], -1)]

Init == dim = 0 /\ rows = <<>> /\ lin = {} /\ pts = {<<>>} /\ ops = <<>>

(* ------------------------------- starting ------------------------------- *)
StartBox(lo, hi) ==
  /\ dim = 0
  /\ \A i \in DOMAIN lo : lo[i] <= hi[i]
  /\ dim' = Len(lo) /\ rows' = BoxRows(lo, hi) /\ lin' = {}
  /\ pts' = Box(DilateBox(lo, Dil), DilateBox(hi, Dil))
  /\ Did("box")

(* x >= 0, a.x <= b with positive a *)
StartSimplex(a, b) ==
  /\ dim = 0
  /\ LET n == Len(a)
     IN /\ dim' = n
        /\ rows' = [i \in 1..n |-> UnitRow(n, i, 0, 1)] \o << <<b>> \o NegV(a) >>
        /\ lin' = {}
        /\ pts' = Pts(rows', {}, [i \in 1..n |-> 0], [i \in 1..n |-> (b \div a[i]) + 1])
  /\ Did("simplex")

(* |x_1| + .. + |x_n| <= k *)
StartCross(n, k) ==
  /\ dim = 0
  /\ dim' = n /\ lin' = {}
  /\ rows' = LET S == SetToSeq([1..n -> {-1, 1}]) IN [i \in DOMAIN S |-> <<k>> \o [j \in 1..n |-> S[i][j]]]
  /\ pts' = Pts(rows', {}, [i \in 1..n |-> -k], [i \in 1..n |-> k])
  /\ Did("cross")

(* the simplex with the given n+1 integer vertices: the facet opposite to    *)
(* vertex i is the affine function vanishing on the others                   *)
AffineThrough(n, vs) ==    \* vs: n points; row of the affine function x |-> det(1 x / 1 vs)
  LET f(x) == Det(<< <<1>> \o x >> \o [k \in 1..n |-> <<1>> \o vs[k]])
      zero == [j \in 1..n |-> 0]
      b == f(zero)
  IN <<b>> \o [i \in 1..n |-> f([j \in 1..n |-> IF j = i THEN 1 ELSE 0]) - b]
SimplexRows(vs) ==
  LET n == Len(vs) - 1
  IN [i \in 1..(n + 1) |->
        LET r == AffineThrough(n, DropAt(vs, i))
            s == Sgn(Val(r, vs[i]))
        IN Primitive(ScaleV(s, r))]
NonDegenerate(vs) == LET n == Len(vs) - 1 IN Det([k \in 1..(n + 1) |-> <<1>> \o vs[k]]) # 0
StartVertexSimplex(vs) ==
  /\ dim = 0
  /\ NonDegenerate(vs)
  /\ LET n == Len(vs) - 1
         lo == [i \in 1..n |-> Min({vs[k][i] : k \in DOMAIN vs})]
         hi == [i \in 1..n |-> Max({vs[k][i] : k \in DOMAIN vs})]
     IN /\ dim' = n /\ rows' = SimplexRows(vs) /\ lin' = {}
        /\ pts' = Pts(rows', {}, lo, hi)
  /\ Did("vsimplex")

(* ------------------------------- cutting -------------------------------- *)
Cut(row) ==
  /\ dim > 0 /\ Len(row) = dim + 1
  /\ rows' = Append(rows, row)
  /\ pts' = {x \in pts : DVal(row, x) >= 0}
  /\ UNCHANGED <<dim, lin>> /\ Did("cut")

Equate(row) ==
  /\ dim > 0 /\ Len(row) = dim + 1
  /\ rows' = Append(rows, row)
  /\ lin' = lin \cup {Len(rows) + 1}
  /\ pts' = {x \in pts : DVal(row, x) = 0}
  /\ UNCHANGED dim /\ Did("equate")

(* an equation written as two inequalities *)
EquateHidden(row) ==
  /\ dim > 0 /\ Len(row) = dim + 1
  /\ rows' = rows \o <<row, NegV(row)>>
  /\ pts' = {x \in pts : DVal(row, x) = 0}
  /\ UNCHANGED <<dim, lin>> /\ Did("hidden")

(* --------------------- unimodular substitutions ------------------------- *)
(* new coordinate i is x_i + k x_j *)
Shear(i, j, k) ==
  /\ i \in 1..dim /\ j \in 1..dim /\ i # j
  /\ rows' = [r \in DOMAIN rows |-> [rows[r] EXCEPT ![j + 1] = @ - k * rows[r][i + 1]]]
  /\ pts' = {[x EXCEPT ![i] = @ + k * x[j]] : x \in pts}
  /\ UNCHANGED <<dim, lin>> /\ Did("shear")
Swap(i, j) ==
  /\ i \in 1..dim /\ j \in 1..dim /\ i # j
  /\ rows' = [r \in DOMAIN rows |-> [rows[r] EXCEPT ![i + 1] = rows[r][j + 1], ![j + 1] = rows[r][i + 1]]]
  /\ pts' = {[x EXCEPT ![i] = x[j], ![j] = x[i]] : x \in pts}
  /\ UNCHANGED <<dim, lin>> /\ Did("swap")
Flip(i) ==
  /\ i \in 1..dim
  /\ rows' = [r \in DOMAIN rows |-> [rows[r] EXCEPT ![i + 1] = -@]]
  /\ pts' = {[x EXCEPT ![i] = -@] : x \in pts}
  /\ UNCHANGED <<dim, lin>> /\ Did("flip")
Shift(i, c) ==
  /\ i \in 1..dim
  /\ rows' = [r \in DOMAIN rows |-> [rows[r] EXCEPT ![1] = @ - c * rows[r][i + 1]]]
  /\ pts' = {[x EXCEPT ![i] = @ + Dil * c] : x \in pts}
  /\ UNCHANGED <<dim, lin>> /\ Did("shift")

(* ------------------------ changing the dimension ------------------------ *)
Pad(row) == Append(row, 0)
Prism(lo, hi) ==
  /\ dim > 0 /\ lo <= hi
  /\ dim' = dim + 1
  /\ rows' = [r \in DOMAIN rows |-> Pad(rows[r])]
             \o <<UnitRow(dim + 1, dim + 1, -lo, 1), UnitRow(dim + 1, dim + 1, hi, -1)>>
  /\ pts' = {Append(x, c) : x \in pts, c \in (Dil * lo)..(Dil * hi)}
  /\ UNCHANGED lin /\ Did("prism")

(* a new variable z with m z = c + a.x: keeps the points with m | c + a.x   *)
(* (of the dilation: m | Dil c + a.x)                                        *)
Lift(a, c, m, hidden) ==
  /\ dim > 0 /\ Len(a) = dim /\ m # 0
  /\ dim' = dim + 1
  /\ LET e == <<c>> \o a \o <<-m>>
         old == [r \in DOMAIN rows |-> Pad(rows[r])]
     IN IF hidden
        THEN /\ rows' = old \o <<e, NegV(e)>> /\ UNCHANGED lin
        ELSE /\ rows' = old \o <<e>> /\ lin' = lin \cup {Len(rows) + 1}
  /\ pts' = {Append(x, ((Dil * c + Dot(a, x)) * Sgn(m)) \div Abs(m)) :
               x \in {x \in pts : (Dil * c + Dot(a, x)) % Abs(m) = 0}}
  /\ Did("lift")

(* ---------------------------- redescriptions ---------------------------- *)
ScaleRow(r, k) ==
  /\ r \in DOMAIN rows /\ k > 0
  /\ rows' = [rows EXCEPT ![r] = ScaleV(k, @)]
  /\ UNCHANGED <<dim, lin, pts>> /\ Did("scale")
NegateEquation(r) ==
  /\ r \in lin
  /\ rows' = [rows EXCEPT ![r] = NegV(@)]
  /\ UNCHANGED <<dim, lin, pts>> /\ Did("negeq")
(* a redundant row: sum of two rows plus slack *)
Redundant(r, s, slack) ==
  /\ r \in DOMAIN rows /\ s \in DOMAIN rows /\ slack >= 0
  /\ LET t == AddV(rows[r], rows[s]) IN rows' = Append(rows, [t EXCEPT ![1] = @ + slack])
  /\ UNCHANGED <<dim, lin, pts>> /\ Did("redundant")
Exchange(r, s) ==
  /\ r \in DOMAIN rows /\ s \in DOMAIN rows /\ r < s
  /\ rows' = [rows EXCEPT ![r] = rows[s], ![s] = rows[r]]
  /\ LET m(i) == IF i = r THEN s ELSE IF i = s THEN r ELSE i IN lin' = {m(i) : i \in lin}
  /\ UNCHANGED <<dim, pts>> /\ Did("exchange")

(* ------------------------------ properties ------------------------------ *)
TypeOK ==
  /\ dim \in Nat
  /\ \A r \in DOMAIN rows : Len(rows[r]) = dim + 1
  /\ lin \subseteq DOMAIN rows
  /\ \A x \in pts : Len(x) = dim
CONSTANT B        \* the model is explored within the box [-B, B]^dim
PointsAreExact ==
  dim > 0 =>
    pts = LatPts(DilateRows(rows, Dil), lin, [i \in 1..dim |-> -B], [i \in 1..dim |-> B])
CountsAgree ==
  dim > 0 =>
    LET lo == [i \in 1..dim |-> -B] hi == [i \in 1..dim |-> B]
        q == DilateRows(rows, Dil)
    IN /\ Cardinality(pts) = CountPts(q, lin, lo, hi)
       /\ Cardinality(pts) = CountBT(q, lin, lo, hi)
       /\ pts = PointsBT(q, lin, lo, hi)
       /\ LET b == ImpliedBox(q, lin, dim)
          IN BoxKnown(b) => Cardinality(pts) = CountBT(q, lin, BoxLo(b), BoxHi(b))
(* operations that must not change how many points there are *)
Neutral == {"shear", "swap", "flip", "shift", "scale", "negeq", "redundant", "exchange"}
CountPreserved ==
  [][(Len(ops') > Len(ops) /\ ops'[Len(ops')] \in Neutral) => Cardinality(pts') = Cardinality(pts)]_vars
CutsShrink ==
  [][(Len(ops') > Len(ops) /\ ops'[Len(ops')] \in {"cut", "equate", "hidden"}) => pts' \subseteq pts]_vars
=============================================================================
