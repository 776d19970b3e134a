---------------------------- MODULE LattBuildMC ----------------------------
(* exhaustive exploration of LattBuild on small constants *)
EXTENDS LattBuild
CONSTANT MaxDim, MaxOps, K
V == -K..K
RowsOf(n) == {<<b>> \o a : b \in -K..(K + 1), a \in [1..n -> V]}
Tup(n, S) == [1..n -> S]
Start ==
  \/ \E n \in 1..2, lo \in -1..0, w \in 0..1 : StartBox([i \in 1..n |-> lo], [i \in 1..n |-> lo + w])
  \/ \E a \in Tup(2, 1..2), b \in 0..2 : StartSimplex(a, b)
  \/ \E n \in 1..2 : StartCross(n, 1)
  \/ \E x, y, z \in Tup(2, 0..1) : StartVertexSimplex(<<x, y, z>>)
Step ==
  \/ \E r \in RowsOf(dim) : Cut(r) \/ Equate(r) \/ EquateHidden(r)
  \/ \E i, j \in 1..dim, k \in {-1, 1} : Shear(i, j, k)
  \/ \E i, j \in 1..dim : i < j /\ Swap(i, j)
  \/ \E i \in 1..dim : Flip(i) \/ \E c \in {-1, 1} : Shift(i, c)
  \/ dim < MaxDim /\ \E lo \in -1..0 : Prism(lo, lo + 1)
  \/ dim < MaxDim /\ \E a \in Tup(dim, 0..1), c \in 0..1, m \in {-2, 1, 2}, h \in BOOLEAN : Lift(a, c, m, h)
  \/ \E r \in DOMAIN rows : ScaleRow(r, 2) \/ NegateEquation(r)
  \/ \E r, s \in DOMAIN rows : Redundant(r, s, 1) \/ Exchange(r, s)
Next == Len(ops) < MaxOps /\ (Start \/ (dim > 0 /\ Step))
Spec == Init /\ [][Next]_vars
View == <<dim, rows, lin, pts, IF ops = <<>> THEN "" ELSE ops[Len(ops)], Len(ops)>>
=============================================================================
