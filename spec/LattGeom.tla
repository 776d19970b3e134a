------------------------------ MODULE LattGeom ------------------------------
(* Polyhedra as LattE describes them: a row <<b, a1, .., an>> stands for    *)
(* b + a.x >= 0, or for b + a.x = 0 when its index is in lin.               *)
EXTENDS LattArith

Dot(a, x) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * x[i], 0, x)
Val(row, x) == FoldLeftDomain(LAMBDA acc, i : acc + row[i + 1] * x[i], row[1], x)
Coef(row) == Tail(row)

SatRow(rows, lin, x, i) ==
  LET v == Val(rows[i], x) IN IF i \in lin THEN v = 0 ELSE v >= 0
Sat(rows, lin, x) == \A i \in DOMAIN rows : SatRow(rows, lin, x, i)
SatStrict(rows, lin, x) ==
  \A i \in DOMAIN rows : LET v == Val(rows[i], x) IN IF i \in lin THEN v = 0 ELSE v > 0

(* all integer tuples x with lo[i] <= x[i] <= hi[i] *)
RECURSIVE BoxN(_, _, _)
BoxN(lo, hi, n) ==
  IF n = 0 THEN {<<>>}
  ELSE {Append(x, c) : x \in BoxN(lo, hi, n - 1), c \in lo[n]..hi[n]}
Box(lo, hi) == BoxN(lo, hi, Len(lo))

LatPts(rows, lin, lo, hi) == {x \in Box(lo, hi) : Sat(rows, lin, x)}

(* The number of integer points, one slice (all but the last coordinate     *)
(* fixed) at a time: the rows leave an interval for the last coordinate.    *)
SliceRange(rows, lin, x, lo, hi) ==
  LET n == Len(lo)
      v(row) == FoldLeftDomain(LAMBDA acc, i : acc + row[i + 1] * x[i], row[1], x)
      step(acc, i) ==
        LET row == rows[i]
            c == row[n + 1]
            b == v(row)
            eq == i \in lin
        IN IF acc[1] > acc[2] THEN acc
           ELSE IF c = 0
                THEN IF b < 0 \/ (eq /\ b # 0) THEN <<1, 0>> ELSE acc
                ELSE IF c > 0
                     THEN <<Max2(acc[1], CeilDiv(-b, c)),
                            IF eq THEN Min2(acc[2], FloorDiv(-b, c)) ELSE acc[2]>>
                     ELSE <<IF eq THEN Max2(acc[1], CeilDiv(b, -c)) ELSE acc[1],
                            Min2(acc[2], FloorDiv(b, -c))>>
  IN FoldLeftDomain(step, <<lo[n], hi[n]>>, rows)

CountPts(rows, lin, lo, hi) ==
  LET n == Len(lo)
  IN IF n = 0 THEN 1
     ELSE FoldSet(LAMBDA x, acc :
                    LET r == SliceRange(rows, lin, x, lo, hi)
                    IN acc + Max2(0, r[2] - r[1] + 1),
                  0, BoxN(lo, hi, n - 1))

(* The same number by backtracking, one coordinate at a time: every row      *)
(* bounds the next coordinate given the most the remaining ones can add.     *)
Most(row, i, lo, hi) == Max2(row[i + 1] * lo[i], row[i + 1] * hi[i])
Least(row, i, lo, hi) == Min2(row[i + 1] * lo[i], row[i + 1] * hi[i])
RemTable(rows, lo, hi, F(_, _, _, _)) ==   \* [r][k]: what coordinates k+1..n can add
  LET n == Len(lo)
  IN [r \in DOMAIN rows |->
        FoldLeft(LAMBDA acc, k : <<acc[1] + F(rows[r], n + 1 - k, lo, hi)>> \o acc, <<0>>, [k \in 1..n |-> k])]
    \* entry k+1 of a row: sum of F over coordinates > k
(* interval left for coordinate k, v[r] = value of row r on the fixed part   *)
NextRange(rows, lin, v, k, lo, hi, up, dn) ==
  LET step(acc, r) ==
        LET c == rows[r][k + 1]
            s == v[r] + up[r][k + 1]      \* s + c x >= 0 is needed
            t == v[r] + dn[r][k + 1]      \* equations: t + c x <= 0 too
            eq == r \in lin
        IN IF acc[1] > acc[2] THEN acc
           ELSE IF c = 0 THEN IF s < 0 \/ (eq /\ t > 0) THEN <<1, 0>> ELSE acc
           ELSE IF c > 0
                THEN <<Max2(acc[1], CeilDiv(-s, c)), IF eq THEN Min2(acc[2], FloorDiv(-t, c)) ELSE acc[2]>>
                ELSE <<IF eq THEN Max2(acc[1], CeilDiv(t, -c)) ELSE acc[1], Min2(acc[2], FloorDiv(s, -c))>>
  IN FoldLeftDomain(step, <<lo[k], hi[k]>>, rows)
RECURSIVE CountFrom(_, _, _, _, _, _, _, _)
CountFrom(rows, lin, v, k, lo, hi, up, dn) ==
  LET r == NextRange(rows, lin, v, k, lo, hi, up, dn)
  IN IF r[1] > r[2] THEN 0
     ELSE IF k = Len(lo) THEN r[2] - r[1] + 1
     ELSE FoldLeft(LAMBDA acc, x :
                     acc + CountFrom(rows, lin, TLCEval([i \in DOMAIN rows |-> v[i] + rows[i][k + 1] * x]), k + 1, lo, hi, up, dn),
                   0, [x \in 1..(r[2] - r[1] + 1) |-> r[1] + x - 1])
CountBT(rows, lin, lo, hi) ==
  IF Len(lo) = 0 THEN 1
  ELSE IF \E i \in DOMAIN lo : lo[i] > hi[i] THEN 0
  ELSE CountFrom(rows, lin, TLCEval([i \in DOMAIN rows |-> rows[i][1]]), 1, TLCEval(lo), TLCEval(hi),
                 TLCEval(RemTable(rows, lo, hi, Most)), TLCEval(RemTable(rows, lo, hi, Least)))
RECURSIVE PointsFrom(_, _, _, _, _, _, _, _, _)
PointsFrom(rows, lin, v, x, k, lo, hi, up, dn) ==
  IF k > Len(lo) THEN {x}
  ELSE LET r == NextRange(rows, lin, v, k, lo, hi, up, dn)
       IN UNION {PointsFrom(rows, lin, TLCEval([i \in DOMAIN rows |-> v[i] + rows[i][k + 1] * y]), Append(x, y), k + 1,
                            lo, hi, up, dn) : y \in r[1]..r[2]}
PointsBT(rows, lin, lo, hi) ==
  IF \E i \in DOMAIN lo : lo[i] > hi[i] THEN {}
  ELSE PointsFrom(rows, lin, TLCEval([i \in DOMAIN rows |-> rows[i][1]]), <<>>, 1, TLCEval(lo), TLCEval(hi),
                  TLCEval(RemTable(rows, lo, hi, Most)), TLCEval(RemTable(rows, lo, hi, Least)))

(* A box containing the polyhedron, by propagating bounds through the rows.  *)
(* A bound is <<>> (none known) or <<value>>.                                 *)
Tighter(old, new, F(_, _)) == IF new = <<>> THEN old ELSE IF old = <<>> THEN new ELSE <<F(old[1], new[1])>>
(* most the terms j # i of row (sign s) can be *)
RowMost(row, s, i, L, H) ==
  FoldLeft(LAMBDA acc, j :
             IF acc = <<>> \/ j = i \/ row[j + 1] = 0 THEN acc
             ELSE LET b == IF s * row[j + 1] > 0 THEN H[j] ELSE L[j]
                  IN IF b = <<>> THEN <<>> ELSE <<acc[1] + s * row[j + 1] * b[1]>>,
           <<s * row[1]>>, [j \in 1..(Len(row) - 1) |-> j])
PropagateRow(row, s, i, LH) ==
  LET c == s * row[i + 1]
      m == RowMost(row, s, i, LH[1], LH[2])       \* c x_i >= -m
  IN IF c = 0 \/ m = <<>> THEN LH
     ELSE IF c > 0 THEN <<[LH[1] EXCEPT ![i] = Tighter(@, <<CeilDiv(-m[1], c)>>, Max2)], LH[2]>>
     ELSE <<LH[1], [LH[2] EXCEPT ![i] = Tighter(@, <<FloorDiv(m[1], -c)>>, Min2)]>>
Propagate(rows, lin, LH) ==
  LET n == Len(LH[1])
      one(acc, r) ==
        FoldLeft(LAMBDA a2, i :
                   LET b == PropagateRow(rows[r], 1, i, a2)
                   IN IF r \in lin THEN PropagateRow(rows[r], -1, i, b) ELSE b,
                 acc, [i \in 1..n |-> i])
  IN FoldLeftDomain(one, LH, rows)
RECURSIVE PropagateN(_, _, _, _)
PropagateN(rows, lin, LH, k) ==
  IF k = 0 THEN LH
  ELSE LET L2 == Propagate(rows, lin, LH)
       IN IF L2 = LH \/ \E i \in DOMAIN LH[1] : L2[1][i] # <<>> /\ L2[2][i] # <<>> /\ L2[1][i][1] > L2[2][i][1]
          THEN L2 ELSE PropagateN(rows, lin, L2, k - 1)
ImpliedBox(rows, lin, n) == PropagateN(rows, lin, <<[i \in 1..n |-> <<>>], [i \in 1..n |-> <<>>]>>, 4)
BoxKnown(LH) == \A i \in DOMAIN LH[1] : LH[1][i] # <<>> /\ LH[2][i] # <<>>
BoxLo(LH) == [i \in DOMAIN LH[1] |-> LH[1][i][1]]
BoxHi(LH) == [i \in DOMAIN LH[2] |-> LH[2][i][1]]

(* the n-th dilation: b + a.x >= 0 becomes n*b + a.x >= 0 *)
DilateRows(rows, k) == [i \in DOMAIN rows |-> <<k * rows[i][1]>> \o Tail(rows[i])]
DilateBox(v, k) == [i \in DOMAIN v |-> k * v[i]]
(* integral interior: strict inequalities *)
InteriorRows(rows, lin) ==
  [i \in DOMAIN rows |-> IF i \in lin THEN rows[i] ELSE <<rows[i][1] - 1>> \o Tail(rows[i])]

(* box of a polyhedron one can read off its rows: bounds on single variables *)
UnitIn(row, i) == row[i + 1] # 0 /\ \A j \in 1..(Len(row) - 1) : j # i => row[j + 1] = 0
LowerBounds(rows, i) ==
  {CeilDiv(-rows[k][1], rows[k][i + 1]) : k \in {k \in DOMAIN rows : UnitIn(rows[k], i) /\ rows[k][i + 1] > 0}}
UpperBounds(rows, i) ==
  {FloorDiv(rows[k][1], -rows[k][i + 1]) : k \in {k \in DOMAIN rows : UnitIn(rows[k], i) /\ rows[k][i + 1] < 0}}
BoxIsVisible(rows, n) ==
  \A i \in 1..n : LowerBounds(rows, i) # {} /\ UpperBounds(rows, i) # {}
VisibleLo(rows, n) == [i \in 1..n |-> Max(LowerBounds(rows, i))]
VisibleHi(rows, n) == [i \in 1..n |-> Min(UpperBounds(rows, i))]

(* ----------------------------- linear algebra ----------------------------- *)
DropAt(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
RECURSIVE Det(_)
Det(m) ==
  LET n == Len(m)
  IN IF n = 0 THEN 1
     ELSE IF n = 1 THEN m[1][1]
     ELSE IF n = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
     ELSE FoldLeftDomain(
            LAMBDA acc, j :
              IF m[1][j] = 0 THEN acc
              ELSE acc + (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j]
                         * Det(TLCEval([i \in 1..(n - 1) |-> DropAt(m[i + 1], j)])),
            0, m[1])
RECURSIVE DetM(_, _)
DetM(m, p) ==
  LET n == Len(m)
  IN IF n = 0 THEN 1 ELSE IF n = 1 THEN m[1][1] % p
     ELSE FoldLeftDomain(
            LAMBDA acc, j :
              IF m[1][j] = 0 THEN acc
              ELSE (acc + (IF j % 2 = 1 THEN 1 ELSE -1)
                         * MulM(m[1][j], DetM(TLCEval([i \in 1..(n - 1) |-> DropAt(m[i + 1], j)]), p), p)) % p,
            0, m[1])
ReplaceCol(m, j, b) == [i \in DOMAIN m |-> [k \in DOMAIN m[i] |-> IF k = j THEN b[i] ELSE m[i][k]]]
Transpose(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
(* solution of m x = b as <<numerators, common denominator > 0>>, det # 0 *)
Cramer(m, b) ==
  LET d == Det(m)
  IN <<[j \in 1..Len(m) |-> Sgn(d) * Det(ReplaceCol(m, j, b))], Abs(d)>>
Content(v) == GcdSeq(v)
Primitive(v) == LET g == Content(v) IN IF g = 0 THEN v ELSE [i \in DOMAIN v |-> v[i] \div g]
NegV(v) == [i \in DOMAIN v |-> -v[i]]
ScaleV(k, v) == [i \in DOMAIN v |-> k * v[i]]
AddV(v, w) == [i \in DOMAIN v |-> v[i] + w[i]]
SubV(v, w) == [i \in DOMAIN v |-> v[i] - w[i]]

(* vertices of {rows, lin}: solutions of n independent tight rows that       *)
(* satisfy all rows; <<numerators, denominator>> in lowest terms             *)
LowestTerms(q) ==
  LET g == Gcd(GcdSeq(q[1]), q[2]) IN <<[i \in DOMAIN q[1] |-> q[1][i] \div g], q[2] \div g>>
ValQ(row, q) == row[1] * q[2] + Dot(Tail(row), q[1])
SatQ(rows, lin, q) ==
  \A i \in DOMAIN rows : LET v == ValQ(rows[i], q) IN IF i \in lin THEN v = 0 ELSE v >= 0
Vertices(rows, lin) ==
  LET n == Len(rows[1]) - 1
      bases == {B \in kSubset(n, DOMAIN rows) : TRUE}
      mat(B) == LET s == SetToSeq(B) IN [i \in 1..n |-> Tail(rows[s[i]])]
      rhs(B) == LET s == SetToSeq(B) IN [i \in 1..n |-> -rows[s[i]][1]]
      sols == {LowestTerms(Cramer(mat(B), rhs(B))) : B \in {B \in bases : Det(mat(B)) # 0}}
  IN {q \in sols : SatQ(rows, lin, q)}
=============================================================================
