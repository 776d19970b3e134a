----------------------------- MODULE LattConvert -----------------------------
(* Descriptions of polyhedra as the file formats hold them, what they mean,  *)
(* and the converters as transitions between formats.                        *)
(*   fmt = "latte": rows, equations (linearity lines), nonnegative lines     *)
(*   fmt = "cdd":   rows and equations only; entries may be fractions        *)
(* Entries are <<numerator, denominator>>.  Row indices are 1-based.         *)
(* Meaning forgets order, repetition, positive factors of inequalities and   *)
(* any factor of equations; the converters must keep it.                     *)
EXTENDS LattGeom, TLC, Json
VARIABLES dim, fmt, rows, eqs, nn, first, step
cvars == <<dim, fmt, rows, eqs, nn, first, step>>

Frac(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN <<Sgn(d) * (n \div g), Abs(d) \div g>>
Lcm2(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmDen(_)
LcmDen(r) == IF r = <<>> THEN 1 ELSE Lcm2(Head(r)[2], LcmDen(Tail(r)))
Cleared(r) == LET l == LcmDen(r) IN [i \in DOMAIN r |-> r[i][1] * (l \div r[i][2])]
Whole(v) == [i \in DOMAIN v |-> <<v[i], 1>>]
Lead(v) == LET I == {i \in DOMAIN v : v[i] # 0} IN IF I = {} THEN 1 ELSE Sgn(v[CHOOSE i \in I : \A j \in I : i <= j])
Line(v) == ScaleV(Lead(v), v)
Unit0(n, i) == [j \in 1..(n + 1) |-> IF j = i + 1 THEN 1 ELSE 0]
Meaning(n, rs, es, ns) ==
  [ineq |-> {Primitive(Cleared(rs[i])) : i \in DOMAIN rs \ es} \cup {Unit0(n, i) : i \in ns},
   eq |-> {Line(Primitive(Cleared(rs[i]))) : i \in es}]

(* ------------------------------ converters ------------------------------ *)
LatteToCdd ==       \* latte2ine: nonnegative variables become rows at the end
  /\ fmt = "latte"
  /\ LET q == SetToSeq(nn) IN rows' = rows \o [i \in DOMAIN q |-> Whole(Unit0(dim, q[i]))]
  /\ nn' = {} /\ fmt' = "cdd" /\ UNCHANGED <<dim, eqs, first>>
CddToLatte ==       \* ConvertCDDineToLatte: denominators are cleared, equations are kept
  /\ fmt = "cdd"
  /\ rows' = [i \in DOMAIN rows |-> Whole(Cleared(rows[i]))]
  /\ fmt' = "latte" /\ UNCHANGED <<dim, eqs, nn, first>>
MeaningKept == Meaning(dim, rows, eqs, nn) = first

(* ---------------------------- redescriptions ---------------------------- *)
Stretch(i, n, d) == rows' = [rows EXCEPT ![i] = [k \in DOMAIN @ |-> Frac(@[k][1] * n, @[k][2] * d)]] /\ UNCHANGED <<eqs, nn>>
Move(i, j) ==
  LET m(k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
  IN rows' = [rows EXCEPT ![i] = rows[j], ![j] = rows[i]] /\ eqs' = {m(k) : k \in eqs} /\ UNCHANGED nn
Repeat(i) == rows' = Append(rows, rows[i]) /\ eqs' = (IF i \in eqs THEN eqs \cup {Len(rows) + 1} ELSE eqs) /\ UNCHANGED nn
Opposite(i) == i \in eqs /\ rows' = [rows EXCEPT ![i] = [k \in DOMAIN @ |-> <<-@[k][1], @[k][2]>>]] /\ UNCHANGED <<eqs, nn>>
AsRow(i) == i \in nn /\ rows' = Append(rows, Whole(Unit0(dim, i))) /\ nn' = nn \ {i} /\ UNCHANGED eqs
Redescribe(i, j, n, d, w) ==
  /\ UNCHANGED <<dim, fmt, first>>
  /\ CASE w = 1 -> Stretch(i, n, d) [] w = 2 -> Move(i, j) [] w = 3 -> Repeat(i)
       [] w = 4 /\ i \in eqs -> Opposite(i) [] w = 5 /\ nn # {} -> AsRow(CHOOSE k \in nn : TRUE)
       [] OTHER -> UNCHANGED <<rows, eqs, nn>>

(* ------------------------- exhaustive exploration ------------------------ *)
CONSTANTS K, MaxRows, Depth
VEntries == -K..K
CInit ==
  /\ fmt = "latte" /\ step = 0 /\ dim \in 1..2
  /\ \E m \in 1..MaxRows : rows \in [1..m -> [1..(dim + 1) -> {<<x, 1>> : x \in VEntries} \cup {<<1, 2>>}]]
  /\ eqs \in SUBSET DOMAIN rows /\ nn \in SUBSET (1..dim)
  /\ first = Meaning(dim, rows, eqs, nn)
CNext ==
  /\ step < Depth /\ step' = step + 1
  /\ \/ LatteToCdd \/ CddToLatte
     \/ \E i, j \in DOMAIN rows, w \in 1..5, n \in 1..2, d \in 2..3 : Len(rows) <= 3 /\ Redescribe(i, j, n, d, w)
CSpec == CInit /\ [][CNext]_cvars

(* ------------------------------- generation ------------------------------ *)
CONSTANTS GenDim, GenRows, GenCoef
R(S) == RandomElement(S)
REntry(big) == R(IF big THEN -GenCoef..GenCoef ELSE {-3, -2, -1, -1, 0, 0, 0, 1, 1, 2, 3})
RFrac(big, q) == Frac(REntry(big), R(IF q THEN 1..12 ELSE {1}))
Emit == PrintT("CASE " \o ToJson([n |-> dim, rows |-> rows', eqs |-> SetToSeq(eqs'), nn |-> SetToSeq(nn')]))
GInit == /\ dim \in 1..GenDim /\ fmt = "latte" /\ step = 0 /\ rows = <<>> /\ eqs = {} /\ nn = {} /\ first = <<>>
GNext ==
  /\ step < Depth /\ step' = step + 1
  /\ IF step = 0
     THEN /\ \E m \in {R(1..GenRows)}, big \in {R({FALSE, FALSE, TRUE})}, q \in {R(BOOLEAN)} :
               rows' = [i \in 1..m |-> [k \in 1..(dim + 1) |-> TLCEval(RFrac(big, q))]]
          /\ \E e \in {R({{}} \cup {{i \in 1..3 : i % 2 = k} : k \in 0..1} \cup {{1, 2, 3}, {3}, {4}})} : eqs' = e \cap DOMAIN rows'
          /\ \E f \in {[i \in 1..dim |-> R(BOOLEAN)]}, z \in {R(BOOLEAN)} : nn' = IF z THEN {} ELSE {i \in 1..dim : f[i]}
          /\ UNCHANGED <<dim, fmt, first>>
     ELSE \E i \in {R(DOMAIN rows)}, j \in {R(DOMAIN rows)}, n \in {R(1..12)}, d \in {R(1..12)}, w \in {R(1..5)} : Redescribe(i, j, n, d, w)
  /\ (step' = Depth => Emit)
GSpec == GInit /\ [][GNext]_cvars
=============================================================================
