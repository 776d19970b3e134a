---------------------------- MODULE LattDescribe ----------------------------
(* Descriptions of one polyhedron.  After a behaviour of LattBuild the        *)
(* machine rewrites the description (order, scaling, redundancy, equations    *)
(* split and negated) and collects equivalent ones; small polytopes also get  *)
(* their vertices.  FormatTrace writes and judges the files in all formats.   *)
EXTENDS LattBuildGen
CONSTANTS PerVariant, NumVariants
VARIABLES d, out, left
dvars == <<dim, rows, lin, pts, ops, fuel, d, out, left>>

DScale(r, k) == d' = [d EXCEPT !.rows[r] = ScaleV(k, @)]
DNegate(r) == d' = [d EXCEPT !.rows[r] = NegV(@)]
DExchange(r, s) ==
  LET m(i) == IF i = r THEN s ELSE IF i = s THEN r ELSE i
  IN d' = [rows |-> [d.rows EXCEPT ![r] = d.rows[s], ![s] = d.rows[r]], lin |-> {m(i) : i \in d.lin}]
DRedundant(r, s, e) ==
  d' = [d EXCEPT !.rows = Append(@, LET t == AddV(d.rows[r], d.rows[s]) IN [t EXCEPT ![1] = @ + e])]
DDuplicate(r) ==       \* repeat a row, equations as equations
  d' = [rows |-> Append(d.rows, d.rows[r]), lin |-> IF r \in d.lin THEN d.lin \cup {Len(d.rows) + 1} ELSE d.lin]
DSplit(r) ==           \* an equation becomes two inequalities
  d' = [rows |-> Append(d.rows, NegV(d.rows[r])), lin |-> d.lin \ {r}]
(* adding a multiple of an equation to another row *)
DAddEquation(r, s, k) == d' = [d EXCEPT !.rows[s] = AddV(@, ScaleV(k, d.rows[r]))]
DTrivial(b) == d' = [d EXCEPT !.rows = Append(@, <<b>> \o [i \in 1..dim |-> 0])]

Describe ==
  \E k \in {R(1..13)}, r \in {R(DOMAIN d.rows)}, s \in {R(DOMAIN d.rows)}, c \in {R(1..7)} :
    CASE k <= 3 -> DScale(r, c)
      [] k <= 6 -> DExchange(Min2(r, s), Max2(r, s))
      [] k <= 8 -> DRedundant(r, s, c % 3)
      [] k = 9 -> IF r \in d.lin THEN DNegate(r) ELSE DExchange(Min2(r, s), Max2(r, s))
      [] k = 10 -> IF r \in d.lin THEN UNCHANGED d ELSE DDuplicate(r)
      [] k = 11 -> IF r \in d.lin THEN DSplit(r) ELSE DScale(r, c)
      [] k = 12 -> IF r \in d.lin /\ s # r THEN DAddEquation(r, s, c - 4) ELSE DExchange(Min2(r, s), Max2(r, s))
      [] OTHER -> IF c <= 2 THEN DTrivial(c) ELSE DScale(r, c)

VertexList ==
  IF dim >= 1 /\ Cardinality(kSubset(dim, DOMAIN rows)) <= 260 THEN SetToSeq(Vertices(rows, lin)) ELSE <<>>
EmitAll ==
  PrintT("CASE " \o ToJson([n |-> dim, rows |-> rows, lin |-> SetToSeq(lin), npts |-> Cardinality(pts),
                            pts |-> pts, ops |-> ops, verts |-> VertexList,
                            variants |-> [i \in DOMAIN out' |-> [rows |-> out'[i].rows, lin |-> SetToSeq(out'[i].lin)]]]))
DescInit == GenInit /\ d = <<>> /\ out = <<>> /\ left = 0
DescNext ==
  \/ GenStep /\ UNCHANGED <<out, left>> /\ d' = IF fuel' = 0 THEN [rows |-> rows', lin |-> lin'] ELSE <<>>
  \/ /\ fuel = 0 /\ Len(out) < NumVariants
     /\ UNCHANGED <<dim, rows, lin, pts, ops, fuel>>
     /\ IF left < PerVariant
        THEN left' = left + 1 /\ Describe /\ UNCHANGED out
        ELSE left' = 0 /\ out' = Append(out, d) /\ d' = [rows |-> rows, lin |-> lin]
     /\ (Len(out') = NumVariants => EmitAll)
DescSpec == DescInit /\ [][DescNext]_dvars
(* every description has the same integer points (checked in a box) *)
SameDescription ==
  fuel = 0 /\ dim <= 3 /\ d # <<>> =>
    \A x \in Box([i \in 1..dim |-> -3], [i \in 1..dim |-> 3]) : Sat(d.rows, d.lin, x) <=> Sat(rows, lin, x)
=============================================================================
