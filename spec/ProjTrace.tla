------------------------------ MODULE ProjTrace ------------------------------
(* Judges how a polyhedron is read: the coordinates the computation is done  *)
(* in, the inequalities and the vertex cones in these coordinates.           *)
(* A case carries the description (n, rows, lin, nonneg), its integer points *)
(* (from LattBuild) or dil, and obs: <<>> when the program stopped early     *)
(* (reporting count), else <<[vars, basis, origin, matrix, verts]>>.         *)
EXTENDS LattTraceFile, LattCone
VARIABLES case, pos, abs, status

NonnegRows(c) == [i \in DOMAIN c.nonneg |-> [k \in 1..(c.n + 1) |-> IF k = c.nonneg[i] + 2 THEN 1 ELSE 0]]
AllRows(c) == DilateRows(c.rows \o NonnegRows(c), c.dil)
LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}

Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Basis(c, o) == IF o.basis = <<>> THEN Identity(c.n) ELSE o.basis
Origin(c, o) == IF o.basis = <<>> THEN [i \in 1..c.n |-> 0] ELSE o.origin
PickMinor(B, k) == CHOOSE S \in RowSets(Len(B), k) : Det(SubRows(B, S)) # 0

(* every stage of the comparison is one event *)
Stage(c, a, what) ==
  LET o == c.obs[1]
      B == a.B
      k == o.vars
  IN CASE what = "lattice" ->
            IF k = 0 \/ Len(B) # c.n THEN "no coordinates"
            ELSE IF MinorsGcd(B, k) # 1 THEN "the new coordinates miss integer points of the affine space"
            ELSE ""
       [] what = "equations" ->
            IF \E r \in LinSet(c) : \E i \in 1..(k + 1) : PullBack(a.rows[r], B, a.o, k)[i] # 0
            THEN "an equation does not hold on the new coordinates" ELSE ""
       [] what = "points" ->
            LET S == PickMinor(B, k)
            IN IF \E x \in ToSet(c.pts) : Preimage(B, a.o, S, x) = <<>>
               THEN "an integer point of the polyhedron has no integer coordinates"
               ELSE IF \E x \in ToSet(c.pts) : \E r \in DOMAIN o.matrix : Val(o.matrix[r], Preimage(B, a.o, S, x)) < 0
               THEN "the inequalities cut off an integer point" ELSE ""
       [] what = "vertices" ->
            \* [num, den] in the new coordinates, mapped back
            LET back == {LowestTerms(<<[i \in 1..c.n |-> a.o[i] * v[2] + Dot(B[i], v[1])], v[2]>>) : v \in ToSet(o.verts)}
            IN IF Cardinality(ToSet(o.verts)) # Len(o.verts) THEN "a vertex is repeated"
               ELSE IF \E q \in back : ~SatQ(a.rows, LinSet(c), q) THEN "a vertex is outside of the polyhedron"
               ELSE IF c.verts # <<>> /\ back # ToSet(c.verts) THEN "the vertices are not those of the polyhedron"
               ELSE ""
       [] what = "rays" ->    \* the vertex cones, when their rays are given
            IF \E v \in ToSet(o.cones) :
                 EdgeDirections(a.rows, LinSet(c), LowestTerms(<<[i \in 1..c.n |-> a.o[i] * v.vertex[2] + Dot(B[i], v.vertex[1])], v.vertex[2]>>))
                 # {[i \in 1..c.n |-> Dot(B[i], r)] : r \in ToSet(v.rays)}
            THEN "the rays of a vertex cone are not the edge directions" ELSE ""
       [] what = "early" ->
            IF c.npts < 0 \/ c.early = c.npts THEN "" ELSE "stopped early with a wrong number"

P(c) == IF c.obs = <<>> THEN [B |-> <<>>, o |-> <<>>, rows |-> <<>>]
        ELSE [B |-> Basis(c, c.obs[1]), o |-> Origin(c, c.obs[1]), rows |-> AllRows(c)]
E(c) == c.stages
S(c, a, ev) == Stage(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
