---------------------------- MODULE LattUnbounded ----------------------------
(* Unbounded polyhedra: a behaviour of LattBuild to which directions (or a   *)
(* line) of unboundedness are added, followed by unimodular substitutions    *)
(* and redescriptions.  recs are the directions; when there is no line the   *)
(* integer points are exactly the sums  p + sum k_i recs[i],  p in pts, k_i  *)
(* nonnegative integers, each in one way.  The invariants say that recs      *)
(* really are directions and (on a box) that these are all integer points.   *)
EXTENDS LattBuildGen
CONSTANTS MaxRays, Lines
VARIABLES recs, line, inner, todo
uvars == <<dim, rows, lin, pts, ops, fuel, recs, line, inner, todo>>

(* a new variable with z >= lo + a.x only, or without any bound *)
RayUp(a, lo) ==
  /\ dim' = dim + 1
  /\ rows' = [r \in DOMAIN rows |-> Pad(rows[r])] \o << <<-lo>> \o NegV(a) \o <<1>> >>
  /\ pts' = {Append(x, lo + Dot(a, x)) : x \in pts}
  /\ recs' = Append([k \in DOMAIN recs |-> Append(recs[k], Dot(a, recs[k]))], [i \in 1..dim |-> 0] \o <<1>>) /\ UNCHANGED line
  /\ UNCHANGED lin /\ Did("ray")
LineUp ==
  /\ dim' = dim + 1
  /\ rows' = [r \in DOMAIN rows |-> Pad(rows[r])]
  /\ pts' = {Append(x, 0) : x \in pts}
  /\ recs' = Append([k \in DOMAIN recs |-> Append(recs[k], 0)], [i \in 1..dim |-> 0] \o <<1>>) /\ line' = TRUE
  /\ UNCHANGED lin /\ Did("line")
(* forget rows: what is left contains the polyhedron; unbounded if the        *)
(* remaining rows allow a direction                                           *)
ShearU(i, j, k) == Shear(i, j, k) /\ recs' = [q \in DOMAIN recs |-> [recs[q] EXCEPT ![i] = @ + k * recs[q][j]]] /\ UNCHANGED line
FlipU(i) == Flip(i) /\ recs' = [q \in DOMAIN recs |-> [recs[q] EXCEPT ![i] = -@]] /\ UNCHANGED line
ShiftU(i, c) == Shift(i, c) /\ UNCHANGED <<recs, line>>
RowsU == (\E r \in {Row}, s \in {Row}, e \in {R(0..2)} : Redundant(r, s, e) \/ Exchange(Min2(r, s), Max2(r, s))
                                                          \/ ScaleRow(r, e + 2)) /\ UNCHANGED <<recs, line>>
UStep ==
  \E k \in {R(1..10)}, i \in {R(1..dim)}, j \in {R(1..dim)}, c \in {R(-3..3)} :
    CASE k <= 5 -> IF i # j THEN ShearU(i, j, c) ELSE ShiftU(i, c)
      [] k = 6 -> FlipU(i)
      [] k <= 8 -> ShiftU(i, c)
      [] OTHER -> RowsU
EmitU ==
  PrintT("CASE " \o ToJson([n |-> dim', rows |-> rows', lin |-> SetToSeq(lin'), rec |-> recs'[Len(recs')], recs |-> recs', pts |-> pts', line |-> line',
                            point |-> IF pts' = {} THEN <<>> ELSE CHOOSE x \in pts' : TRUE, ops |-> ops']))
UInit == GenInit /\ recs = <<>> /\ line = FALSE /\ inner = 0 /\ todo = 4
UNext ==
  \/ /\ fuel > 0 /\ GenStep /\ UNCHANGED <<recs, line, inner, todo>>
  \/ /\ fuel = 0 /\ (recs = <<>> \/ (inner = 1 /\ Len(recs) < MaxRays)) /\ dim > 0 /\ dim < MaxDim
     /\ \E k \in {R(1..4)}, a \in {Vec(dim, -2..2)}, lo \in {R(-3..3)} : IF k = 1 /\ Lines THEN LineUp ELSE RayUp(a, lo)
     /\ \E more \in {R(0..1)} : inner' = more
     /\ UNCHANGED <<fuel, todo>>
  \/ /\ fuel = 0 /\ recs # <<>> /\ ~(inner = 1 /\ Len(recs) < MaxRays /\ dim < MaxDim) /\ todo > 0
     /\ todo' = todo - 1 /\ UStep /\ UNCHANGED <<fuel, inner>>
     /\ (todo' = 0 => EmitU)
USpec == UInit /\ [][UNext]_uvars
IsDirection ==
  recs # <<>> => \A r \in DOMAIN rows, q \in DOMAIN recs :
     LET v == Dot(Tail(rows[r]), recs[q])
     IN IF r \in lin \/ (line /\ Len(recs) = 1) THEN v = 0 ELSE v >= 0
PointsAreInside == recs # <<>> => \A x \in pts : Sat(rows, lin, x)
(* one recession direction: every integer point of a box is p + k rec *)
PointsAreAll ==
  recs # <<>> /\ ~line /\ Len(recs) = 1 /\ dim <= 3 =>
    \A x \in Box([i \in 1..dim |-> -3], [i \in 1..dim |-> 3]) :
       Sat(rows, lin, x) <=> \E p \in pts : \E i \in 1..dim :
           /\ recs[1][i] # 0 /\ (x[i] - p[i]) % Abs(recs[1][i]) = 0
           /\ LET k == ((x[i] - p[i]) * Sgn(recs[1][i])) \div Abs(recs[1][i])
              IN k >= 0 /\ x = AddV(p, ScaleV(k, recs[1]))
=============================================================================
