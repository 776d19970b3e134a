------------------------------ MODULE LattRays ------------------------------
(* Pointed rational cones given by rays: their facets, membership, a         *)
(* triangulation by placing the rays one after the other, and volumes.       *)
(* A cone in R^n that spans only a d-dimensional subspace is handled in d of *)
(* its coordinates.                                                          *)
EXTENDS LattCone, TLC

Coordinates(x, I) == [k \in DOMAIN I |-> x[I[k]]]
(* [d, I, B, D]: dimension, coordinates, indices of independent rays, their minor *)
Bases(rays, n, d) ==
  {q \in kSubset(d, DOMAIN rays) \X kSubset(d, 1..n) :
     LET b == SetToSortSeq(q[1], <)
         i == SetToSortSeq(q[2], <)
     IN Det([k \in 1..d |-> Coordinates(rays[b[k]], i)]) # 0}
RECURSIVE Frame0(_, _, _)
Frame0(rays, n, d) ==
  LET S == IF d > Len(rays) THEN {} ELSE TLCEval(Bases(rays, n, d))
  IN IF S = {} THEN Frame0(rays, n, d - 1)
     ELSE LET q == CHOOSE q \in S : TRUE
          IN [d |-> d, B |-> SetToSortSeq(q[1], <), I |-> SetToSortSeq(q[2], <)]
Frame(rays, n) == Frame0(rays, n, n)

(* inner normals of the facets of the cone over full-dimensional Rs (in R^d) *)
ConeFacets(Rs, d) ==
  LET N == {Kernel1([i \in 1..(d - 1) |-> Rs[SetToSortSeq(S, <)[i]]], d) : S \in kSubset(d - 1, DOMAIN Rs)}
      P == {Primitive(v) : v \in {v \in N : \E i \in DOMAIN v : v[i] # 0}}
  IN {v \in P \cup {NegV(v) : v \in P} : \A i \in DOMAIN Rs : Dot(v, Rs[i]) >= 0}
Grading(F, d) == FoldSet(LAMBDA v, acc : AddV(v, acc), [i \in 1..d |-> 0], F)

(* ------------------------------- placing -------------------------------- *)
(* T: set of d-element sets of indices into Rs *)
Side(Rs, F, x) == Sgn(Det([i \in 1..(Cardinality(F) + 1) |-> IF i <= Cardinality(F) THEN Rs[SetToSortSeq(F, <)[i]] ELSE x]))
Walls(T) == {F \in UNION {{S \ {i} : i \in S} : S \in T} : Cardinality({S \in T : F \subseteq S}) = 1}
PlaceOne(Rs, T, r) ==
  T \cup {F \cup {r} : F \in {F \in Walls(T) :
            LET S == CHOOSE S \in T : F \subseteq S
                i == CHOOSE i \in S : i \notin F
            IN Side(Rs, F, Rs[r]) * Side(Rs, F, Rs[i]) < 0}}
RECURSIVE PlaceAll(_, _, _)
PlaceAll(Rs, T, order) == IF order = <<>> THEN T ELSE PlaceAll(Rs, TLCEval(PlaceOne(Rs, T, Head(order))), Tail(order))
Placing(Rs, B) == PlaceAll(Rs, {{B[i] : i \in DOMAIN B}}, SetToSortSeq(DOMAIN Rs \ {B[i] : i \in DOMAIN B}, <))
(* volume of {x in the simplicial cone : g.x <= 1}, up to a constant factor *)
SimplexVolM(R, g, p) == LET W == FoldLeftDomain(LAMBDA acc, i : (acc * (Dot(g, R[i]) % p)) % p, 1, R) IN DivM(Abs(Det(R)), W, p)
Pick(Rs, S) == [i \in 1..Cardinality(S) |-> Rs[SetToSortSeq(S, <)[i]]]
VolM(Rs, T, g, p) == FoldSet(LAMBDA S, acc : (acc + SimplexVolM(Pick(Rs, S), g, p)) % p, 0, T)

(* -1 outside, 0 on the boundary, 1 inside the simplicial cone R (in R^d) *)
Where(R, x) ==
  LET s == Sgn(Det(R))
      c == TLCEval([k \in DOMAIN R |-> s * Sgn(Det([i \in DOMAIN R |-> IF i = k THEN x ELSE R[i]]))])
  IN IF \E k \in DOMAIN c : c[k] < 0 THEN -1 ELSE IF \E k \in DOMAIN c : c[k] = 0 THEN 0 ELSE 1
WhereF(F, x) == IF \E v \in F : Dot(v, x) < 0 THEN -1 ELSE IF \E v \in F : Dot(v, x) = 0 THEN 0 ELSE 1

(* x (in R^n) determined by its coordinates I: y * D = sum num_k ray_B[k] *)
InSpan(rays, f, x) ==
  LET R == [k \in 1..f.d |-> Coordinates(rays[f.B[k]], f.I)]
      D == Det(R)
      c == TLCEval(Coords(R, Coordinates(x, f.I)))
  IN \A j \in DOMAIN x : D * x[j] = FoldLeftDomain(LAMBDA acc, k : acc + c[k] * rays[f.B[k]][j], 0, R)
InCone(rays, f, F, x) == WhereF(F, Coordinates(x, f.I)) >= 0 /\ InSpan(rays, f, x)
(* the integer point of the span with these coordinates, <<>> if none *)
LiftPoint(rays, f, n, y) ==
  LET R == [k \in 1..f.d |-> Coordinates(rays[f.B[k]], f.I)]
      D == Det(R)
      c == TLCEval(Coords(R, y))
      v == TLCEval([j \in 1..n |-> FoldLeftDomain(LAMBDA acc, k : acc + c[k] * rays[f.B[k]][j], 0, R)])
  IN IF \E j \in 1..n : v[j] % Abs(D) # 0 THEN <<>> ELSE [j \in 1..n |-> (Sgn(D) * v[j]) \div Abs(D)]
(* integer points of the cone in the box around the sums of rays with        *)
(* coefficients in [0, 1]: they contain all irreducible integer points       *)
Zonotope(rays, f, F, n) ==
  LET Rs == [i \in DOMAIN rays |-> Primitive(rays[i])]
      lo == [k \in 1..f.d |-> FoldLeftDomain(LAMBDA acc, i : acc + Min2(0, Rs[i][f.I[k]]), 0, Rs)]
      hi == [k \in 1..f.d |-> FoldLeftDomain(LAMBDA acc, i : acc + Max2(0, Rs[i][f.I[k]]), 0, Rs)]
      Y == {y \in Box(lo, hi) : WhereF(F, y) >= 0 /\ \E k \in DOMAIN y : y[k] # 0}
  IN {LiftPoint(rays, f, n, y) : y \in Y} \ {<<>>}
ZonotopeSize(rays, I) ==
  LET Rs == [i \in DOMAIN rays |-> Primitive(rays[i])]
  IN FoldLeftDomain(LAMBDA acc, k : Min2(1000000, acc * (1 + FoldLeftDomain(LAMBDA a2, i : a2 + Abs(Rs[i][I[k]]), 0, Rs))), 1, I)
(* G generates the integer points X of the cone that are in the zonotope,    *)
(* hence all of them                                                         *)
NotGenerated(X, G, f, F) ==
  {x \in X \ G : \A g \in G : (\A i \in DOMAIN g : g[i] = 0) \/ WhereF(F, Coordinates(SubV(x, g), f.I)) < 0}
=============================================================================
