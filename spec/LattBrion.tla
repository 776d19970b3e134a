------------------------------ MODULE LattBrion ------------------------------
(* The identity the whole method rests on, checked on the specification      *)
(* itself: the generating functions of the vertex cones of a simplex sum up  *)
(* to that of its integer points (Brion), also when each vertex is moved     *)
(* without changing the integer points of its cone, and replacing a ray by   *)
(* any other vector keeps the function of a simplicial cone modulo cones     *)
(* with lines, up to sign, in the dual (Barvinok's decomposition step).      *)
EXTENDS LattSimplicial
VARIABLE zz
bvars == <<dim, rows, lin, pts, ops, inst, fuel, zz>>
(* vertex i of a simplex with integer vertices: rays to the others *)
VertexRays(vs, i) == TLCEval([k \in 1..(Len(vs) - 1) |-> Primitive(SubV(vs[IF k < i THEN k ELSE k + 1], vs[i]))])
BInit == Init /\ inst = <<>> /\ fuel = 1 /\ zz = <<>>
BNext ==
  /\ fuel = 1 /\ fuel' = 0 /\ UNCHANGED vars
  /\ \E n \in {R(1..MaxN)} : \E w \in {IF n <= 2 THEN 5 ELSE IF n = 3 THEN 3 ELSE 2} :
     \E vs \in {[i \in 1..(n + 1) |-> Vec(n, -w..w)]}, z \in {Vec(n, 2..46000)}, y \in {Vec(n, -w..w)} :
        /\ NonDegenerate(vs) /\ inst' = [vs |-> vs, n |-> n, y |-> y] /\ zz' = z
BSpec == BInit /\ [][BNext]_bvars
Simplex(vs) == LET lo == [i \in DOMAIN vs[1] |-> FoldLeft(LAMBDA a, v : Min2(a, v[i]), vs[1][i], vs)]
                   hi == [i \in DOMAIN vs[1] |-> FoldLeft(LAMBDA a, v : Max2(a, v[i]), vs[1][i], vs)]
               IN {x \in Box(lo, hi) : Sat(SimplexRows(vs), {}, x)}
(* no pole at zz, and a parallelepiped that is quickly enumerated *)
Extent(rs) == FoldLeftDomain(LAMBDA acc, i : acc * (1 + FoldLeft(LAMBDA a, r : a + Abs(r[i]), 0, rs)), 1, rs[1])
NoPole(rs, p) == DenominatorM(zz, rs, p) # 0 /\ Extent(rs) <= 2500
ConeTerm(rs, v, p) == TermM(zz, 1, SetToSeq(ParallelepipedPoints(rs, v, 1)), rs, p)
Brion ==
  inst # <<>> =>
    LET vs == inst.vs   p == PrimeSeq[1]
    IN (\A i \in DOMAIN vs : NoPole(VertexRays(vs, i), p)) =>
        SumOfMonomialsM(zz, SetToSeq(Simplex(vs)), p)
          = FoldLeftDomain(LAMBDA acc, i : (acc + ConeTerm(VertexRays(vs, i), vs[i], p)) % p, 0, vs)
(* Barvinok's step in the dual: the cone K with facet normals F (rows,       *)
(* inward) equals, modulo cones with lines, the signed sum of the cones with *)
(* the k-th normal replaced by y, if y is in general position.               *)
DualCone(F) == LET n == Len(F)
                   d == Det(F)
                   unit(i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
                   co(i) == Coords(F, unit(i))
                   ray(k) == Primitive(ScaleV(Sgn(d), [i \in 1..n |-> co(i)[k]]))
               IN TLCEval([k \in 1..n |-> ray(k)])
Replaced(F, k, y) == TLCEval([i \in DOMAIN F |-> IF i = k THEN y ELSE F[i]])
BarvinokStep ==
  inst # <<>> =>
    LET n == inst.n   p == PrimeSeq[1]   y == inst.y
        F == VertexRays(inst.vs, 1)
        reg == {k \in 1..n : Det(Replaced(F, k, y)) # 0}
        o == [i \in 1..n |-> 0]
    IN (/\ reg # {} /\ GcdSeq(y) > 0
        (* y must not make all coefficients negative: then the pieces cover the opposite cone *)
        /\ \E k \in 1..n : Det(Replaced(F, k, y)) * Det(F) > 0
        /\ NoPole(DualCone(F), p) /\ \A k \in reg : NoPole(DualCone(Replaced(F, k, Primitive(y))), p)) =>
       ConeTerm(DualCone(F), o, p)
         = FoldSet(LAMBDA k, acc : (acc + Sgn(Det(F)) * Sgn(Det(Replaced(F, k, y)))
                                       * ConeTerm(DualCone(Replaced(F, k, Primitive(y))), o, p)) % p, 0, reg)
=============================================================================
