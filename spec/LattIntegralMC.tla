---------------------------- MODULE LattIntegralMC ----------------------------
(* The definition of LattIntegral is confronted with the summation of the     *)
(* integrand over the integer points of dilations: for an integral polytope P *)
(* and a homogeneous f of degree D, S(k) = sum of f over kP is a polynomial   *)
(* in k of degree n+D with leading coefficient the integral of f over P, so   *)
(* its (n+D)-th difference is (n+D)! times the integral.                      *)
EXTENDS LattIntegral, LattBuild
VARIABLES inst, fuel
mvars == <<dim, rows, lin, pts, ops, inst, fuel>>
R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
BoxOf(lo, w) == [rows |-> BoxRows(lo, AddV(lo, w)), lo |-> lo, hi |-> AddV(lo, w)]
CrossOf(n) == LET S == SetToSeq([1..n -> {-1, 1}])
              IN [rows |-> [i \in DOMAIN S |-> <<1>> \o [j \in 1..n |-> S[i][j]]], lo |-> [i \in 1..n |-> -1], hi |-> [i \in 1..n |-> 1]]
ChainOf(n, k) ==        \* 0 <= x1 <= .. <= xn <= k
  [rows |-> <<UnitRow(n, 1, 0, 1)>> \o [i \in 1..(n - 1) |-> <<0>> \o [j \in 1..n |-> IF j = i THEN -1 ELSE IF j = i + 1 THEN 1 ELSE 0]]
            \o <<UnitRow(n, n, k, -1)>>, lo |-> [i \in 1..n |-> 0], hi |-> [i \in 1..n |-> k]]
Draw(n) == \E k \in {R(1..4)}, u \in {R(1..2)}, lo \in {Vec(n, -1..0)}, w \in {Vec(n, 1..2)}, D \in {R(0..3)}, f \in {R(1..2)} :
           \E forms \in {[i \in 1..f |-> Vec(n, -2..2)]}, e \in {R(0..D)} :
             inst' = [n |-> n, D |-> D, forms |-> forms, pows |-> IF f = 1 THEN <<D>> ELSE <<e, D - e>>,
                      P |-> IF k = 1 THEN CrossOf(n) ELSE IF k = 2 THEN ChainOf(n, u) ELSE BoxOf(lo, w)]
MInit == Init /\ inst = <<>> /\ fuel = 1
MNext ==
  /\ fuel = 1 /\ fuel' = 0 /\ UNCHANGED vars
  /\ \E n \in {R(1..3)} : Draw(n)
MSpec == MInit /\ [][MNext]_mvars
PathsAgree ==
  inst # <<>> =>
    LET n == inst.n p == PrimeSeq[1] rs == inst.P.rows
        V == TLCEval(SetToSeq(Vertices(rs, {})))
        simp == TLCEval(SetToSeq(Simplices(rs, V)))
        w == TLCEval([i \in DOMAIN simp |-> WeightM(V, simp[i], p)])
        t == <<[coef |-> 1, forms |-> inst.forms, pows |-> inst.pows]>>
        S(k) == FoldSet(LAMBDA x, acc : (acc + ValueM(t, x, p)) % p, 0,
                        PointsBT(DilateRows(rs, k), {}, DilateBox(inst.P.lo, k), DilateBox(inst.P.hi, k)))
        vals == TLCEval([k \in 1..(n + inst.D + 1) |-> S(k - 1)])
    IN /\ \A i \in DOMAIN simp : Cardinality(simp[i]) = n + 1 /\ SignedDet(V, simp[i]) # 0
       /\ DiffM(vals, p) = MulM(FactM(n + inst.D, p), IntegralM(t, n, PointsM(V, p), simp, w, p), p)
       /\ inst.D = 0 => VolumeM(n, w, p) = DivM(DiffM(vals, p), FactM(n, p), p)
=============================================================================
