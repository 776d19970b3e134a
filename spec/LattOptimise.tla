---------------------------- MODULE LattOptimise ----------------------------
(* Optimisation of a linear objective over the integer points of a            *)
(* polyhedron: the optimum, and the number of points that attain it.          *)
EXTENDS LattGeom

(* results are <<number of optimal points, value>> (<<0, 0>>: no point)       *)
Better(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] > b[2] THEN a ELSE IF b[2] > a[2] THEN b ELSE <<a[1] + b[1], a[2]>>
RECURSIVE OptFrom(_, _, _, _, _, _, _, _, _, _)
OptFrom(rows, lin, cost, got, v, k, lo, hi, up, dn) ==
  LET r == NextRange(rows, lin, v, k, lo, hi, up, dn)
  IN IF r[1] > r[2] THEN <<0, 0>>
     ELSE IF k = Len(lo)
          THEN IF cost[k] = 0 THEN <<r[2] - r[1] + 1, got>>
               ELSE <<1, got + cost[k] * (IF cost[k] > 0 THEN r[2] ELSE r[1])>>
     ELSE FoldLeft(LAMBDA acc, x :
                     Better(acc, OptFrom(rows, lin, cost, got + cost[k] * x,
                                         TLCEval([i \in DOMAIN rows |-> v[i] + rows[i][k + 1] * x]), k + 1, lo, hi, up, dn)),
                   <<0, 0>>, [x \in 1..(r[2] - r[1] + 1) |-> r[1] + x - 1])
Optimum(rows, lin, cost, lo, hi) ==
  IF \E i \in DOMAIN lo : lo[i] > hi[i] THEN <<0, 0>>
  ELSE OptFrom(rows, lin, cost, 0, TLCEval([i \in DOMAIN rows |-> rows[i][1]]), 1, TLCEval(lo), TLCEval(hi),
               TLCEval(RemTable(rows, lo, hi, Most)), TLCEval(RemTable(rows, lo, hi, Least)))
OptimumOf(points, cost) ==
  FoldSet(LAMBDA x, acc : Better(acc, <<1, Dot(cost, x)>>), <<0, 0>>, points)
=============================================================================
