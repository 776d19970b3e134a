---------------------------- MODULE LattEhrhart ----------------------------
(* Ehrhart theory of a polytope P = {rows, lin} of dimension at most d whose *)
(* vertices become integral after multiplication by q: L(n), the number of   *)
(* integer points of n P, is a polynomial of degree <= d on every residue    *)
(* class of n modulo q, so L(0), .., L(q (d + 1) - 1) determine everything.  *)
EXTENDS LattGeom

CountDilation(rows, lin, lo, hi, k) == CountBT(DilateRows(rows, k), lin, DilateBox(lo, k), DilateBox(hi, k))
LTable(rows, lin, lo, hi, d, q) == [k \in 1..(q * (d + 1)) |-> CountDilation(rows, lin, lo, hi, k - 1)]
(* L(n) modulo p *)
LAtM(L, d, q, n, p) == InterpM([m \in 1..(d + 1) |-> L[1 + (n % q) + q * (m - 1)]], n \div q, p)
(* sum_n L(n) t^n = N(t) / (1 - t^q)^(d+1) with deg N < q (d + 1) *)
SeriesNumerator(L, d, q, p) ==
  [k \in 1..Len(L) |->
     FoldLeft(LAMBDA acc, i : IF k - q * (i - 1) < 1 THEN acc
                              ELSE (acc + (IF i % 2 = 1 THEN 1 ELSE -1) * MulM(Binom(d + 1, i - 1), L[k - q * (i - 1)], p)) % p,
              0, [i \in 1..(d + 2) |-> i])]
EvalPolyM(cs, t, p) == FoldRight(LAMBDA c, acc : (c + acc * t) % p, cs, 0)
SeriesAtM(L, d, q, t, p) ==
  LET den == PowM((1 - PowM(t, q, p)) % p, d + 1, p)
  IN IF den = 0 THEN Assert(FALSE, "pole") ELSE DivM(EvalPolyM(SeriesNumerator(L, d, q, p), t, p), den, p)

(* A straight-line program over the residues modulo PrimeSeq[j]: every node  *)
(* refers to earlier ones; the last is the result.                           *)
RunM(prog, t, j) ==
  LET p == PrimeSeq[j]
      step(st, op) ==
        Append(st,
          CASE op.o = "n" -> op.v[j]
            [] op.o = "t" -> PowM(t, op.v[j], p)
            [] op.o = "+" -> (st[op.a] + st[op.b]) % p
            [] op.o = "-" -> (st[op.a] - st[op.b]) % p
            [] op.o = "*" -> (st[op.a] * st[op.b]) % p
            [] op.o = "/" -> IF st[op.b] = 0 THEN Assert(FALSE, "division by zero") ELSE DivM(st[op.a], st[op.b], p)
            [] op.o = "^" -> PowM(st[op.a], op.v[j], p)
            [] op.o = "=" -> st[op.a])
      all == FoldLeft(step, <<>>, prog)
  IN all[Len(all)]
=============================================================================
