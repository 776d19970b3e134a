------------------------------ MODULE LattCone ------------------------------
(* Signed simplicial cones and their generating functions.  A cone is a      *)
(* record [coef, vertex, rays, pts, ..]; the generating function of          *)
(*    vertex + cone(rays),  pts the integer points of the half-open          *)
(* parallelepiped, is   coef * sum_p z^p / prod_r (1 - z^r).                  *)
(* Identities between such rational functions are decided by evaluating them *)
(* at random points modulo several primes (exponents count modulo p - 1).    *)
EXTENDS LattGeom

(* z: residues modulo p, non-zero;  e: exponents, of any size below 2^31     *)
MonomialM(z, e, p) == FoldLeftDomain(LAMBDA acc, i : (acc * PowM(z[i], e[i] % (p - 1), p)) % p, 1, e)
SumOfMonomialsM(z, es, p) == FoldLeftDomain(LAMBDA acc, k : (acc + MonomialM(z, es[k], p)) % p, 0, es)
DenominatorM(z, rays, p) == FoldLeftDomain(LAMBDA acc, k : (acc * ((1 - MonomialM(z, rays[k], p)) % p)) % p, 1, rays)
(* rs, ps: rays and points (exponents modulo p - 1 suffice) *)
TermM(z, coef, ps, rs, p) ==
  LET d == DenominatorM(z, rs, p)
  IN IF d = 0 THEN Assert(FALSE, "evaluation at a pole") ELSE MulM(coef, DivM(SumOfMonomialsM(z, ps, p), d, p), p)

(* --------------------------- linear algebra ---------------------------- *)
(* rays are the rows of R;  x = sum lambda_k R_k,  lambda = x adj(R) / det   *)
Coords(R, x) == [k \in DOMAIN R |-> Det([i \in DOMAIN R |-> IF i = k THEN x ELSE R[i]])]   \* times det(R)

(* the points are those of the half-open parallelepiped at vnum/vden:        *)
(* vden x - vnum has coordinates in [0, vden) with respect to the rays       *)
InParallelepiped(R, vnum, vden, x) ==
  LET d == Det(R)
      c == TLCEval(Coords(R, [i \in DOMAIN x |-> vden * x[i] - vnum[i]]))
      s == Sgn(d)
  IN \A k \in DOMAIN c : s * c[k] >= 0 /\ s * c[k] < Abs(d) * vden
(* x and y agree modulo the lattice spanned by the rays *)
Congruent(R, x, y) ==
  LET d == Det(R)
      c == Coords(R, SubV(x, y))
  IN \A k \in DOMAIN c : c[k] % Abs(d) = 0

(* all integer points of the half-open parallelepiped, by enumeration *)
Corner(R, vnum, vden, i, F(_, _), G(_, _)) ==
  FoldLeftDomain(LAMBDA acc, k : acc + F(0, R[k][i]), G(vnum[i], vden), R)
ParallelepipedPoints(R, vnum, vden) ==
  LET n == Len(R)
      lo == [i \in 1..n |-> Corner(R, vnum, vden, i, Min2, FloorDiv)]
      hi == [i \in 1..n |-> Corner(R, vnum, vden, i, Max2, CeilDiv)]
  IN {x \in Box(lo, hi) : InParallelepiped(R, vnum, vden, x)}

(* ------------------------------ lattices -------------------------------- *)
(* n x k matrix B (rows B[i]): the columns are a basis of the integer points *)
(* of their span iff the k x k minors have greatest common divisor 1         *)
RowSets(n, k) == kSubset(k, 1..n)
SubRows(B, S) == LET s == SetToSortSeq(S, <) IN [i \in DOMAIN s |-> B[s[i]]]
MinorsGcd(B, k) == FoldSet(LAMBDA S, acc : Gcd(acc, Det(SubRows(B, S))), 0, RowSets(Len(B), k))
Apply(B, origin, y) == [i \in DOMAIN B |-> origin[i] + Dot(B[i], y)]
(* integer y with origin + B y = x, <<>> if there is none (S: rows of a      *)
(* regular k x k submatrix)                                                  *)
Preimage(B, origin, S, x) ==
  LET s == SetToSortSeq(S, <)
      m == [i \in DOMAIN s |-> B[s[i]]]
      r == [i \in DOMAIN s |-> x[s[i]] - origin[s[i]]]
      d == Det(m)
      num == TLCEval([j \in DOMAIN s |-> Det(ReplaceCol(m, j, r))])
  IN IF \E j \in DOMAIN s : num[j] % Abs(d) # 0 THEN <<>>
     ELSE LET y == TLCEval([j \in DOMAIN s |-> (Sgn(d) * num[j]) \div Abs(d)])
          IN IF Apply(B, origin, y) = x THEN y ELSE <<>>
(* a row <<b, a>> read in the new coordinates *)
PullBack(row, B, origin, k) ==
  <<row[1] + Dot(Tail(row), origin)>> \o [j \in 1..k |-> FoldLeftDomain(LAMBDA acc, i : acc + row[i + 1] * B[i][j], 0, B)]

(* edge directions at the vertex q of {rows, lin}: primitive d # 0 with      *)
(* n - 1 independent tight rows orthogonal to d, all tight rows nonnegative  *)
TightRows(rows, q) == {r \in DOMAIN rows : ValQ(rows[r], q) = 0}
Kernel1(m, n) ==    \* m: n-1 rows of length n; the vector of signed minors
  [j \in 1..n |-> (IF j % 2 = 1 THEN 1 ELSE -1) * Det([i \in 1..(n - 1) |-> DropAt(m[i], j)])]
EdgeDirections(rows, lin, q) ==
  LET n == Len(rows[1]) - 1
      tight == TLCEval(TightRows(rows, q))
      cand == UNION {LET s == SetToSeq(S)
                         d == Primitive(Kernel1([i \in 1..(n - 1) |-> Tail(rows[s[i]])], n))
                     IN {d, NegV(d)} : S \in kSubset(n - 1, tight)}
      ok(d) == (\E i \in DOMAIN d : d[i] # 0)
               /\ \A r \in tight : LET v == Dot(Tail(rows[r]), d) IN IF r \in lin THEN v = 0 ELSE v >= 0
  IN {d \in cand : ok(d)}
=============================================================================
