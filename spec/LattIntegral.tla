----------------------------- MODULE LattIntegral -----------------------------
(* Volumes and integrals of polynomials over full-dimensional polytopes.      *)
(* A polytope is given by its rows and the sequence V of its vertices         *)
(* <<numerators, denominator>>; it is cut into simplices by pulling vertices, *)
(* and the integral of a product of powers of linear forms over a simplex is  *)
(* read off the series of 1/prod_i (1 - sum_j t_j l_j(s_i)).                  *)
EXTENDS LattGeom

Tight(rows, V, r) == {i \in DOMAIN V : ValQ(rows[r], V[i]) = 0}
Incidence(rows, V) == {Tight(rows, V, r) : r \in DOMAIN rows}
Facets(inc, F) ==
  LET C == {F \cap T : T \in inc} \ {F, {}}
  IN {G \in C : ~\E H \in C : G # H /\ G \subseteq H}
RECURSIVE Pull(_, _)
Pull(inc, F) ==
  LET v == Min(F)
      G == Facets(inc, F)
  IN IF Cardinality(F) = 1 THEN {F}
     ELSE UNION {{s \cup {v} : s \in Pull(inc, H)} : H \in {H \in G : v \notin H}}
Simplices(rows, V) == Pull(TLCEval(Incidence(rows, V)), DOMAIN V)

(* n! times the volume of a simplex is |Det| / product of denominators        *)
Lifted(V, s) == LET q == SetToSeq(s) IN [i \in DOMAIN q |-> <<V[q[i]][2]>> \o V[q[i]][1]]
SignedDet(V, s) == Det(Lifted(V, s))
DensM(V, s, p) == FoldSet(LAMBDA i, acc : (acc * V[i][2]) % p, 1, s)
WeightM(V, s, p) == DivM(Abs(SignedDet(V, s)), DensM(V, s, p), p)
(* vertices modulo p *)
PointsM(V, p) == [i \in DOMAIN V |-> [k \in DOMAIN V[i][1] |-> DivM(V[i][1][k], V[i][2], p)]]
DotM(a, x, p) == FoldLeftDomain(LAMBDA acc, i : (acc + MulM(a[i], x[i], p)) % p, 0, x)

(* the coefficient of t^m in 1/prod_i (1 - sum_j t_j L[i][j]), by multiplying *)
(* one factor at a time; multi-indices alpha <= m are numbered in mixed radix *)
Strides(m) == [j \in DOMAIN m |-> FoldLeft(LAMBDA acc, k : acc * (k + 1), 1, SubSeq(m, 1, j - 1))]
Size(m) == FoldLeft(LAMBDA acc, k : acc * (k + 1), 1, m)
Digit(m, st, a, j) == (a \div st[j]) % (m[j] + 1)
OneFactor(m, st, D, l, p) ==
  FoldLeft(LAMBDA acc, a :      \* a-1 is the index
     Append(acc, FoldLeftDomain(LAMBDA s, j : IF Digit(m, st, a - 1, j) > 0
                                              THEN (s + l[j] * acc[a - st[j]]) % p ELSE s, D[a], m)),
     <<>>, [a \in DOMAIN D |-> a])
MomentM(m, L, p) ==      \* L[i][j]: residue of form j at vertex i
  LET st == TLCEval(Strides(m))
      D0 == [a \in 1..Size(m) |-> IF a = 1 THEN 1 ELSE 0]
  IN FoldLeft(LAMBDA D, l : TLCEval(OneFactor(m, st, D, l, p)), D0, L)[Size(m)]
(* an integrand is a sequence of terms [coef, forms, pows]: a residue times   *)
(* the product of the forms to the powers; PM: vertices modulo p              *)
TermOverM(t, PM, s, p) ==
  MomentM(t.pows, [k \in DOMAIN SetToSeq(s) |-> [j \in DOMAIN t.forms |-> DotM(t.forms[j], PM[SetToSeq(s)[k]], p)]], p)
TermIntegralM(t, n, PM, simp, w, p) ==
  LET tot == FoldLeftDomain(LAMBDA acc, k : (acc + w[k] * TermOverM(t, PM, simp[k], p)) % p, 0, simp)
      c == ProdM([j \in DOMAIN t.pows |-> FactM(t.pows[j], p)], p)
  IN MulM(t.coef, DivM(MulM(c, tot, p), FactM(Sum(t.pows) + n, p), p), p)
IntegralM(terms, n, PM, simp, w, p) ==
  FoldLeft(LAMBDA acc, t : (acc + TermIntegralM(t, n, PM, simp, w, p)) % p, 0, terms)
VolumeM(n, w, p) == DivM(SumM(w, p), FactM(n, p), p)
(* the value of an integrand at a point *)
ValueM(terms, x, p) ==
  FoldLeft(LAMBDA acc, t :
     (acc + MulM(t.coef, ProdM([j \in DOMAIN t.forms |-> PowM(DotM(t.forms[j], x, p), t.pows[j], p)], p), p)) % p, 0, terms)
=============================================================================
