---------------------------- MODULE LattKnapsack ----------------------------
(* The denumerant of a list a of positive integers: the number of ways to     *)
(* write t as a nonnegative integer combination.  It is a quasi-polynomial of  *)
(* degree Len(a) - 1 whose period divides L = lcm(a); its coefficients on a    *)
(* residue class follow from Len(a) of its values.                            *)
EXTENDS LattArith

LcmSeq(s) == FoldLeft(LAMBDA x, y : Lcm(x, y), 1, s)
(* coins: one more part size k after another *)
AddPart(tab, k, m) ==
  FoldLeft(LAMBDA acc, t : IF t <= k THEN acc ELSE [acc EXCEPT ![t] = (@ + acc[t - k]) % m],
           tab, [t \in DOMAIN tab |-> t])
(* tab[t + 1]: the number of solutions for t, modulo m *)
Table(a, top, m) ==
  FoldLeft(LAMBDA tab, k : TLCEval(AddPart(tab, k, m)), TLCEval([t \in 1..(top + 1) |-> IF t = 1 THEN 1 ELSE 0]), a)

(* the coefficients (constant first) of the polynomial of degree < Len(v)      *)
(* through (t0 + (i-1) L, v[i]): divided differences, then Horner              *)
RECURSIVE Divided(_, _, _, _)
Divided(v, k, L, p) ==
  IF Len(v) = 0 THEN <<>>
  ELSE <<v[1]>> \o Divided(TLCEval([i \in 1..(Len(v) - 1) |-> DivM((v[i + 1] - v[i]) % p, k * L, p)]), k + 1, L, p)
TimesLin(c, s, p) ==        \* c(x) (x - s)
  [i \in 1..(Len(c) + 1) |-> ((IF i > 1 THEN c[i - 1] ELSE 0) - (IF i <= Len(c) THEN MulM(s, c[i], p) ELSE 0)) % p]
CoefsM(v, t0, L, p) ==
  LET d == TLCEval(Divided(v, 1, L, p))
      step(c, i) == TLCEval([TimesLin(c, t0 + (i - 1) * L, p) EXCEPT ![1] = (@ + d[i]) % p])
      all == FoldLeft(step, <<>>, [i \in 1..Len(d) |-> Len(d) + 1 - i])
  IN [i \in 1..Len(d) |-> all[i]]
(* the coefficient of t^e on the class of r modulo L: result[e + 1] *)
ClassCoefs(tab, a, L, r, p) == CoefsM([j \in 1..Len(a) |-> tab[r + (j - 1) * L + 1]], r, L, p)

(* The poles of prod 1/(1 - x^a_i) of order at least Len(a) - k are the roots  *)
(* of unity whose order divides that many a_i; the algorithm sums over the     *)
(* gcds f of large sublists with Moebius weights.                             *)
Gcds(a, k) == {GcdSeq([i \in 1..Len(a) |-> IF i \in s THEN a[i] ELSE 0]) : s \in {s \in SUBSET DOMAIN a : s # {} /\ Cardinality(s) >= Len(a) - k}}
RECURSIVE Mu(_, _)
Mu(G, f) == 1 - FoldSet(LAMBDA g, acc : acc + Mu(G, g), 0, {g \in G : g # f /\ g % f = 0})
PoleWeight(G, d) == FoldSet(LAMBDA g, acc : acc + Mu(G, g), 0, {g \in G : g % d = 0})
Order(a, d) == Cardinality({i \in DOMAIN a : a[i] % d = 0})
=============================================================================
