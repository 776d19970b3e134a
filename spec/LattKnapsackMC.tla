--------------------------- MODULE LattKnapsackMC ---------------------------
(* Every list of at most MaxLen parts of size at most MaxPart.                *)
EXTENDS LattKnapsack
CONSTANTS MaxLen, MaxPart
VARIABLES a
MInit == a \in {<<k>> : k \in 1..MaxPart}
MNext == \E k \in 1..MaxPart : Len(a) < MaxLen /\ k >= a[Len(a)] /\ a' = Append(a, k)
MSpec == MInit /\ [][MNext]_a
P == PrimeSeq[1]
Lc == LcmSeq(a)
Tab == TLCEval(Table(a, (Len(a) + 2) * Lc, P))
EvalPoly(c, t) == FoldRight(LAMBDA x, acc : (x + acc * t) % P, c, 0)
(* the coefficients found on each class describe the counts beyond the values  *)
(* used, and -t counts the positive solutions up to sign                      *)
QuasiPolynomial ==
  LET tab == Tab
      s == Sum(a)
  IN \A r \in 0..(Lc - 1) :
       LET c == TLCEval(ClassCoefs(tab, a, Lc, r, P))
       IN /\ \A j \in Len(a)..(Len(a) + 1) : EvalPoly(c, r + j * Lc) = tab[r + j * Lc + 1]
          /\ LET t == Lc - r + Lc
                 inner == IF t < s THEN 0 ELSE tab[t - s + 1]
             IN EvalPoly(c, (-t) % P) = ((IF Len(a) % 2 = 1 THEN 1 ELSE -1) * inner) % P
          /\ GcdSeq(a) = 1 => (c[Len(a)] * ProdM(a, P) * FactM(Len(a) - 1, P)) % P = 1 % P
(* the weights count every pole of large order once *)
PoleWeights ==
  \A k \in 0..(Len(a) - 1) :
    LET G == TLCEval(Gcds(a, k))
    IN \A d \in 1..MaxPart : PoleWeight(G, d) = (IF Order(a, d) >= Len(a) - k THEN 1 ELSE 0)
(* and so do those of any larger set of gcds closed under gcd; the coefficient *)
(* of t^(Len(a)-1-i) depends on the class modulo the gcds of Gcds(a, i) only   *)
Periods ==
  LET tab == Tab
      cs == TLCEval([r \in 0..(Lc - 1) |-> ClassCoefs(tab, a, Lc, r, P)])
  IN \A i \in 0..(Len(a) - 1) :
       LET m == FoldSet(LAMBDA g, acc : Lcm(g, acc), 1, Gcds(a, i))
       IN \A r \in 0..(Lc - 1) : cs[r][Len(a) - i] = cs[r % m][Len(a) - i]
=============================================================================
