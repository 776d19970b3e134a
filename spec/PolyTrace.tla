------------------------------ MODULE PolyTrace ------------------------------
(* Judges what the integration library does with polynomials.  A case: items  *)
(* [n, left, right, simplex, low, high, at] (polynomials; terms have residues *)
(* of the coefficient, forms, pows; at: a point modulo each prime) and runs   *)
(* [item, what, rc, must, got, list, answers]: "value" lists a polynomial     *)
(* equal to left, "product" one equal to left * right, "window" the terms of  *)
(* that product between low and high, "integral" answers [num, den], the      *)
(* integral of left over the simplex.                                         *)
EXTENDS LattTraceFile, LattIntegral
VARIABLES case, pos, abs, status

Terms(ts, j) == [i \in DOMAIN ts |-> [coef |-> ts[i].coef[j], forms |-> ts[i].forms, pows |-> ts[i].pows]]
At(ts, x, j) == ValueM(Terms(ts, j), x[j], PrimeSeq[j])
Within(e, low, high) == \A k \in DOMAIN e : low[k] <= e[k] /\ e[k] <= high[k]
PowersM(e, x, p) == ProdM([k \in DOMAIN e |-> PowM(x[k], e[k], p)], p)
WindowM(it, j) ==
  LET p == PrimeSeq[j]
      inner(t, acc) == FoldLeft(LAMBDA a, u :
         LET e == [k \in DOMAIN t.pows |-> t.pows[k] + u.pows[k]]
         IN IF Within(e, it.low, it.high) THEN (a + MulM(MulM(t.coef[j], u.coef[j], p), PowersM(e, it.at[j], p), p)) % p ELSE a,
         acc, it.right)
  IN FoldLeft(LAMBDA acc, t : inner(t, acc), 0, it.left)
SimplexIntegralM(it, j) ==
  LET p == PrimeSeq[j]
      V == [i \in DOMAIN it.simplex |-> <<it.simplex[i], 1>>]
      s == DOMAIN it.simplex
  IN IntegralM(Terms(it.left, j), it.n, TLCEval(PointsM(V, p)), <<s>>, <<Abs(it.det) % p>>, p)
Want(it, what, j) ==
  CASE what = "value" -> At(it.left, it.at, j)
    [] what = "right" -> At(it.right, it.at, j)
    [] what = "product" -> MulM(At(it.left, it.at, j), At(it.right, it.at, j), PrimeSeq[j])
    [] what = "window" -> WindowM(it, j)
    [] what = "integral" -> SimplexIntegralM(it, j)
P(c) == [i \in DOMAIN c.items |->
          [w \in {c.runs[k].what : k \in {k \in DOMAIN c.runs : c.runs[k].item = i}} |->
             TLCEval([j \in DOMAIN PrimeSeq |-> Want(c.items[i], w, j)])]]
Is(answer, v) == \A j \in DOMAIN PrimeSeq : answer.den[j] # 0 /\ MulM(answer.den[j], v[j], PrimeSeq[j]) = answer.num[j]
E(c) == c.runs
S(c, a, ev) ==
  LET v == a[ev.item][ev.what]
  IN IF ~ev.got THEN (IF ev.must THEN "no answer (" \o ev.rc \o ")" ELSE "")
     ELSE IF ev.what = "integral"
     THEN (IF \A i \in DOMAIN ev.answers : Is(ev.answers[i], v) THEN "" ELSE "a wrong integral")
     ELSE IF \A j \in DOMAIN PrimeSeq : At(ev.list, c.items[ev.item].at, j) = v[j] THEN ""
     ELSE "another polynomial"
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
==============================================================================
