------------------------------- MODULE LattPoly -------------------------------
(* Polynomials: what a list of terms denotes, and the ways the integration    *)
(* library keeps and rewrites it.  A term is [num, den, forms, pows]: a       *)
(* rational times the product of the forms to the powers.                     *)
(*   - a burst trie (containers that become tries when they are full) keeps   *)
(*     the map from exponents to coefficients whatever is inserted (TSpec);   *)
(*   - a monomial equals its combination of powers of linear forms (DSpec).   *)
EXTENDS LattArith

(* ----------------------- the trie as it is stored ----------------------- *)
Bag(ts) == [kind |-> "bag", lo |-> 0, elems |-> <<>>, terms |-> ts]
Trie(lo, es) == [kind |-> "trie", lo |-> lo, elems |-> es, terms |-> <<>>]
(* exponents before exponents, lexicographically *)
RECURSIVE Before(_, _)
Before(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b))))
BagInsert(ts, e, c) ==
  IF \E i \in DOMAIN ts : ts[i].e = e
  THEN [i \in DOMAIN ts |-> IF ts[i].e = e THEN [e |-> e, c |-> ts[i].c + c] ELSE ts[i]]
  ELSE SelectSeq(ts, LAMBDA t : Before(t.e, e)) \o <<[e |-> e, c |-> c]>> \o SelectSeq(ts, LAMBDA t : Before(e, t.e))
Empties(k) == [i \in 1..k |-> Bag(<<>>)]
(* the range of the first exponent is extended by empty containers *)
Ranged(T, v) ==
  IF T.elems = <<>> THEN Trie(v, Empties(1))
  ELSE IF v < T.lo THEN Trie(v, Empties(T.lo - v) \o T.elems)
  ELSE IF v >= T.lo + Len(T.elems) THEN Trie(T.lo, T.elems \o Empties(v - T.lo - Len(T.elems) + 1))
  ELSE T
RECURSIVE Insert(_, _, _, _)
Insert(T0, e, c, burst) ==
  LET T == Ranged(T0, e[1])
      k == e[1] - T.lo + 1
      x == T.elems[k]
      y == IF x.kind = "trie" THEN Insert(x, Tail(e), c, burst)
           ELSE IF Len(x.terms) = burst /\ Len(e) > 1
           THEN Insert(FoldLeft(LAMBDA acc, t : Insert(acc, t.e, t.c, burst), Trie(0, <<>>), x.terms), Tail(e), c, burst)
           ELSE Bag(BagInsert(x.terms, Tail(e), c))
  IN Trie(T.lo, [T.elems EXCEPT ![k] = y])
(* the iterator: the terms in order, those that cancelled left out *)
RECURSIVE Listing(_, _)
Listing(x, pre) ==
  IF x.kind = "bag" THEN SelectSeq([i \in DOMAIN x.terms |-> [e |-> pre \o x.terms[i].e, c |-> x.terms[i].c]], LAMBDA t : t.c # 0)
  ELSE FoldLeftDomain(LAMBDA acc, i : acc \o Listing(x.elems[i], Append(pre, x.lo + i - 1)), <<>>, x.elems)

CONSTANTS Vars, Exps, MaxCoef, Burst, MaxTerms
Coefs == (-MaxCoef..MaxCoef) \ {0}
VARIABLES trie, poly, steps
TInit == trie = Trie(0, <<>>) /\ poly = [e \in [1..Vars -> Exps] |-> 0] /\ steps = 0
TNext ==
  /\ steps < MaxTerms /\ steps' = steps + 1
  /\ \E e \in [1..Vars -> Exps], c \in Coefs :
       trie' = Insert(trie, e, c, Burst) /\ poly' = [poly EXCEPT ![e] = @ + c]
TSpec == TInit /\ [][TNext]_<<trie, poly, steps>>
Stored == trie.elems # <<>> =>
  LET L == Listing(trie, <<>>)
  IN /\ \A i \in DOMAIN L : poly[L[i].e] = L[i].c
     /\ {L[i].e : i \in DOMAIN L} = {e \in DOMAIN poly : poly[e] # 0}
     /\ \A i \in 1..(Len(L) - 1) : Before(L[i].e, L[i + 1].e)

(* --------------------- monomials as powers of forms --------------------- *)
(* x^e = 1/d! sum_{0 # p <= e} (-1)^(d - |p|) prod binom(e, p) (p.x)^d,     *)
(* collected by primitive directions                                        *)
Below(e) == {p \in [DOMAIN e -> 0..(CHOOSE m \in {e[i] : i \in DOMAIN e} : \A i \in DOMAIN e : e[i] <= m)] :
                \A i \in DOMAIN e : p[i] <= e[i]}
Nonzero(p) == \E i \in DOMAIN p : p[i] # 0
Form(e, p) ==
  LET d == Sum(e) g == GcdSeq(p)
  IN [form |-> [i \in DOMAIN p |-> p[i] \div g], deg |-> d, gcd |-> g,
      coef |-> (IF (d - Sum(p)) % 2 = 1 THEN -1 ELSE 1) * FoldLeftDomain(LAMBDA acc, i : acc * Binom(e[i], p[i]), 1, p)]
DotI(a, x) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * x[i], 0, x)
(* d! x^e at the point x modulo q, by the combination *)
CombinedM(e, x, q) ==
  IF ~Nonzero(e) THEN 1
  ELSE FoldSet(LAMBDA p, acc : LET f == Form(e, p)
                               IN (acc + MulM(MulM(f.coef, PowM(f.gcd, f.deg, q), q), PowM(DotI(f.form, x), f.deg, q), q)) % q,
               0, {p \in Below(e) : Nonzero(p)})
(* TInit/TNext walk through the exponents: steps > 0 stands for a point     *)
DInit == trie = <<>> /\ steps = 0 /\ poly \in [1..Vars -> Exps]
DNext == steps < MaxTerms /\ steps' = steps + 1 /\ UNCHANGED poly /\ \E x \in [1..Vars -> Coefs] : trie' = x
DSpec == DInit /\ [][DNext]_<<trie, poly, steps>>
Decomposed == trie # <<>> =>
  \A q \in {PrimeSeq[1]} :
    CombinedM(poly, trie, q) = MulM(FactM(Sum(poly), q), ProdM([i \in DOMAIN trie |-> PowM(trie[i], poly[i], q)], q), q)
===============================================================================
