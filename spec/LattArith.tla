----------------------------- MODULE LattArith -----------------------------
(* Integer and modular arithmetic used by all LattE specifications.         *)
(* TLC integers are 32 bit (with overflow detection), so exact identities   *)
(* between large rational numbers are decided modulo the primes Primes; all *)
(* residues and products of residues stay below 2^31.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Folds, Functions, SequencesExt, FiniteSetsExt

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div Gcd(a, b)) * Abs(b)
GcdSeq(s) == FoldLeft(LAMBDA x, y : Gcd(x, y), 0, s)

(* \div rounds towards minus infinity for a positive divisor *)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
CeilDiv(a, b) == -FloorDiv(-a, b)

RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN 1 ELSE a * Power(a, k - 1)

RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k - 1)

Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
RECURSIVE SumUpTo(_, _)
SumUpTo(F(_), k) == IF k = 0 THEN 0 ELSE SumUpTo(F, k - 1) + F(k)

(* ------------------------------ modulo p ------------------------------- *)
(* primes below 46341, so that a product of two residues fits in 31 bits *)
PrimeSeq == <<46337, 46327, 46309>>
Mod(a, p) == a % p                 \* TLC: result in 0..p-1 for p > 0
AddM(a, b, p) == (a + b) % p
SubM(a, b, p) == (a - b) % p
MulM(a, b, p) == ((a % p) * (b % p)) % p
RECURSIVE PowM(_, _, _)
PowM(a, k, p) ==
  IF k = 0 THEN 1
  ELSE LET h == PowM(a, k \div 2, p)
           q == (h * h) % p
       IN IF k % 2 = 1 THEN (q * (a % p)) % p ELSE q
InvM(a, p) == PowM(a % p, p - 2, p)      \* a not divisible by p
DivM(a, b, p) == MulM(a, InvM(b, p), p)
(* a^k for any integer k, a invertible *)
PowZM(a, k, p) == PowM(a, k % (p - 1), p)

SumM(s, p) == FoldLeft(LAMBDA x, y : (x + y) % p, 0, s)
ProdM(s, p) == FoldLeft(LAMBDA x, y : (x * (y % p)) % p, 1, s)

RECURSIVE FactM(_, _)
FactM(k, p) == IF k <= 1 THEN 1 ELSE (k * FactM(k - 1, p)) % p

(* binomial coefficients as a table built row by row (small arguments) *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1
               ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
BinomM(n, k, p) == DivM(FactM(n, p), MulM(FactM(k, p), FactM(n - k, p), p), p)

(* d-th finite difference at 0 of the values v[1..d+1] = f(0), .., f(d):    *)
(* for a polynomial f of degree d with leading coefficient c it is d! * c.  *)
RECURSIVE DiffM(_, _)
DiffM(v, p) ==
  IF Len(v) = 1 THEN v[1] % p
  ELSE DiffM(TLCEval([i \in 1..(Len(v) - 1) |-> (v[i + 1] - v[i]) % p]), p)

(* value at t of the polynomial of degree <= Len(v)-1 with f(i) = v[i+1]    *)
(* (Newton's forward formula, t a residue)                                  *)
RECURSIVE NewtonM(_, _, _, _, _)
NewtonM(v, t, k, c, p) ==     \* c = binomial(t, k) mod p
  IF Len(v) = 0 THEN 0
  ELSE (MulM(v[1], c, p)
        + NewtonM(TLCEval([i \in 1..(Len(v) - 1) |-> (v[i + 1] - v[i]) % p]), t, k + 1,
                  MulM(c, DivM((t - k) % p, k + 1, p), p), p)) % p
InterpM(v, t, p) == NewtonM(TLCEval(v), t % p, 0, 1, p)
=============================================================================
