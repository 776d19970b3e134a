------------------------------ MODULE LattSaved ------------------------------
(* A run of LattE spread over several programs and days: vertex cones are    *)
(* computed and saved to a file, read and saved again, the file is split     *)
(* into parts, parts are joined, their coefficients negated, and counting or *)
(* writing the generating function is resumed from any of the files.         *)
(*                                                                           *)
(* A file is what part of the list of cones it holds: the cones fall into    *)
(* Classes classes (by their rank in the file first computed), part[r] is    *)
(* the sum of the coefficients, relative to the first file, of the cones of  *)
(* class r.  The dual list (homogenized, "dual") can be subdivided, which    *)
(* keeps the function it stands for.                                         *)
EXTENDS LattArith, Json
CONSTANTS Classes, MaxFiles, MaxSteps, Bound, Duals
VARIABLES plan, files, fuel
svars == <<plan, files, fuel>>
Cl == 1..Classes
Whole == [r \in Cl |-> 1]
Zero == [r \in Cl |-> 0]
Small(p) == \A r \in Cl : Abs(p[r]) <= Bound
File(k, p) == [kind |-> k, part |-> p]
Step(op, src, set, p) == [op |-> op, src |-> src, set |-> set, part |-> p]
New(op, src, set, k, p) ==
  /\ Len(files) < MaxFiles /\ Small(p)
  /\ files' = Append(files, File(k, p)) /\ plan' = Append(plan, Step(op, src, set, p))
SInit == plan = <<>> /\ files = <<>> /\ fuel = MaxSteps
(* programs *)
Compute(k) == files = <<>> /\ New("compute", <<>>, IF k = "dual" THEN <<1>> ELSE <<0>>, k, Whole)
Copy(i) == New("copy", <<i>>, <<>>, files[i].kind, files[i].part)
Subdivide(i) == files[i].kind = "dual" /\ files[i].part = Whole /\ New("subdivide", <<i>>, <<>>, "pieces", Whole)
(* the user *)
Take(i, S) == /\ files[i].kind # "pieces" /\ S # {}
              /\ New("take", <<i>>, SetToSortSeq(S, <), files[i].kind, [r \in Cl |-> IF r \in S THEN files[i].part[r] ELSE 0])
Join(i, j) == /\ files[i].kind = files[j].kind /\ files[i].kind # "pieces"
              /\ New("join", <<i, j>>, <<>>, files[i].kind, [r \in Cl |-> files[i].part[r] + files[j].part[r]])
Negate(i) == /\ files[i].kind = "vertex"
             /\ New("negate", <<i>>, <<>>, files[i].kind, [r \in Cl |-> -files[i].part[r]])
Shuffle(i) == New("shuffle", <<i>>, <<>>, files[i].kind, files[i].part)
(* results *)
CanCount(i) == files[i].part = Whole
Count(i) == CanCount(i) /\ plan' = Append(plan, Step("count", <<i>>, <<>>, files[i].part)) /\ UNCHANGED files
GF(i) == files[i].kind = "vertex" /\ plan' = Append(plan, Step("gf", <<i>>, <<>>, files[i].part)) /\ UNCHANGED files
Fs == DOMAIN files
SNext == /\ fuel > 0 /\ fuel' = fuel - 1
         /\ \/ Compute("vertex") \/ (Duals /\ Compute("dual"))
            \/ \E i \in Fs : Copy(i) \/ Subdivide(i) \/ Negate(i) \/ Shuffle(i) \/ Count(i) \/ GF(i)
            \/ \E i \in Fs : \E S \in SUBSET Cl : Take(i, S)
            \/ \E i, j \in Fs : Join(i, j)
SSpec == SInit /\ [][SNext]_svars

(* ---- what the files stand for: the triangle with corners 0, b e1, b e2 - *)
b == 4
p0 == PrimeSeq[1]
z1 == 1234
z2 == 40961
Pw(x, k) == PowM(x, k, p0)
Geo(m, r, s) == DivM(m, MulM(SubM(1, r, p0), SubM(1, s, p0), p0), p0)      \* m / (1-r)(1-s)
Term(r) ==
  CASE r = 1 -> Geo(1, z1, z2)
    [] r = 2 -> Geo(Pw(z1, b), InvM(z1, p0), MulM(z2, InvM(z1, p0), p0))
    [] r = 3 -> Geo(Pw(z2, b), InvM(z2, p0), MulM(z1, InvM(z2, p0), p0))
Value(p) == FoldLeftDomain(LAMBDA acc, r : (acc + MulM(p[r], Term(r), p0)) % p0, 0, [r \in Cl |-> p[r]])
TrianglePoints == FoldSet(LAMBDA x, acc : (acc + FoldSet(LAMBDA y, a : (a + MulM(Pw(z1, x), Pw(z2, y), p0)) % p0, 0, 0..(b - x))) % p0, 0, 0..b)
(* whatever was done, a file from which counting can be resumed stands for   *)
(* the polytope, and so do any two files that complement each other          *)
Resumable == \A i \in Fs : files[i].part = Whole => Value(files[i].part) = TrianglePoints
Complement == \A i, j \in Fs : (\A r \in Cl : files[i].part[r] + files[j].part[r] = 1) =>
                  (Value(files[i].part) + Value(files[j].part)) % p0 = TrianglePoints
SplitKeeps == \A k \in DOMAIN plan : plan[k].op = "take" =>
                \A r \in Cl : plan[k].part[r] # 0 => \E q \in DOMAIN plan[k].set : plan[k].set[q] = r
CountsAreWhole == \A k \in DOMAIN plan : plan[k].op = "count" => plan[k].part = Whole

(* ---- histories to be replayed ---- *)
RE(S) == RandomElement(S)
GNext ==
  /\ fuel > 0 /\ fuel' = fuel - 1
  /\ IF files = <<>> THEN \E k \in {RE(IF Duals THEN {"dual"} ELSE {"vertex"})} : Compute(k)
     ELSE \E w \in {RE(1..20)}, i \in {RE(Fs)}, j \in {RE(Fs)}, S \in {RE((SUBSET Cl) \ {{}})} :
          \E h \in {RE({x \in Fs : CanCount(x)})} :
            LET n == Len(files) < MaxFiles
                d == files[1].kind = "dual"
            IN IF w <= 3 /\ n THEN Copy(i)
               ELSE IF w <= 6 /\ n /\ ~d THEN Take(h, S)
               ELSE IF w <= 6 /\ n /\ d THEN Subdivide(1)
               ELSE IF w = 7 /\ n /\ ~d /\ Small([r \in Cl |-> files[i].part[r] + files[j].part[r]]) THEN Join(i, j)
               ELSE IF w = 8 /\ n /\ ~d THEN Negate(i)
               ELSE IF w <= 10 /\ n /\ \E x \in Fs : files[x].part # Whole /\ files[x].kind = "vertex"
               THEN LET x == CHOOSE x \in Fs : files[x].part # Whole      \* the rest of a part
                        q == [r \in Cl |-> 1 - files[x].part[r]]
                    IN IF Small(q) THEN New("rest", <<1, x>>, <<>>, "vertex", q) ELSE Shuffle(i)
               ELSE IF w = 11 /\ n THEN Shuffle(i)
               ELSE IF w <= 15 THEN Count(h)
               ELSE IF d THEN Count(h) ELSE GF(i)
  /\ (fuel' = 0 => PrintT("CASE " \o ToJson([plan |-> plan'])))
GSpec == SInit /\ [][GNext]_svars
=============================================================================
