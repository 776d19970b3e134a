----------------------------- MODULE LattReader -----------------------------
(* The input files of LattE as sequences of tokens and the readers of these   *)
(* files as machines, which take one token at a time.  A file is well formed  *)
(* when its reader has arrived in a final state at its end.                   *)
(*                                                                            *)
(* A token is [t, v, d, s]: t its type (int, frac, real, word, punct), v the  *)
(* value of an integer or the numerator, d the denominator, s the text.       *)
(* A state is [pc, m, n, left, bound, open]; open says that what was read is  *)
(* not settled by the documentation (so that nothing is demanded).            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

I(v) == [t |-> "int", v |-> v, d |-> 1, s |-> ToString(v)]
Q(v, d) == [t |-> "frac", v |-> v, d |-> d, s |-> ToString(v) \o "/" \o ToString(d)]
R(s) == [t |-> "real", v |-> 0, d |-> 1, s |-> s]
W(s) == [t |-> "word", v |-> 0, d |-> 1, s |-> s]
P(s) == [t |-> "punct", v |-> 0, d |-> 1, s |-> s]

Is(tok, s) == tok.s = s
Number(tok) == tok.t = "int" \/ (tok.t = "frac" /\ tok.d # 0)

S0(pc, n) == [pc |-> pc, m |-> 0, n |-> n, left |-> 0, bound |-> 0, open |-> FALSE]
Err(s) == [s EXCEPT !.pc = "error"]
To(s, pc) == [s EXCEPT !.pc = pc]
When(s, c, pc) == IF c THEN To(s, pc) ELSE Err(s)
Open(s) == [s EXCEPT !.open = TRUE]

(* ------------------------------------------------ matrices in LattE format *)
(* m n, the rows, then lines `linearity k i..' and `nonnegative k j..'        *)
Matrix(hrep, s, tok) ==
  CASE s.pc = "m" -> IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.pc = "n", !.m = tok.v]
                     ELSE IF tok.t = "int" /\ tok.v = 0 THEN Open(s) ELSE Err(s)
    [] s.pc = "n" -> IF tok.t = "int" /\ tok.v >= 2 THEN [s EXCEPT !.pc = "entry", !.n = tok.v, !.left = s.m * tok.v]
                     ELSE IF tok.t = "int" /\ tok.v = 1 THEN Open(s) ELSE Err(s)
    [] s.pc = "entry" ->
         IF ~Number(tok) THEN Err(s)
         ELSE LET u == IF tok.t = "frac" THEN Open(s) ELSE s
              IN [u EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "key" ELSE "entry"]
    [] s.pc = "key" ->
         CASE tok.s = "linearity" -> [(IF hrep THEN s ELSE Open(s)) EXCEPT !.pc = "count", !.bound = s.m]
           [] tok.s = "nonnegative" /\ hrep -> [s EXCEPT !.pc = "count", !.bound = s.n - 1]
           [] OTHER -> Err(s)
    [] s.pc = "count" ->
         IF tok.t = "int" /\ tok.v >= 0 THEN [s EXCEPT !.left = tok.v, !.pc = IF tok.v = 0 THEN "key" ELSE "index"] ELSE Err(s)
    [] s.pc = "index" ->
         IF tok.t = "int" /\ tok.v >= 1 /\ tok.v <= s.bound
         THEN [s EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "key" ELSE "index"] ELSE Err(s)
    [] OTHER -> Err(s)

(* --------------------------------------------------- matrices in CDD format *)
(* free text, `linearity k i..', begin, m n type, the rows, end, free text.   *)
(* Read by cddlib, which is no part of LattE: number types, numbers and row   *)
(* indices it does not know, and what follows the rows, are left open.        *)
Cdd(s, tok) ==
  CASE s.pc = "head" ->
         CASE tok.s = "begin" -> To(s, "m")
           [] tok.s = "linearity" -> To(s, "count")
           [] tok.s \in {"H-representation", "V-representation"} -> s
           [] OTHER -> Open(s)
    [] s.pc = "count" -> IF tok.t = "int" /\ tok.v >= 0 THEN [s EXCEPT !.left = tok.v, !.pc = IF tok.v = 0 THEN "head" ELSE "index"] ELSE Open(s)
    [] s.pc = "index" ->
         IF tok.t = "int" /\ tok.v >= 1
         THEN [s EXCEPT !.left = @ - 1, !.bound = IF tok.v > @ THEN tok.v ELSE @, !.pc = IF s.left = 1 THEN "head" ELSE "index"]
         ELSE Open(s)
    [] s.pc = "m" -> IF tok.t = "int" /\ tok.v >= 0 /\ (tok.v = 0 \/ tok.v < s.bound) THEN Open(s)
                     ELSE IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.pc = "n", !.m = tok.v] ELSE Err(s)
    [] s.pc = "n" -> IF tok.t = "int" /\ tok.v >= 2 THEN [s EXCEPT !.pc = "type", !.n = tok.v, !.left = s.m * tok.v]
                     ELSE IF tok.t = "int" /\ tok.v = 1 THEN Open(s) ELSE Err(s)
    [] s.pc = "type" -> CASE tok.s \in {"integer", "rational"} -> To(s, "entry")
                          [] tok.s = "real" -> Open(To(s, "entry"))
                          [] OTHER -> Open(To(s, "entry"))
    [] s.pc = "entry" ->
         LET u == IF tok.t # "int" THEN Open(s) ELSE s
         IN [u EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "end" ELSE "entry"]
    [] s.pc = "end" -> IF tok.s = "end" THEN To(s, "tail") ELSE Open(To(s, "tail"))
    [] s.pc = "tail" -> Open(s)
    [] OTHER -> Err(s)

(* -------------------------------------------------------------- integrands *)
(* [[c,[e..]],..]   [[c,[d,[a..]]],..]   [[c,[[d,[a..]],..]],..]; s.n is the  *)
(* number of variables, s.left what remains of the current vector             *)
Vec(s) == [s EXCEPT !.pc = "num", !.left = s.n]
Integrand(kind, s, tok) ==
  CASE s.pc = "open" -> When(s, tok.s = "[", "term")
    [] s.pc = "term" -> When(s, tok.s = "[", "coef")
    [] s.pc = "coef" -> When(s, Number(tok), "c1")
    [] s.pc = "c1" -> When(s, tok.s = ",", CASE kind = "mono" -> "vec" [] kind = "lin" -> "inner" [] OTHER -> "list")
    [] s.pc = "list" -> When(s, tok.s = "[", "inner")
    [] s.pc = "inner" -> When(s, tok.s = "[", "pow")
    [] s.pc = "pow" -> When(s, tok.t = "int" /\ tok.v >= 0, "c2")
    [] s.pc = "c2" -> When(s, tok.s = ",", "vec")
    [] s.pc = "vec" -> IF tok.s = "[" THEN Vec(s) ELSE Err(s)
    [] s.pc = "num" -> IF tok.t = "int" /\ (kind # "mono" \/ tok.v >= 0) THEN [s EXCEPT !.pc = "sep", !.left = @ - 1] ELSE Err(s)
    [] s.pc = "sep" -> CASE tok.s = "," /\ s.left > 0 -> To(s, "num")
                         [] tok.s = "]" /\ s.left = 0 -> To(s, IF kind = "mono" THEN "endterm" ELSE "endinner")
                         [] OTHER -> Err(s)
    [] s.pc = "endinner" -> When(s, tok.s = "]", IF kind = "lin" THEN "endterm" ELSE "more")
    [] s.pc = "more" -> CASE tok.s = "," -> To(s, "inner") [] tok.s = "]" -> To(s, "endterm") [] OTHER -> Err(s)
    [] s.pc = "endterm" -> When(s, tok.s = "]", "next")
    [] s.pc = "next" -> CASE tok.s = "," -> To(s, "term") [] tok.s = "]" -> To(s, "end") [] OTHER -> Err(s)
    [] OTHER -> Err(s)

(* -------------------------------------------------------------- cone files *)
(* s.n is the dimension; words the reader looks for: Cone. Coefficient:       *)
(* Vertex: rays: Facets:; between them it skips                               *)
Looking(s, tok, skip, key, pc) == CASE tok.s = key -> To(s, pc) [] tok.s \in skip -> s [] OTHER -> Open(s)
VecIn(s, tok, next) ==      \* inside a vector
  CASE tok.t = "int" -> [s EXCEPT !.left = @ - 1]
    [] tok.s = "]" /\ s.left = 0 -> To(s, next)
    [] OTHER -> Err(s)
Cones(s, tok) ==
  CASE s.pc = "cone" -> Looking(s, tok, {"=========="}, "Cone.", "coef")
    [] s.pc = "coef" -> Looking(s, tok, {}, "Coefficient:", "coefv")
    [] s.pc = "coefv" -> When(s, tok.t = "int", "vertex")
    [] s.pc = "vertex" -> Looking(s, tok, {}, "Vertex:", "vopen")
    [] s.pc = "vopen" -> IF tok.s = "[" THEN [s EXCEPT !.pc = "v", !.left = s.n] ELSE Err(s)
    [] s.pc = "v" -> IF tok.t = "frac" /\ Number(tok) THEN [s EXCEPT !.left = @ - 1]
                     ELSE IF tok.s \in {"1/", "/2"} THEN Open(s) ELSE VecIn(s, tok, "rays")
    [] s.pc = "rays" -> Looking(s, tok, {"Extreme"}, "rays:", "r0")
    [] s.pc = "r0" -> IF tok.s = "[" THEN [s EXCEPT !.pc = "r", !.left = s.n, !.m = 0] ELSE Err(s)
    [] s.pc = "r" -> VecIn(s, tok, "rs")
    [] s.pc = "rs" -> CASE tok.s = "[" -> [s EXCEPT !.pc = "r", !.left = s.n]
                        [] tok.s = "Facets:" -> To(s, "f0")
                        [] tok.s = "Determinant:" -> To(s, "facets")
                        [] OTHER -> Open(To(s, "facets"))
    [] s.pc = "facets" -> Looking(s, IF tok.t = "int" THEN P("0") ELSE tok, {"0"}, "Facets:", "f0")
    [] s.pc = "f0" -> IF tok.s = "[" THEN [s EXCEPT !.pc = "fe", !.left = s.n] ELSE Err(s)
    [] s.pc = "fe" -> IF tok.s = "]" THEN To(s, "fs") ELSE [VecIn(s, tok, "fs") EXCEPT !.pc = IF @ = "fe" THEN "f" ELSE @]
    [] s.pc = "f" -> VecIn(s, tok, "fs")
    [] s.pc = "fs" -> CASE tok.s = "[" -> [s EXCEPT !.pc = "f", !.left = s.n]
                        [] tok.s = "Cone." -> To(s, "coef")
                        [] tok.s = "Dual" -> To(s, "rest")
                        [] OTHER -> Open(To(s, "rest"))
    [] s.pc = "rest" -> CASE tok.s = "Cone." -> To(s, "coef")
                          [] tok.s \in {"determinant:", "Lattice", "points", "in", "parallelepiped:", "[", "]", "=========="} \/ tok.t = "int" -> s
                          [] OTHER -> Open(s)
    [] OTHER -> Err(s)

(* ------------------------------------------------ lists: cost and knapsack *)
(* `1 n c1..cn' with n given; `n a1..an' *)
Cost(s, tok) ==
  CASE s.pc = "one" -> When(s, tok.t = "int" /\ tok.v = 1, "dim")
    [] s.pc = "dim" -> IF tok.t = "int" /\ tok.v = s.n THEN [s EXCEPT !.pc = IF s.n = 0 THEN "end" ELSE "c", !.left = s.n] ELSE Err(s)
    [] s.pc = "c" -> IF tok.t = "int" THEN [s EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "end" ELSE "c"] ELSE Err(s)
    [] s.pc = "end" -> Open(s)
    [] OTHER -> Err(s)
Knapsack(s, tok) ==
  CASE s.pc = "len" -> IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.pc = "a", !.left = tok.v] ELSE Err(s)
    [] s.pc = "a" -> IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "end" ELSE "a"] ELSE Err(s)
    [] s.pc = "end" -> Open(s)
    [] OTHER -> Err(s)
(* `m n' and m rows of n integers, the vectors that hilbert-from-rays reads *)
Rays(s, tok) ==
  CASE s.pc = "m" -> IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.pc = "n", !.m = tok.v] ELSE Err(s)
    [] s.pc = "n" -> IF tok.t = "int" /\ tok.v >= 1 THEN [s EXCEPT !.pc = "entry", !.n = tok.v, !.left = s.m * tok.v] ELSE Err(s)
    [] s.pc = "entry" -> IF tok.t = "int" THEN [s EXCEPT !.left = @ - 1, !.pc = IF s.left = 1 THEN "end" ELSE "entry"] ELSE Err(s)
    [] s.pc = "end" -> Open(s)
    [] OTHER -> Err(s)

(* ------------------------------------------------------------ command lines *)
(* of count and integrate: the tokens are the arguments; s.n tells whether a  *)
(* file name is still expected.  Only clearly unknown or bad ones are errors. *)
ExactOptions == {"--polynomial", "--exponential", "--dual", "--irrational-primal", "--irrational-all-primal", "--homog",
                 "--count-lattice-points", "--ehrhart-polynomial", "--multivariate-generating-function",
                 "--compute-vertex-cones=4ti2", "--compute-vertex-cones=cdd", "--redundancy-check=none", "--redundancy-check=cddlib",
                 "--redundancy-check=full-cddlib", "--triangulation=cddlib", "--triangulation=4ti2", "--triangulation=topcom",
                 "--smith-form=ilio", "--dualization=cdd", "--dualization=4ti2", "--maxdet=3", "--dilation=2", "--random-seed=7",
                 "--valuation=volume", "--valuation=integrate", "--cone-decompose", "--triangulate", "--monomials=p.mono", "--linear-forms=p.lin"}
Args(s, tok) ==
  CASE s.pc = "args" ->
         CASE tok.s = "input.latte" -> IF s.n = 1 THEN [s EXCEPT !.n = 0] ELSE Err(s)
           [] tok.s \in ExactOptions -> s
           [] tok.s \in {"--dilation=abc", "--maxdet=abc"} -> Open(s)
           [] OTHER -> Err(s)
    [] OTHER -> Err(s)

Kinds == {"latte", "vrep", "ine", "ext", "mono", "lin", "prod", "cones", "cost", "knapsack", "rays", "args"}
Start(kind, n) == S0(CASE kind \in {"latte", "vrep", "rays"} -> "m" [] kind \in {"ine", "ext"} -> "head" [] kind \in {"mono", "lin", "prod"} -> "open"
                       [] kind = "cones" -> "cone" [] kind = "cost" -> "one" [] kind = "knapsack" -> "len" [] OTHER -> "args",
                     IF kind = "args" THEN 1 ELSE n)
ReadTok(kind, s, tok) ==
  CASE s.pc = "error" -> s
    [] kind = "latte" -> Matrix(TRUE, s, tok)
    [] kind = "vrep" -> Matrix(FALSE, s, tok)
    [] kind \in {"ine", "ext"} -> Cdd(s, tok)
    [] kind \in {"mono", "lin", "prod"} -> Integrand(kind, s, tok)
    [] kind = "cones" -> Cones(s, tok)
    [] kind = "cost" -> Cost(s, tok)
    [] kind = "knapsack" -> Knapsack(s, tok)
    [] kind = "rays" -> Rays(s, tok)
    [] OTHER -> Args(s, tok)
Final(kind, s) ==
  CASE kind \in {"latte", "vrep"} -> s.pc = "key"
    [] kind \in {"ine", "ext"} -> s.pc = "tail"
    [] kind \in {"mono", "lin", "prod", "cost", "knapsack", "rays"} -> s.pc = "end"
    [] kind = "cones" -> s.pc \in {"rest", "fs"}
    [] OTHER -> s.pc = "args" /\ s.n = 0
(* the verdict on a file: good, bad or open *)
Verdict(kind, n, doc) ==
  LET s == FoldLeft(LAMBDA u, tok : ReadTok(kind, u, tok), Start(kind, n), doc)
  IN IF s.open \/ (kind \in {"ine", "ext"} /\ s.pc = "end") \/ (kind = "cones" /\ s.pc = "cone") THEN "open" ELSE IF Final(kind, s) THEN "good" ELSE "bad"
=============================================================================
