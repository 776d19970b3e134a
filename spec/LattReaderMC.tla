---------------------------- MODULE LattReaderMC ----------------------------
(* The reader of LattE matrices against a grammar, over all short files; the  *)
(* integrand readers: nothing follows a complete file and nothing incomplete  *)
(* is accepted.                                                               *)
EXTENDS LattReader
CONSTANTS Kind, MaxLen, N
VARIABLES file, st
Alphabet == CASE Kind \in {"latte", "vrep"} -> {I(0), I(1), I(2), W("linearity"), W("nonnegative"), W("x")}
              [] Kind = "ine" -> {I(1), I(2), W("begin"), W("end"), W("linearity"), W("integer")}
              [] OTHER -> {I(0), I(1), P("["), P("]"), P(",")}
Init == file = <<>> /\ st = Start(Kind, N)
Next == \E tok \in Alphabet : Len(file) < MaxLen /\ st.pc # "error" /\ file' = Append(file, tok) /\ st' = ReadTok(Kind, st, tok)
MCSpec == Init /\ [][Next]_<<file, st>>

RECURSIVE Sections(_, _, _)
Sections(f, m, n) ==      \* f is a sequence of keyword lines
  f = <<>> \/ /\ Len(f) >= 2 /\ f[1].s \in {"linearity", "nonnegative"} /\ f[2].t = "int" /\ f[2].v >= 0 /\ Len(f) >= 2 + f[2].v
              /\ \A i \in 3..2 + f[2].v : f[i].t = "int" /\ f[i].v \in 1..(IF f[1].s = "linearity" THEN m ELSE n - 1)
              /\ Sections(SubSeq(f, 3 + f[2].v, Len(f)), m, n)
LatteGrammar(f) ==
  /\ Len(f) >= 2 /\ f[1].t = "int" /\ f[2].t = "int" /\ f[1].v >= 1 /\ f[2].v >= 2
  /\ LET e == f[1].v * f[2].v
     IN Len(f) >= 2 + e /\ (\A i \in 3..2 + e : f[i].t = "int") /\ Sections(SubSeq(f, 3 + e, Len(f)), f[1].v, f[2].v)
(* the depth of the brackets; every good file closes what it opens, once *)
Depth(f) == FoldLeft(LAMBDA d, tok : IF tok.s = "[" THEN d + 1 ELSE IF tok.s = "]" THEN d - 1 ELSE d, 0, f)
ReaderIsGrammar == Kind = "latte" /\ ~st.open => (Final(Kind, st) <=> LatteGrammar(file))
Balanced == Kind \in {"mono", "lin", "prod"} /\ Final(Kind, st) => Depth(file) = 0
NothingAfter == Kind \in {"mono", "lin", "prod"} /\ Len(file) > 1 /\ st.pc # "error" => ~Final(Kind, FoldLeft(LAMBDA u, tok : ReadTok(Kind, u, tok), Start(Kind, N), SubSeq(file, 1, Len(file) - 1)))
=============================================================================
