---------------------------- MODULE LattCorrupt ----------------------------
(* Input files with one corruption.  A behaviour chooses a box [lo, hi] and a *)
(* kind of file, writes a well-formed file about it (Base), and corrupts at   *)
(* most one place.  The reader (LattReader) says what becomes of it.          *)
EXTENDS LattReader, FiniteSets, Json

CONSTANTS Kind, MaxDim, B,
          Words      \* what may stand in place of a number

VARIABLES stage, box, doc, what
cvars == <<stage, box, doc, what>>

Rnd(S) == RandomElement(S)
Cat(ss) == FlattenSeq(ss)
Ints(seq) == [i \in DOMAIN seq |-> I(seq[i])]
Unit(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]

(* ------------------------------------------------------------- base files *)
RowsOf(b) ==      \* x_i >= lo_i, x_i <= hi_i, and sum x <= sum hi (redundant); x_n <= hi_n first when b.eq
  Cat([i \in 1..b.n |-> <<<<-b.lo[i]>> \o Unit(b.n, i, 1), <<b.hi[i]>> \o Unit(b.n, i, -1)>>]) \o
  <<<<FoldLeft(LAMBDA x, y : x + y, 0, b.hi)>> \o [j \in 1..b.n |-> -1]>>
Equations(b) == IF b.eq THEN <<2 * b.n>> ELSE <<>>       \* x_n = hi_n
Section(key, idx) == IF idx = <<>> THEN <<>> ELSE <<W(key), I(Len(idx))>> \o Ints(idx)
Nonneg(b) == SelectSeq([i \in 1..b.n |-> i], LAMBDA i : b.lo[i] >= 0 /\ b.nn)
Corners(b) == [k \in 1..2^b.n |-> [i \in 1..b.n |-> IF (((k - 1) \div 2^(i - 1)) % 2) = 0 THEN b.lo[i] ELSE b.hi[i]]]
Body(rows) == <<I(Len(rows)), I(Len(rows[1]))>> \o Cat([r \in DOMAIN rows |-> Ints(rows[r])])
CddBody(rows, type) == <<W("begin"), I(Len(rows)), I(Len(rows[1])), W(type)>> \o Cat([r \in DOMAIN rows |-> Ints(rows[r])]) \o <<W("end")>>
VecOf(v) == <<P("[")>> \o Cat([i \in DOMAIN v |-> IF i = 1 THEN <<I(v[i])>> ELSE <<P(","), I(v[i])>>]) \o <<P("]")>>
Commas(ts) == Cat([i \in DOMAIN ts |-> IF i = 1 THEN ts[i] ELSE <<P(",")>> \o ts[i]])
List(ts) == <<P("[")>> \o Commas(ts) \o <<P("]")>>
Factor(p, v) == List(<<<<I(p)>>, VecOf(v)>>)
Spaced(v) == <<P("[")>> \o Ints(v) \o <<P("]")>>
ConeDoc(b, k) ==         \* the vertex cone at corner k: directions into the box
  LET c == Corners(b)[k]
      sgn == [i \in 1..b.n |-> IF c[i] = b.lo[i] THEN 1 ELSE -1]
  IN <<W("=========="), W("Cone."), W("Coefficient:"), I(1), W("Vertex:")>> \o Spaced(c) \o <<W("Extreme"), W("rays:")>> \o
     Cat([i \in 1..b.n |-> Spaced(Unit(b.n, i, sgn[i]))]) \o <<W("Determinant:"), I(1), W("Facets:"), P("["), P("]"),
     W("Dual"), W("determinant:"), I(0), W("Lattice"), W("points"), W("in"), W("parallelepiped:"), P("["), P("]"), W("==========")>>
Base(kind, b) ==
  CASE kind = "latte" -> Body(RowsOf(b)) \o (IF b.flip THEN Section("nonnegative", Nonneg(b)) \o Section("linearity", Equations(b))
                                             ELSE Section("linearity", Equations(b)) \o Section("nonnegative", Nonneg(b)))
    [] kind = "vrep" -> Body([k \in 1..2^b.n |-> <<1>> \o Corners(b)[k]])
    [] kind = "ine" -> <<W("H-representation")>> \o Section("linearity", Equations(b)) \o CddBody(RowsOf(b), "integer")
    [] kind = "ext" -> <<W("V-representation")>> \o CddBody([k \in 1..2^b.n |-> <<1>> \o Corners(b)[k]], "rational")
    [] kind = "mono" -> List([t \in DOMAIN b.terms |-> List(<<<<b.terms[t].c>>, VecOf(b.terms[t].e)>>)])
    [] kind = "lin" -> List([t \in DOMAIN b.terms |-> List(<<<<b.terms[t].c>>, Factor(b.terms[t].p, b.terms[t].e)>>)])
    [] kind = "prod" -> List([t \in DOMAIN b.terms |-> List(<<<<b.terms[t].c>>, List(<<Factor(b.terms[t].p, b.terms[t].e), Factor(1, b.terms[t].f)>>)>>)])
    [] kind = "cones" -> Cat([k \in 1..2^b.n |-> ConeDoc(b, k)])
    [] kind = "cost" -> <<I(1), I(b.n)>> \o Ints(b.terms[1].e)
    [] kind = "knapsack" -> <<I(b.n + 1), I(1)>> \o Ints([i \in 1..b.n |-> b.hi[i] - b.lo[i] + 1])
    [] kind = "rays" -> Body([i \in 1..b.n |-> Unit(b.n, i, 1 + b.hi[i] - b.lo[i])])
    [] OTHER -> b.args

ArgSets == {<<>>, <<"--polynomial">>, <<"--homog">>, <<"--irrational-primal", "--maxdet=3">>, <<"--compute-vertex-cones=cdd">>, <<"--triangulation=cddlib">>,
            <<"--redundancy-check=none", "--exponential">>, <<"--dilation=2">>, <<"--ehrhart-polynomial">>, <<"--dualization=4ti2">>, <<"--smith-form=ilio">>,
            <<"--random-seed=7">>, <<"--valuation=volume">>, <<"--valuation=volume", "--triangulate">>, <<"--valuation=volume", "--cone-decompose">>}
Term(n) == [c |-> IF Rnd(1..3) = 1 THEN Q(Rnd(1..5), Rnd({2, 3})) ELSE I(Rnd({-2, 1, 3})), p |-> Rnd(0..3),
            e |-> [i \in 1..n |-> Rnd(0..2)], f |-> [i \in 1..n |-> IF i = 1 THEN 1 ELSE Rnd(-1..1)]]
Box(n) ==
  LET lo == [i \in 1..n |-> Rnd(-1..1)]
  IN [n |-> n, lo |-> lo, hi |-> [i \in 1..n |-> lo[i] + Rnd(1..B)], eq |-> Kind \in {"latte", "ine"} /\ n > 1 /\ Rnd(1..3) = 1,
      nn |-> Rnd(1..2) = 1, flip |-> Rnd(1..2) = 1, terms |-> [t \in 1..Rnd(1..3) |-> Term(n)], args |-> <<>>]
WithArgs(b) == \E a \in {Rnd(ArgSets)} : LET w == [i \in DOMAIN a |-> W(a[i])]
                                         IN box' = [b EXCEPT !.args = IF Rnd(1..2) = 1 THEN w \o <<W("input.latte")>> ELSE <<W("input.latte")>> \o w]

(* ------------------------------------------------------------ corruptions *)
Put(d, i, tok) == [d EXCEPT ![i] = tok]
Drop(d, i) == SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))
Ins(d, i, tok) == SubSeq(d, 1, i) \o <<tok>> \o SubSeq(d, i + 1, Len(d))
BadTok(tok) ==
  CASE tok.t \in {"int", "frac"} ->
         {R("1.5"), Q(tok.v, 0), I(-tok.v), I(tok.v + 1), I(tok.v - 1), I(0), I(tok.v + 40), P("["), R("2e1"), R("1/"), R("/2"), R("--3")} \cup {W(x) : x \in Words}
    [] tok.t = "punct" -> {P("("), P("{"), P("]"), P("["), P(";"), I(1)}
    [] OTHER -> {W("x" \o tok.s), W(tok.s \o "x"), I(3)}
BadArg(tok) == {W("--z" \o tok.s), W("--bogus"), W("--triangulation=bogus"), W("--compute-vertex-cones=bogus"), W("--redundancy-check=bogus"),
                W("--smith-form=bogus"), W("--dualization=bogus"), W("--valuation=bogus"), W("--dilation=abc"), W("--maxdet=abc"), W("missing.latte"), W("-q"), W("--help-me")}

Choose ==
  /\ stage = 0 /\ \E n \in {Rnd(1..MaxDim)} : \E b \in {Box(n)} : WithArgs(b)
  /\ stage' = 1 /\ UNCHANGED <<doc, what>>
WriteBase == stage = 1 /\ doc' = Base(Kind, box) /\ stage' = 2 /\ UNCHANGED <<box, what>>
Corrupt(d, w) == stage = 2 /\ stage' = 3 /\ doc' = d /\ what' = w /\ UNCHANGED box
Truncate(i) == Corrupt(SubSeq(doc, 1, i), "truncated")
Delete(i) == Corrupt(Drop(doc, i), "deleted")
Repeat(i) == Corrupt(Ins(doc, i, doc[i]), "repeated")
Replace(i, tok) == Corrupt(Put(doc, i, tok), "replaced")
Insert(i, tok) == Corrupt(Ins(doc, i, tok), "inserted")
Keep == Corrupt(doc, "kept")
(* places: the header, the keyword lines and the ends deserve as much attention as the entries *)
Spots(d) == {Rnd(DOMAIN d)} \cup {IF Rnd(1..2) = 1 THEN Rnd(1..(IF Len(d) < 5 THEN Len(d) ELSE 5)) ELSE Rnd((IF Len(d) < 6 THEN 1 ELSE Len(d) - 5)..Len(d))}
Change ==
  stage = 2 /\ \E i \in {Rnd(Spots(doc))} : \E r \in {Rnd(1..10)} :
    CASE r = 1 /\ Kind # "args" -> Truncate(i - 1)
      [] r = 2 -> Delete(i)
      [] r = 3 -> Repeat(i)
      [] r = 4 -> \E tok \in {Rnd(IF Kind = "args" THEN BadArg(doc[i]) ELSE BadTok(doc[i]))} : Insert(i, tok)
      [] r = 5 -> IF Rnd(1..4) = 1 THEN Keep ELSE Truncate(Rnd(0..Len(doc) - 1))
      [] OTHER -> \E tok \in {Rnd(IF Kind = "args" THEN BadArg(doc[i]) ELSE BadTok(doc[i]))} : Replace(i, tok)
Tell ==
  /\ stage = 3 /\ stage' = 4 /\ UNCHANGED <<box, doc, what>>
  /\ PrintT("CASE " \o ToJson([kind |-> Kind, n |-> box.n, lo |-> box.lo, hi |-> box.hi, eq |-> box.eq, doc |-> doc, what |-> what, base |-> Base(Kind, box),
                               rows |-> RowsOf(box), lin |-> Equations(box)]))
CInit == stage = 0 /\ box = [n |-> 0] /\ doc = <<>> /\ what = ""
CNext == Choose \/ WriteBase \/ Change \/ Tell
CSpec == CInit /\ [][CNext]_cvars
(* what is written is well formed *)
BaseIsGood == stage = 2 => Verdict(Kind, box.n, doc) = "good" \/ (Kind \in {"latte", "ine", "ext", "vrep"} /\ Verdict(Kind, box.n, doc) = "open")
=============================================================================
