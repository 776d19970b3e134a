------------------------------ MODULE CountTrace ------------------------------
(* Judges runs of `count`.  A case carries the description that was written   *)
(* to the input file (n, rows, lin, nonneg), a query (dilation, interior),    *)
(* how the integer points can be enumerated (how), and the observed runs.     *)
(*   how = "points": pts/npts come from a behaviour of LattBuild              *)
(*   how = "npoints": only their number                                       *)
(*   how = "box":    a box follows from the rows by bound propagation         *)
(*   how = "hull":   verts are the vertices of a simplex (checked here)       *)
(*   how = "given":  lo and hi bound the polytope (known from the family)     *)
(*   how = "none":   no integer point reported may be positive: empty         *)
(* big: the query is the dilation by a huge factor with residues dilres.      *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status

(* what the description means *)
NonnegRows(c) == [i \in DOMAIN c.nonneg |-> [k \in 1..(c.n + 1) |-> IF k = c.nonneg[i] + 2 THEN 1 ELSE 0]]
AllRows(c) == c.rows \o NonnegRows(c)
LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}      \* indices in the file are kept 0-based
QueryRows(c) ==
  LET d == DilateRows(AllRows(c), c.dil)
  IN IF c.interior THEN InteriorRows(d, LinSet(c)) ELSE d

MinMax(vs, i) == <<Min({vs[k][i] : k \in DOMAIN vs}), Max({vs[k][i] : k \in DOMAIN vs})>>
IsHull(rows, vs) ==     \* the rows are exactly the facets of the simplex vs
  /\ Len(vs) = Len(vs[1]) + 1
  /\ \A r \in DOMAIN rows : \A k \in DOMAIN vs : Val(rows[r], vs[k]) >= 0
  /\ \A k \in DOMAIN vs : \E r \in DOMAIN rows :
        Val(rows[r], vs[k]) > 0 /\ \A j \in DOMAIN vs : j # k => Val(rows[r], vs[j]) = 0

Big(n) == [exact |-> -1, res |-> n]
Exact(n) == [exact |-> n, res |-> [k \in DOMAIN PrimeSeq |-> n % PrimeSeq[k]]]

(* a box that contains the polyhedron *)
BoxOf(c, rows) ==
  CASE c.how = "box" -> LET b == ImpliedBox(rows, LinSet(c), c.n)
                        IN IF BoxKnown(b) THEN <<BoxLo(b), BoxHi(b)>> ELSE Assert(FALSE, <<"no box", c.id>>)
    [] c.how = "given" -> <<c.lo, c.hi>>
    [] c.how = "hull" -> IF IsHull(rows, c.verts)
                         THEN <<[i \in 1..c.n |-> MinMax(c.verts, i)[1]], [i \in 1..c.n |-> MinMax(c.verts, i)[2]]>>
                         ELSE Assert(FALSE, <<"not the facets of the simplex", c.id>>)
CountIn(c, rws, k) ==      \* integer points of the k-th dilation of rows
  LET rows == TLCEval(rws)
      b == TLCEval(BoxOf(c, rows))
      q == TLCEval(DilateRows(rows, k))
  IN CountBT(IF c.interior THEN InteriorRows(q, LinSet(c)) ELSE q, LinSet(c),
             IF c.how = "box" /\ k > 0 THEN BoxOf(c, q)[1] ELSE DilateBox(b[1], k),
             IF c.how = "box" /\ k > 0 THEN BoxOf(c, q)[2] ELSE DilateBox(b[2], k))
(* Ehrhart: for an integral polytope of dimension at most deg the counts of  *)
(* the dilations 0..deg determine all of them                                *)
SmallCounts(c) == [k \in 1..(c.deg + 1) |-> CountIn(c, AllRows(c), k - 1)]

(* The description written to the file may differ from rows by unimodular    *)
(* substitutions with huge factors (Shear and Shift of LattBuild, under      *)
(* which the number of points is invariant).  tail lists them, wres are the  *)
(* residues of the rows written.                                             *)
ApplyTailM(row, op, q) ==       \* one row modulo PrimeSeq[q]
  LET p == PrimeSeq[q]
      k == op.k[q]
  IN IF op.op = "shear" THEN [row EXCEPT ![op.j + 1] = (@ - MulM(k, row[op.i + 1], p)) % p]
     ELSE [row EXCEPT ![1] = (@ - MulM(k, row[op.i + 1], p)) % p]
TailOK(c) ==
  \A q \in DOMAIN PrimeSeq : \A r \in DOMAIN c.rows :
     LET start == [i \in DOMAIN c.rows[r] |->
                     IF i = 1 THEN MulM(c.dilres[q], c.rows[r][1], PrimeSeq[q]) ELSE c.rows[r][i] % PrimeSeq[q]]
         end == FoldLeft(LAMBDA row, op : ApplyTailM(row, op, q), start, c.tail)
     IN end = [i \in DOMAIN c.rows[r] |-> c.wres[r][i][q]]

PointsOK(c, rows, lin) ==
  /\ Cardinality(ToSet(c.pts)) = c.npts
  /\ \A i \in DOMAIN c.pts : Sat(rows, lin, c.pts[i])

Expected(c) ==
  LET rows == QueryRows(c) lin == LinSet(c)
  IN IF c.tail # <<>> /\ ~(TailOK(c) /\ c.nonneg = <<>>) THEN Assert(FALSE, <<"the rows written are not those of the case", c.id>>)
     ELSE IF c.big
     THEN LET v == TLCEval(SmallCounts(c))
          IN Big([q \in DOMAIN PrimeSeq |-> InterpM(v, c.dilres[q], PrimeSeq[q])])
     ELSE CASE c.how = "points" ->
            IF PointsOK(c, TLCEval(DilateRows(AllRows(c), c.dil)), TLCEval(lin))
            THEN IF c.interior THEN Exact(Cardinality({i \in DOMAIN c.pts : Sat(rows, lin, c.pts[i])})) ELSE Exact(c.npts)
            ELSE Assert(FALSE, <<"points do not satisfy the description", c.id>>)
       [] c.how = "npoints" -> Exact(c.npts)
       [] c.how = "none" -> Exact(0)
       [] OTHER -> Exact(CountIn(c, AllRows(c), c.dil))

Same(num, e) ==     \* num: [small, res], a number reported by the program
  IF e.exact >= 0 THEN num.small = e.exact ELSE num.res = e.res

(* run: [opts, rc, must, file, out]; file and out are <<>> or <<num>>         *)
Judge(c, e, run) ==
  IF run.rc = "crash" /\ run.must THEN "the program crashed"
  ELSE IF run.rc = "timeout" THEN (IF run.must THEN "no answer in time" ELSE "")
  ELSE IF Len(run.out) = 1 /\ ~Same(run.out[1], e) THEN "wrong number on standard output"
  ELSE IF Len(run.file) = 1 /\ ~Same(run.file[1], e) THEN "wrong number in numOfLatticePoints"
  ELSE IF Len(run.err) = 1 /\ ~Same(run.err[1], e) THEN "wrong number in the messages"
  ELSE IF run.must /\ e.exact # 0 /\ (run.rc # "ok" \/ Len(run.file) # 1) THEN "no number reported"
  ELSE IF run.must /\ e.exact = 0 /\ Len(run.file) # 1 /\ ~run.empty THEN "emptiness not reported"
  ELSE ""

P(c) == Expected(c)
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
