----------------------------- MODULE SavedTrace -----------------------------
(* Judges histories of saved cones (LattSaved).  A case: the polyhedron (n,   *)
(* rows, lin; its integer points are pts plus nonnegative combinations of     *)
(* recs; verts are its vertices if they are known), z (evaluation points)     *)
(* and the events of the history.                                             *)
(*  files:  the cones (numbered in the order met; event 1 numbers them as     *)
(*          LattSaved does) and their coefficients must be those of the part  *)
(*          the file holds; the first file lists every vertex once            *)
(*  counts: resumed from a file that holds everything: the number of points   *)
(*          of the dilated polytope                                           *)
(*  gfs:    any files whose parts add up to m times the whole: their          *)
(*          functions add up to m times that of the polyhedron                *)
EXTENDS LattTraceFile, LattCone
VARIABLES case, pos, abs, status
LinSet(c) == {c.lin[i] + 1 : i \in DOMAIN c.lin}
Cl == 1..3
FirstFile(c) == c.runs[1].cones
Class(k) == ((k - 1) % 3) + 1
CoefSum(q, k) == FoldLeft(LAMBDA acc, x : IF x[1] = k THEN acc + x[2] ELSE acc, 0, q)
Ids(q) == {q[i][1] : i \in DOMAIN q}
TermsM(c, e, j) ==
  FoldLeft(LAMBDA acc, t : (acc + TermM(c.z[j], t.coef, t.pts, t.rays, PrimeSeq[j])) % PrimeSeq[j], 0, e.terms)
DilPoints(c, d) == IF d = 1 /\ c.how = "points" THEN Len(c.pts)
                   ELSE CountBT(DilateRows(c.rows, d), LinSet(c), DilateBox(c.lo, d), DilateBox(c.hi, d))
P(c) ==
  IF ~\A i \in DOMAIN c.pts : Sat(c.rows, LinSet(c), c.pts[i]) THEN Assert(FALSE, <<"points do not satisfy the description", c.id>>)
  ELSE [val |-> TLCEval([j \in DOMAIN PrimeSeq |-> TermM(c.z[j], 1, c.pts, c.recs, PrimeSeq[j])]),
        gf |-> TLCEval([i \in DOMAIN c.runs |-> IF c.runs[i].op = "gf" /\ c.runs[i].got
                                              THEN [j \in DOMAIN PrimeSeq |-> TermsM(c, c.runs[i], j)] ELSE <<>>])]
(* event ev (the last of its group) and others *)
Groups(c, a, k) ==
  LET G == {i \in 1..(k - 1) : a.gf[i] # <<>>}
      all == {S \cup {k} : S \in {T \in SUBSET G : Cardinality(T) <= 2}}
      add(S, r) == FoldSet(LAMBDA i, acc : acc + c.runs[i].part[r], 0, S)
  IN {S \in all : \A r \in Cl : add(S, r) = add(S, 1)}
GroupOK(c, a, S) ==
  LET m == FoldSet(LAMBDA i, acc : acc + c.runs[i].part[1], 0, S)
  IN \A j \in DOMAIN PrimeSeq :
       FoldSet(LAMBDA i, acc : (acc + a.gf[i][j]) % PrimeSeq[j], 0, S) = MulM(m, a.val[j], PrimeSeq[j])
VertsOK(c, ev) ==
  \/ c.verts = <<>> \/ ev.verts = <<>> \/ ~c.full
  \/ LET V == {c.verts[i] : i \in DOMAIN c.verts}
         same(v, w) == \A i \in 1..c.n : v[1][i] * w[2] = w[1][i] * v[2]
     IN /\ Len(ev.verts) = Cardinality(V)
        /\ \A v \in V : Cardinality({i \in DOMAIN ev.verts : same(v, ev.verts[i])}) = 1
File(c, a, ev) ==
  IF ev.rc = "skipped" THEN ""
  ELSE IF ev.bad # "" THEN ev.bad
  ELSE IF ev.rc # "ok" THEN (IF ev.must THEN "no cones are written (" \o ev.rc \o ")" ELSE "")
  ELSE IF ev.op = "compute"
  THEN IF \E i, j \in DOMAIN ev.cones : i # j /\ ev.cones[i][1] = ev.cones[j][1] THEN "a cone is written twice"
       ELSE IF \E i \in DOMAIN ev.cones : ev.cones[i][2] # 1 THEN "a cone does not have coefficient one"
       ELSE IF ~VertsOK(c, ev) THEN "the cones are not at the vertices" ELSE ""
  ELSE IF ev.op = "subdivide" THEN ""
  ELSE IF c.dual
  THEN LET s == c.runs[ev.from].cones
       IN IF \A k \in Ids(s) \cup Ids(ev.cones) : CoefSum(s, k) = CoefSum(ev.cones, k) THEN "" ELSE "the copy holds other cones"
  ELSE LET first == FirstFile(c)
       IN IF \E k \in Ids(ev.cones) : k \notin Ids(first) THEN "a cone changed"
          ELSE IF \A k \in Ids(first) : CoefSum(ev.cones, k) = ev.part[Class(k)] * CoefSum(first, k) THEN "" ELSE "the file holds another part"
Counted(c, ev) ==
  IF c.recs # <<>>
  THEN IF ev.val # <<>> THEN "a number for an unbounded polyhedron"
       ELSE IF ev.must /\ ~ev.unbounded THEN "unboundedness not reported" ELSE ""
  ELSE IF ev.val = <<>> THEN (IF ev.must THEN "no number reported (" \o ev.rc \o ")" ELSE "")
  ELSE LET e == DilPoints(c, ev.dil) IN IF ev.val[1].small = e THEN "" ELSE "wrong number of points"
Function(c, a, ev, k) ==
  IF ev.bad # "" THEN ev.bad
  ELSE IF ~ev.got THEN (IF ev.must THEN "no generating function (" \o ev.rc \o ")" ELSE "")
  ELSE IF \A S \in Groups(c, a, k) : GroupOK(c, a, S) THEN "" ELSE "the parts do not add up"
Index(c, ev) == CHOOSE k \in DOMAIN c.runs : c.runs[k] = ev
Judge(c, a, ev) ==
  IF ev.op = "count" THEN Counted(c, ev)
  ELSE IF ev.op = "gf" THEN (IF ev.got \/ ev.bad # "" \/ ev.must THEN Function(c, a, ev, Index(c, ev)) ELSE "")
  ELSE File(c, a, ev)
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
