------------------------------ MODULE LattDbMC ------------------------------
(* The database as a machine: every order of insertions, updates and marks    *)
(* within small bounds.  Step is judged by LattDb!Judge.                      *)
EXTENDS LattDb
CONSTANTS Degs, Vcs, MaxPoly, MaxTope, MaxTest, Vals
VARIABLES db, last
vars == <<db, last>>
Empty == [poly |-> <<>>, tope |-> <<>>, test |-> <<>>, vol |-> <<>>]
Do(b, ev) == db' = b /\ last' = Judge(db, [ev EXCEPT !.after = b])
InsPoly(d, path) ==
  LET dup == \E p \in Rng(db.poly) : p.path = path
      id == MaxId(db.poly) + 1
      b == IF dup THEN db ELSE [db EXCEPT !.poly = Append(@, [id |-> id, dim |-> 2, deg |-> d, path |-> path])]
  IN (dup \/ Len(db.poly) < MaxPoly) /\ Do(b, [op |-> "insPoly", ok |-> ~dup, res |-> id, dim |-> 2, deg |-> d, path |-> path, after |-> db])
InsTope(v, of) ==
  LET id == MaxId(db.tope) + 1
      r == [id |-> id, dim |-> 2, vc |-> v, file |-> ToString(id), path |-> ToString(id), dual |-> of]
  IN Len(db.tope) < MaxTope /\ (of = 0 \/ (of \in Ids(db.tope) /\ Row(db.tope, of).dual = 0 /\ ~\E t \in Rng(db.tope) : t.dual = of))
     /\ Do([db EXCEPT !.tope = Append(@, r)], [op |-> "insTope", ok |-> TRUE, res |-> id, dim |-> 2, vc |-> v, file |-> r.file, path |-> r.path, of |-> of, after |-> db])
(* the tests added for one class: any injective choice of unused ones *)
Picks(v, d, dual, n) ==
  LET ts == TopesIn(db, 2, v, dual)
      old == TestsIn(db, ts, Degrees(db, d))
      P == PolysIn(db, 2, d) \ {r.p : r \in old}
      T == ts \ {r.t : r \in old}
      m == IF n > Cardinality(old) THEN n - Cardinality(old) ELSE 0
  IN {f \in [1..m -> P \X T] : \A i, j \in 1..m : i # j => f[i][1] # f[j][1] /\ f[i][2] # f[j][2]}
Rows(f, from) == [i \in DOMAIN f |-> [id |-> from + i, p |-> f[i][1], t |-> f[i][2], tl |-> -1, tt |-> -1, val |-> NA]]
Tests(v, d, n) ==
  /\ Cardinality(PolysIn(db, 2, d)) >= n /\ \A dual \in BOOLEAN : Cardinality(TopesIn(db, 2, v, dual)) >= n
  /\ \E f \in Picks(v, d, FALSE, n) : \E g \in Picks(v, d, TRUE, n) :
       LET new == Rows(f, MaxId(db.test)) \o Rows(g, MaxId(db.test) + Len(f))
       IN Len(db.test) + Len(new) <= MaxTest
          /\ Do([db EXCEPT !.test = @ \o new], [op |-> "tests", ok |-> TRUE, res |-> 0, dim |-> 2, vc |-> v, deg |-> d, count |-> n, after |-> db])
Specific(t, d, n) ==
  \E p \in PolysIn(db, 2, d) \ {r.p : r \in TestsIn(db, {t}, Degrees(db, d))} :
    LET new == Rows(<<<<p, t>>>>, MaxId(db.test))
    IN n = 1 + Cardinality(TestsIn(db, {t}, Degrees(db, d))) /\ Len(db.test) < MaxTest
       /\ Do([db EXCEPT !.test = @ \o new], [op |-> "specific", ok |-> TRUE, res |-> 0, path |-> Row(db.tope, t).path, deg |-> d, count |-> n, after |-> db])
Upd(id, alg, val) ==
  LET r == Row(db.test, id)
      ok == r.val \in {NA, val}
      ev == [op |-> "update", ok |-> ok, res |-> 0, id |-> id, alg |-> alg, time |-> 1, val |-> val, after |-> db]
      b == IF ok THEN [db EXCEPT !.test = [i \in DOMAIN @ |-> IF @[i].id = id THEN Recorded(@[i], ev) ELSE @[i]]] ELSE db
  IN Do(b, ev)
MInit == db = Empty /\ last = ""
MNext == \/ \E d \in Degs, n \in 1..MaxPoly : InsPoly(d, ToString(n))
         \/ \E v \in Vcs, of \in 0..MaxTope : InsTope(v, of)
         \/ \E v \in Vcs, d \in Degs, n \in 1..2 : Tests(v, d, n)
         \/ \E t \in Ids(db.tope), d \in Degs, n \in 1..MaxTest : Specific(t, d, n)
         \/ \E id \in Ids(db.test), alg \in 1..2, val \in Vals : Upd(id, alg, <<val, 2>>)
MSpec == MInit /\ [][MNext]_vars
Legal == last = ""
Attached == \A r \in Rng(db.test) : r.p \in Ids(db.poly) /\ r.t \in Ids(db.tope)
Single == \A r, u \in Rng(db.test) : r.id # u.id => <<r.p, r.t>> # <<u.p, u.t>>
NoDuplicates == \A p, q \in Rng(db.poly) : p.id # q.id => p.path # q.path
Timed == \A r \in Rng(db.test) : (r.val = NA) = (r.tl < 0 /\ r.tt < 0)
(* a recorded value is never replaced, and a test keeps its polynomial and polytope *)
Keeps == [][\A r \in Rng(db.test) : \E u \in Rng(db'.test) : u.id = r.id /\ u.p = r.p /\ u.t = r.t /\ (r.val # NA => u.val = r.val)]_vars
=============================================================================
