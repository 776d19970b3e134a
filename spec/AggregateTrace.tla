--------------------------- MODULE AggregateTrace ---------------------------
(* Judges what aggregate writes (rows as in ConvertTrace: signs and residues) *)
(* and the number count reports for it: every integer point of the system     *)
(* extends by its slacks to a solution, and there are no other solutions.     *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status
Ps == <<46337, 46327, 46309>>
Slacks(c) == SelectSeq(c.agg, LAMBDA i : i \notin ToSet(c.lin))
Extended(c, x) == <<1>> \o x \o [q \in DOMAIN Slacks(c) |-> Val(c.rows[Slacks(c)[q]], x)]
Total(f, k) == LET F[i \in 0..k] == IF i = 0 THEN 0 ELSE F[i - 1] + f[i] IN F[k]
IsZero(row, y) == \A q \in 1..3 : Total([k \in DOMAIN row |-> (row[k].r[q] * (y[k] % Ps[q])) % Ps[q]], Len(row)) % Ps[q] = 0
Holds(c, d, x) ==
  LET y == Extended(c, x)
  IN \A i \in DOMAIN d.rows :
       LET row == d.rows[i]
       IN IF \E q \in DOMAIN d.eqs : d.eqs[q] = i THEN IsZero(row, y)
          ELSE d.small[i] = <<>> \/ Total([k \in DOMAIN d.small[i] |-> d.small[i][k] * y[k]], Len(row)) >= 0
Judge(c, ev) ==
  IF ev.rc # "ok" THEN (IF ev.must THEN "aggregation is refused" ELSE "")
  ELSE IF ev.what = "count"
       THEN IF ev.val = <<>> THEN "no number is reported"
            ELSE IF ev.val[1].small # Len(c.pts) THEN "another number of solutions"
            ELSE ""
  ELSE IF ev.desc.bad # "" THEN ev.desc.bad
  ELSE IF \E i \in DOMAIN ev.desc.rows : Len(ev.desc.rows[i]) # c.n + 1 + Len(Slacks(c)) THEN "a row of the wrong length"
  ELSE IF \E k \in DOMAIN c.pts : ~Holds(c, ev.desc, c.pts[k]) THEN "a solution is lost"
  ELSE ""
P(c) == <<>>
E(c) == c.events
S(c, a, ev) == Judge(c, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
