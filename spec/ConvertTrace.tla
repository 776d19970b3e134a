---------------------------- MODULE ConvertTrace ----------------------------
(* Judges files written by the converters.  A description has rows, eqs and  *)
(* nn as in LattConvert, but an entry is [s |-> sign, r |-> residues modulo  *)
(* the primes] so that huge entries can be compared.  kind = "H": rows are   *)
(* inequalities and equations; "V": rows are points and directions.          *)
(* An event is one conversion of the case's description (or of what an       *)
(* earlier conversion wrote): desc is what was read back from the file.      *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status

Ps == <<46337, 46327, 46309>>
One == [s |-> 1, r |-> <<1, 1, 1>>]
Zero == [s |-> 0, r |-> <<0, 0, 0>>]
UnitRow0(n, i) == [k \in 1..(n + 1) |-> IF k = i + 1 THEN One ELSE Zero]
Signs(r) == [k \in DOMAIN r |-> r[k].s]
(* a and b are multiples of each other (b nonzero) *)
Parallel(a, b) ==
  LET I == {k \in DOMAIN b : b[k].s # 0}
      p == CHOOSE k \in I : \A j \in I : k <= j
  IN \A q \in 1..3 : \A k \in DOMAIN a : (a[k].r[q] * b[p].r[q]) % Ps[q] = (b[k].r[q] * a[p].r[q]) % Ps[q]
Null(a) == \A k \in DOMAIN a : a[k].s = 0
SameIneq(a, b) == Len(a) = Len(b) /\ Signs(a) = Signs(b) /\ (Null(a) \/ Parallel(a, b))
SameEq(a, b) == Len(a) = Len(b) /\ (Signs(a) = Signs(b) \/ Signs(a) = [k \in DOMAIN b |-> -b[k].s]) /\ (Null(a) \/ Parallel(a, b))

Eqs(d) == {d.eqs[i] : i \in DOMAIN d.eqs}
Ineqs(d, n) == {d.rows[i] : i \in DOMAIN d.rows \ Eqs(d)} \cup {UnitRow0(n, d.nn[i]) : i \in DOMAIN d.nn}
Equations(d) == {d.rows[i] : i \in Eqs(d)}
Covers(A, B, same(_, _)) == \A a \in A : \E b \in B : same(a, b)

Compare(n, a, b) ==
  IF b.bad # "" THEN b.bad
  ELSE IF \E i \in DOMAIN b.rows : Len(b.rows[i]) # n + 1 THEN "a row of the wrong length"
  ELSE IF ~ (Eqs(b) \subseteq DOMAIN b.rows) THEN "an equation that is no row"
  ELSE IF ~Covers(Equations(a), Equations(b), SameEq) THEN "an equation is lost"
  ELSE IF ~Covers(Ineqs(a, n), Ineqs(b, n), SameIneq) THEN "a row is lost"
  ELSE IF ~Covers(Equations(b), Equations(a), SameEq) THEN "an equation is invented"
  ELSE IF ~Covers(Ineqs(b, n), Ineqs(a, n), SameIneq) THEN "a row is invented"
  ELSE ""
Judge(c, ev) ==
  CASE ev.what = "file" ->
         IF ev.rc # "ok" THEN (IF ev.must THEN "the converter fails" ELSE "")
         ELSE IF ev.whole /\ ~ev.integral THEN "a fraction in a LattE file"
         ELSE Compare(c.n, c.desc, ev.desc)
    [] ev.what = "count" ->
         IF ev.rc # "ok" THEN (IF ev.must THEN "the converted file is refused" ELSE "")
         ELSE IF ev.val = <<>> THEN "no number is reported"
         ELSE IF ev.val[1].small # c.npts THEN "the converted file has another number of points"
         ELSE ""
P(c) == <<>>
E(c) == c.events
S(c, a, ev) == Judge(c, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
