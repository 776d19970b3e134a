------------------------------ MODULE DirTrace ------------------------------
(* Judges histories of programs in one directory (LattDir).  The events are   *)
(* runs: key numbers what was run on what (program, arguments, input files),  *)
(* ans what it answered.  A run of kind "fresh" happened in a directory of    *)
(* its own; it fixes what the answer is.  abs (as far as the trace has been   *)
(* read) holds these answers.  A later run in the common directory must give  *)
(* the same answer; a run with an injected fault may fail instead, but must   *)
(* not give another answer.                                                   *)
EXTENDS LattTraceFile, FiniteSets
VARIABLES case, pos, abs, status
Faulty == {"kill", "toolkill"}
NotRemoving == {"keep", "keepcut", "kill2"}     \* even what the run itself removes first stays: its answer is not judged
P(c) == [fresh |-> {i \in DOMAIN c.runs : c.runs[i].kind = "fresh"}]
Ref(c, a, k) == c.runs[CHOOSE i \in a.fresh : c.runs[i].key = k]
S(c, a, ev) ==
  IF ev.kind = "fresh"
  THEN IF Cardinality({i \in a.fresh : c.runs[i].key = ev.key}) = 1 THEN "" ELSE Assert(FALSE, "two references")
  ELSE LET r == Ref(c, a, ev.key)
       IN IF "timeout" \in {ev.rc, r.rc} \/ ev.kind \in NotRemoving THEN ""
          ELSE IF ev.kind \in Faulty
          THEN IF ev.rc = "ok" /\ (r.rc # "ok" \/ ev.ans # r.ans) THEN "a run with a fault answers differently" ELSE ""
          ELSE IF ev.rc # r.rc THEN "ends differently (" \o ev.rc \o ", alone " \o r.rc \o ")"
          ELSE IF ev.ans # r.ans THEN "answers differently" ELSE ""
E(c) == c.runs
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
