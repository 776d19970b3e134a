---------------------------- MODULE CorruptTrace ----------------------------
(* Judges how programs treat a (possibly corrupt) file: c.doc, read by        *)
(* LattReader as a file of kind c.kind about c.n variables.  The events are   *)
(* runs on it: rc ("ok", "fail", "crash", "timeout"), said whether they       *)
(* stopped with a message, answered whether they reported any result.         *)
EXTENDS LattTraceFile
VARIABLES case, pos, abs, status
Rd == INSTANCE LattReader
Prep(c) == [verdict |-> Rd!Verdict(c.kind, c.n, c.doc)]
S(c, a, ev) ==
  CASE a.verdict = "bad" ->
         IF ev.answered THEN "answers a malformed file"
         ELSE IF ev.rc = "ok" THEN "ends with status 0 on a malformed file"
         ELSE IF ev.rc = "timeout" THEN "does not stop on a malformed file"
         ELSE IF ev.rc = "crash" \/ ~ev.said THEN "stops on a malformed file without a message"
         ELSE ""
    [] c.what = "kept" -> IF ev.rc # "ok" \/ ~ev.answered THEN "refuses a well-formed file" ELSE ""
    [] OTHER -> ""
Ev(c) == c.runs
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- Prep, Events <- Ev, Step <- S
Spec == T!TraceSpec
=============================================================================
