------------------------------ MODULE LattDbGen ------------------------------
(* Histories of operations on the experiment database: first polynomials and  *)
(* polytopes with their duals, then everything mixed.  Which row or file an   *)
(* operation takes is a number k, resolved among those that exist.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fill, Ops, Dims, Vcs, Degs, Vals, Times, Drive    \* Drive: with runs of the drivers
VARIABLES hist, done
R(S) == RandomElement(S)
Args(u) == [alg |-> R(1..2), dim |-> R(Dims), vc |-> R(Vcs), deg |-> R(Degs), dual |-> R(BOOLEAN), count |-> R(0..3), limit |-> R({0, 1, 2, 50}),
            secs |-> R({1, 2, 3, 600}), k |-> R(0..40), time |-> R(Times), val |-> <<R(Vals), R({1, 7})>>]
Op(o) == hist' = Append(hist, [op |-> o] @@ Args(Len(hist))) /\ UNCHANGED done
Questions == {"polyExists", "topeExists", "numPoly", "numTopes", "numTests", "numTestsFile", "completed", "limit", "limitFile", "rows", "rowsFile", "files",
              "stats", "statsFile", "finish", "finishFile", "volRows", "volRowsFile", "volCompleted", "volStats", "volFinish"}
Insert == \E r \in {R(1..9)} : Op(IF r <= 5 THEN "insPoly" ELSE IF r <= 8 THEN "insPair" ELSE "insTope")
Work == \E r \in {R(1..16)} :
  CASE r <= 3 -> Op("tests") [] r <= 5 -> Op("specific") [] r <= 9 -> Op("update") [] r = 10 -> Op("addVol") [] r = 11 -> Op("updVol")
    [] r = 12 -> Op("skip") [] r = 13 -> Op("insPoly") [] r = 14 -> Op("delPoly") [] OTHER -> \E q \in {R(Questions)} : Op(q)
Drives == \E r \in {R(1..12)} :
  CASE r <= 2 -> Op("tests") [] r = 3 -> Op("specific") [] r = 4 -> Op("update") [] r = 5 -> Op("addVol") [] r = 6 -> Op("skip")
    [] r = 7 -> Op("runVol") [] r = 8 -> Op("runVolFile") [] r = 9 -> Op("runFile") [] OTHER -> Op("run")
Ask == \E q \in {R(Questions)} : Op(q)
GInit == hist = <<>> /\ done = FALSE
GNext == \/ Len(hist) < Fill /\ Insert
         \/ Len(hist) >= Fill /\ Len(hist) < Fill + Ops /\ (IF Drive THEN Drives ELSE IF Len(hist) % 4 = 3 THEN Ask ELSE Work)
         \/ Len(hist) = Fill + Ops /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("CASE " \o ToJson([hist |-> hist]))
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
