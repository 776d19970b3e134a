------------------------------- MODULE LattDir -------------------------------
(* One working directory in which programs are run one after another.        *)
(*                                                                           *)
(* A program of LattE keeps data of the problem in side files: it writes a   *)
(* request, has a tool write the response, checks how the tool ended, reads  *)
(* the response and removes both.  Any run can stop at any point (killed, or *)
(* its tool killed or failing), can fail to remove its files, and the user   *)
(* can leave truncated files behind.  A file is the number of the problem    *)
(* whose data it holds, negative if it is truncated, 0 if it is absent.      *)
(*                                                                           *)
(* The guarantee is NoMixing: an answer is an answer to the problem the      *)
(* program was given, whatever the directory held.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Problems, Families, Checks, Removes, MaxRuns
Names == {"request", "response"}
VARIABLES dir,      \* family, name |-> content
          pc, fam, prob, plan, answers
dvars == <<dir, pc, fam, prob, plan, answers>>
Refused == 0
DInit == /\ dir = [f \in Families |-> [x \in Names |-> 0]]
         /\ pc = "idle" /\ fam = 0 /\ prob = 0 /\ plan = <<>> /\ answers = <<>>
Set(f, x, v) == dir' = [dir EXCEPT ![f][x] = v]
End(a, k) == /\ pc' = "idle" /\ UNCHANGED <<fam, prob>>
             /\ answers' = Append(answers, <<prob, a>>)
             /\ plan' = Append(plan, [fam |-> fam, prob |-> prob, how |-> k])
Start == /\ pc = "idle" /\ Len(plan) < MaxRuns
         /\ \E f \in Families, q \in Problems : fam' = f /\ prob' = q
         /\ pc' = "clear" /\ UNCHANGED <<dir, plan, answers>>
Clear == /\ pc = "clear" /\ pc' = "write"
         /\ IF Removes THEN Set(fam, "response", 0) ELSE UNCHANGED dir
         /\ UNCHANGED <<fam, prob, plan, answers>>
Write == /\ pc = "write" /\ pc' = "tool" /\ Set(fam, "request", prob) /\ UNCHANGED <<fam, prob, plan, answers>>
(* the tool: reads the request; it may be killed before or while it writes *)
Tool == /\ pc = "tool"
        /\ \/ pc' = "read" /\ Set(fam, "response", dir[fam]["request"]) /\ UNCHANGED <<fam, prob, plan, answers>>
           \/ \E v \in {dir[fam]["response"], -prob} :
                /\ Set(fam, "response", v)
                /\ IF Checks THEN End(Refused, "toolkill") ELSE pc' = "read" /\ UNCHANGED <<fam, prob, plan, answers>>
Read == /\ pc = "read" /\ UNCHANGED <<dir, fam, prob, plan, answers>> /\ pc' = "remove"
Remove == /\ pc = "remove"
          /\ \/ dir' = [dir EXCEPT ![fam] = [x \in Names |-> 0]] /\ End(dir[fam]["response"], "run")
             \/ UNCHANGED dir /\ End(dir[fam]["response"], "keep")
Kill == /\ pc \in {"clear", "write", "tool", "read", "remove"} /\ UNCHANGED dir /\ End(Refused, "kill")
Cut == /\ pc = "idle" /\ plan # <<>> /\ plan[Len(plan)].how \in {"keep", "kill", "toolkill"} /\ Len(plan) < MaxRuns
       /\ \E f \in Families : dir' = [dir EXCEPT ![f] = [x \in Names |-> IF dir[f][x] > 0 THEN -dir[f][x] ELSE dir[f][x]]]
       /\ plan' = Append(plan, [fam |-> 0, prob |-> 0, how |-> "cut"]) /\ UNCHANGED <<pc, fam, prob, answers>>
DNext == Start \/ Clear \/ Write \/ Tool \/ Read \/ Remove \/ Kill \/ Cut
DSpec == DInit /\ [][DNext]_dvars
NoMixing == \A i \in DOMAIN answers : answers[i][2] \in {Refused, answers[i][1]}

(* ---- histories: mostly within one family, ending with proper runs -------- *)
GRun == /\ Len(plan) < MaxRuns
        /\ \E r \in {RandomElement(1..8)} : \E f \in {IF plan = <<>> \/ r = 1 THEN RandomElement(Families) ELSE plan[1].fam} :
           \E q \in {RandomElement(Problems)} :
           \E h \in {RandomElement(IF Len(plan) >= MaxRuns - 2 THEN {"run"} ELSE {"run", "keep", "keep", "kill", "kill2", "toolkill", "keepcut", "bad"})} :
             plan' = Append(plan, [fam |-> f, prob |-> q, how |-> h])
        /\ UNCHANGED <<dir, pc, fam, prob, answers>>
GOut == /\ Len(plan) = MaxRuns /\ pc = "idle" /\ pc' = "out"
        /\ PrintT("CASE " \o ToJson([plan |-> plan])) /\ UNCHANGED <<dir, fam, prob, plan, answers>>
GSpec == DInit /\ [][GRun \/ GOut]_dvars
=============================================================================
