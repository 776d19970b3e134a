------------------------------ MODULE LattTrace ------------------------------
(* Stepping through recorded traces.  A trace is one case record with its     *)
(* events; the instantiating module says what each event must satisfy         *)
(* (Check, a sequence of [ok, why] for the events) and the machine walks      *)
(* through it, one transition per event, until it accepts or rejects.         *)
EXTENDS LattGeom

CONSTANTS Traces,         \* the recorded traces
          Prepare(_),     \* case |-> the abstract state the events are judged against
          Events(_),      \* case |-> sequence of events
          Step(_, _, _)   \* case, abstract state, event |-> "" or the reason to reject
VARIABLES case, pos, abs, status
tvars == <<case, pos, abs, status>>

TraceInit == case \in DOMAIN Traces /\ pos = 0 /\ abs = <<>> /\ status = "new"

Begin ==
  /\ status = "new"
  /\ abs' = Prepare(Traces[case])
  /\ status' = "run" /\ UNCHANGED <<case, pos>>
Advance ==
  /\ status = "run" /\ pos < Len(Events(Traces[case]))
  /\ LET why == Step(Traces[case], abs, Events(Traces[case])[pos + 1])
     IN IF why = ""
        THEN pos' = pos + 1 /\ UNCHANGED <<case, abs, status>>
        ELSE /\ status' = "rejected" /\ UNCHANGED <<case, pos, abs>>
             /\ PrintT(<<"REJECT", Traces[case].id, pos + 1, why>>)
Accept ==
  /\ status = "run" /\ pos = Len(Events(Traces[case]))
  /\ status' = "accepted" /\ UNCHANGED <<case, pos, abs>>
  /\ PrintT(<<"ACCEPT", Traces[case].id>>)
TraceNext == Begin \/ Advance \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
