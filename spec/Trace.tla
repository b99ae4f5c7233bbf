-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Is a recorded execution of the implementation a behaviour of Sia?       *)
(* The trace is one event per line: the command and, in member res, the    *)
(* observed result.  The execution is accepted iff every event is a step.  *)
(***************************************************************************)
EXTENDS Sia, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1
\* a call that ended the process, or never returned, is no step
TraceNext == /\ l <= Len(Events)
             /\ "abort" \notin DOMAIN Events[l]
             /\ Do(Events[l], Events[l].res)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
\* one state per accepted event and the initial one
Accepted == LET n == TLCGet("stats").diameter - 1
            IN IF n = Len(Events) THEN TRUE ELSE PrintT(<<"REJECTED", n + 1>>) /\ FALSE
=============================================================================
