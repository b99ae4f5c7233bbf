------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Does the specification notice?  A recorded execution in which every     *)
(* event carries, in member muts, results that differ in one place from    *)
(* the observed one.  Prints those that would be accepted as well.         *)
(***************************************************************************)
EXTENDS Trace
Would(e, i) == ENABLED Do(e, e.muts[i])
SelfNext == /\ l <= Len(Events)
            /\ \A i \in 1..Len(Events[l].muts) :
                 IF Would(Events[l], i) THEN PrintT(<<"UNNOTICED", l, i>>) ELSE TRUE
            /\ Do(Events[l], Events[l].res)
            /\ l' = l + 1
=============================================================================
