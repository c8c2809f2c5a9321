----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* NoInterference over all interleavings, and the schedules to replay: the  *)
(* behaviours in which thread 1 is preempted once, after k of its steps,    *)
(* and thread 2 then runs its whole call.  A schedule is printed as          *)
(* famA:famB:k:cold; cold: it is the first call of its kind after           *)
(* initialisation.                                                          *)
(***************************************************************************)
EXTENDS Threads
CONSTANTS Families        \* number of families of library calls
VARIABLES fa, fb, cold, at
mc == <<fa, fb, cold, at>>
Init == /\ pc = [t \in Thread |-> -1]
        /\ arg = [t \in Thread |-> 7 * t]
        /\ scratch = [t \in Thread |-> 0]
        /\ res = [t \in Thread |-> 0]
        /\ running = 1 /\ switches = 0 /\ at = -1
        /\ fa \in 0..(Families - 1) /\ fb \in {fa, (7 * fa + 3) % Families}
        /\ cold \in 0..1
Next == /\ \E t \in Thread : /\ Step(t)
                             /\ at' = IF t = 2 /\ pc[2] = -1 THEN pc[1] ELSE at
        /\ UNCHANGED <<fa, fb, cold>>
Spec == Init /\ [][Next]_<<vars, mc>>
Schedule == (\A t \in Thread : Done(t)) /\ at \in 0..(Steps - 1) /\ switches = 1 /\ running = 1
Emit == (Schedule /\ (cold = 1 => fa # Families - 1 /\ fb # Families - 1))
        => PrintT(<<"SCHEDULE", ToString(fa) \o ":" \o ToString(fb) \o ":" \o ToString(at) \o ":" \o ToString(cold)>>)
=============================================================================
