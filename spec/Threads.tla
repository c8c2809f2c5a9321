------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Threads that work on their own objects.                                 *)
(*                                                                         *)
(* A library call is not atomic: it runs through internal steps that keep   *)
(* intermediate values in a scratch place.  The claim that threads do not   *)
(* interfere is the claim that this place is private to the call.  Private  *)
(* = TRUE is the library as it should be; with Private = FALSE (scratch in  *)
(* static storage) TLC finds a schedule that breaks NoInterference after a  *)
(* single preemption, which is why the schedules replayed in the real code  *)
(* are those with one preemption (MC_Threads).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thread, Steps, Private
VARIABLES pc, arg, scratch, res, running, switches
vars == <<pc, arg, scratch, res, running, switches>>
Place(t) == IF Private THEN t ELSE CHOOSE u \in Thread : TRUE
Mix(a, x, i) == (3 * a + x + i) % 101
RECURSIVE Alone(_, _)
Alone(x, i) == IF i = 0 THEN x ELSE Mix(Alone(x, i - 1), x, i)
Begin(t) == /\ pc[t] = -1
            /\ scratch' = [scratch EXCEPT ![Place(t)] = arg[t]]
Work(t) == /\ pc[t] \in 0..(Steps - 1)
           /\ scratch' = [scratch EXCEPT ![Place(t)] = Mix(@, arg[t], pc[t] + 1)]
Step(t) == /\ Begin(t) \/ Work(t)
           /\ pc' = [pc EXCEPT ![t] = @ + 1]
           /\ switches' = switches + (IF running = t \/ pc[running] = Steps THEN 0 ELSE 1)
           /\ running' = t
           /\ res' = IF pc'[t] = Steps THEN [res EXCEPT ![t] = scratch'[Place(t)]] ELSE res
           /\ UNCHANGED arg
Done(t) == pc[t] = Steps
NoInterference == \A t \in Thread : Done(t) => res[t] = Alone(arg[t], Steps)
=============================================================================
