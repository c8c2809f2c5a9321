------------------------------ MODULE MC_Init ------------------------------
(***************************************************************************)
(* All initialisation histories up to MaxLen over a small alphabet of      *)
(* calls.  Every history is printed; the harness replays each of them in a *)
(* fresh process of the real library (specification -> code).              *)
(***************************************************************************)
EXTENDS InitMachine
CONSTANT MaxLen
Call(c, mode, mulx) == [c |-> c, mode |-> mode, mulx |-> mulx]
Other == IF Build = "snark" THEN <<BNb, Crv(ZSnark, 2, 9, 1), Crv(ZSnark, 3, 1, 1), Crv("5", 3, 9, 1)>>
         ELSE <<Snark1, Crv(ZBNb, 3, 1, 1), Crv(ZBNb, 2, 1, 2), Crv("5", 2, 1, 1)>>
Alphabet ==
  (IF Build = "snark"
   THEN {Call(Snark1, -1, 1), Call(Snark1, 0, 0), Call(Snark2, 1, 1), Call(Snark2, 0, 1)}
   ELSE {Call(BNb, -1, 1), Call(BNb, 0, 0), Call(BNb, 1, 1)})
  \cup {Call(Other[i], 0, 1) : i \in 1..4}
VARIABLES hist, cur
Init == hist = <<>> /\ cur = None
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Alphabet : hist' = Append(hist, k) /\ cur' = InForce(cur, k.c)
Spec == Init /\ [][Next]_<<hist, cur>>
(* the curve in force is that of the last accepted call *)
LastOK == LET ok == {i \in 1..Len(hist) : Supported(hist[i].c)} IN
  cur = IF ok = {} THEN None ELSE hist[CHOOSE i \in ok : \A j \in ok : j <= i].c
Arg(k) == k.c.z \o ":" \o ToString(k.c.b) \o ":" \o ToString(k.c.xa) \o ":" \o ToString(k.c.xb) \o ":" \o ToString(k.mode) \o ":" \o ToString(k.mulx)
Emit == Len(hist) = MaxLen => PrintT(<<"HISTORY", FoldLeft(LAMBDA acc, k: acc \o " " \o Arg(k), "", hist)>>)
=============================================================================
