------------------------------ MODULE ApiTrace ------------------------------
(* Recorded histories of calls against ApiMachine. *)
EXTENDS ApiMachine, BNParams, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES R, l
(* all registers hold infinity, all values are 1 *)
Start == LET names == [i \in 1..8 |-> "P" \o ToString(i - 1)] \o [i \in 1..8 |-> "Q" \o ToString(i - 1)] \o [i \in 1..12 |-> "T" \o ToString(i - 1)]
         IN [n \in {names[i] : i \in 1..28} |-> Zero(Dim(SubSeq(n, 1, 1)))]
Step(e) == IF e.o = "start" THEN R' = Start ELSE
  LET ty == SubSeq(e.d, 1, 1)
      s == [i \in 1..Len(e.s) |-> R[e.s[i]]]
      k == IF "k" \in DOMAIN e THEN BHex(e.k) ELSE B(0)
      v == TLCEval(Result(e.o, ty, s, k, IF "i" \in DOMAIN e THEN e.i ELSE 0))
      RN == (e.d :> v) @@ R
      mates == {n \in DOMAIN RN : SubSeq(n, 1, 1) = ty}
      Say(what) == PrintT(<<"REJECT", l, e.o, what>>) /\ FALSE
  IN /\ IF e.u = (IF v = Zero(Dim(ty)) THEN 1 ELSE 0) THEN TRUE ELSE Say("unit or infinity")
     /\ IF {e.eq[i] : i \in 1..Len(e.eq)} = {n \in mates : RN[n] = v} THEN TRUE ELSE Say("equality")
     /\ R' = RN
Init == R = [n \in {} |-> <<>>] /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<R, l>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
