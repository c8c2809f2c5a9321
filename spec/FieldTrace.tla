----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Trace checking: the events recorded from the real code must be a        *)
(* behaviour of FieldMachine.  A rejected event is reported and ends the   *)
(* behaviour, so the diameter tells whether the trace was accepted.        *)
(***************************************************************************)
EXTENDS Binding, BNParams, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES R, l

Parse(w) == <<w[2], [i \in 1..Len(w[3]) |-> BHex(w[3][i])]>>

Step(e) ==
  LET W    == [i \in 1..Len(e.w) |-> e.w[i][1]]
      NW   == {W[i] : i \in 1..Len(W)}
      Val  == [n \in NW |-> Parse(e.w[CHOOSE i \in 1..Len(W) : W[i] = n])]
      tab  == e.o \in {"e.pre", "tab"}
      RW   == Val @@ R
      RN   == IF tab THEN (e.d :> <<"C", P2(R[e.s[1]])>>) @@ RW ELSE RW
      S    == [i \in 1..Len(e.s) |-> R[e.s[i]]]
      N    == IF e.d = "" THEN <<>> ELSE RN[e.d]
      N2   == IF e.o \in InOut THEN RN[e.s[1]] ELSE IF e.o = "e.pre" THEN RN[e.s[2]] ELSE <<>>
      frame == \A n \in NW : \/ MayWrite(e.o, e.d, e.s, n)
                             \/ n \in DOMAIN R /\ e.o \in BindRenorm /\ Same(R[n], Val[n])
      canon == e.o \in {"ld", "z.ld"} \/ \A n \in NW : Canon(Val[n])
      Say(what) == PrintT(<<"REJECT", l, e.o, what>>) /\ FALSE
  IN /\ IF frame THEN TRUE ELSE Say("writes outside the destination")
     /\ IF "x" \in DOMAIN e => e.o \in MayFail THEN TRUE ELSE Say("refused")
     /\ IF "abi" \notin DOMAIN e THEN TRUE ELSE Say("callee-saved register clobbered")
     /\ IF "tab" \notin DOMAIN e THEN TRUE ELSE Say("line table changed")
     /\ IF canon THEN TRUE ELSE Say("result not reduced")
     /\ IF BindOK(e.o, N, N2, S, e) THEN TRUE ELSE Say("wrong value")
     \* th: the trace of another thread, with registers of its own, begins
     \* undo: one of several repetitions of the call that follows
     /\ R' = IF e.o = "th" THEN [n \in {} |-> <<>>] ELSE IF "undo" \in DOMAIN e THEN R ELSE RN

Init == R = [n \in {} |-> <<>>] /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<R, l>>

Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
