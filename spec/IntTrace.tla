------------------------------ MODULE IntTrace ------------------------------
(* The events recorded from the real code must be a behaviour of IntMachine. *)
EXTENDS IntMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES R, l

(* value registers come as <<name, type, hex, words>>, streams as <<name, "i", codes, 0>> *)
Parse(w) == IF w[2] = "i" THEN <<"i", w[3]>> ELSE <<w[2], BHex(w[3])>>
Normal(w) == w[2] = "i" \/ w[2] = "M" \/ w[4] = Size(BHex(w[3]))
ModName(ty) == IF ty = "z" THEN "Mz" ELSE IF ty = "y" THEN "My" ELSE ""

Step(e) ==
  LET NW   == {e.w[i][1] : i \in 1..Len(e.w)}
      Of(n) == e.w[CHOOSE i \in 1..Len(e.w) : e.w[i][1] = n]
      Val  == [n \in NW |-> Parse(Of(n))]
      RN   == Val @@ R
      S    == [i \in 1..Len(e.s) |-> R[e.s[i]]]
      N    == IF e.d = "" THEN <<>> ELSE RN[e.d]
      N2   == IF e.d2 = "" THEN <<>> ELSE RN[e.d2]
      mn   == ModName(e.ty)
      m    == IF mn = "" THEN B(0) ELSE IF mn \in DOMAIN R THEN V(R[mn]) ELSE B(0)
      refused == "x" \in DOMAIN e
      Say(what) == PrintT(<<"REJECT", l, e.ty, e.o, what>>) /\ FALSE
  IN /\ IF e.o = "ld" \/ \A n \in NW : n = e.d \/ n = e.d2 THEN TRUE ELSE Say("writes outside the destination")
     /\ IF refused
        THEN IF MayRefuse(e.o, e.ty, S, e, m) THEN TRUE ELSE Say("refused: " \o e.x)
        ELSE /\ IF e.o = "ld" \/ \A n \in NW : Normal(Of(n)) THEN TRUE ELSE Say("result not in normal form")
             /\ IF mn = "" \/ e.o \in {"ld", "z.mod"} \/ \A n \in NW : Val[n][1] # e.ty \/ BLt(V(Val[n]), m) THEN TRUE ELSE Say("result not reduced")
             /\ IF OpOK(e.o, e.ty, N, N2, S, e, m) THEN TRUE ELSE Say("wrong value")
     /\ R' = RN

Init == R = [n \in {} |-> <<>>] /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<R, l>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
