----------------------------- MODULE InitTrace -----------------------------
(* Recorded initialisation histories (each begins with "start") must be behaviours of InitMachine. *)
EXTENDS InitMachine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cur, l
Step(e) ==
  LET Say(what) == PrintT(<<"REJECT", l, e.o, what>>) /\ FALSE
      c == Crv(BToDec(BHex(e.z)), e.b, e.xa, e.xb)
      nxt == CASE e.o = "start" -> None [] e.o = "init" -> InForce(cur, c) [] OTHER -> cur
  IN /\ IF e.o # "init" \/ ("x" \in DOMAIN e) = ~Supported(c) THEN TRUE
        ELSE Say(IF Supported(c) THEN "supported curve refused" ELSE "unsupported curve accepted")
     /\ IF "P" \notin DOMAIN e \/ nxt = None \/ ParamsOK(nxt, e.P) THEN TRUE ELSE Say("parameters are not those of the curve")
     /\ cur' = nxt
Init == cur = None /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<cur, l>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
