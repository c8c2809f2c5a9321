------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* Configuration independence (P14): one program run under several          *)
(* configurations is one behaviour.  Every configuration keeps its own      *)
(* register file; a step executes the same call in all of them and is       *)
(* allowed only if the calls, their outputs and the written registers agree *)
(* bit for bit, so that the register files never drift apart.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Name(i) == "TRACE" \o ToString(i)
Confs == {i \in 1..16 : Name(i) \in DOMAIN IOEnv}
Trace == [i \in Confs |-> ndJsonDeserialize(IOEnv[Name(i)])]

VARIABLES regs, l

Written(e) == [n \in {e.w[i][1] : i \in 1..Len(e.w)} |->
                 e.w[CHOOSE i \in 1..Len(e.w) : e.w[i][1] = n]]
(* the coordinates of a point at infinity are immaterial (uninitialised) *)
Norm(w) == LET x == w[3] IN
  IF \/ w[2] \in {"p", "u"} /\ x[3] = "0"
     \/ w[2] \in {"q", "v"} /\ x[5] = "0" /\ x[6] = "0"
  THEN <<w[1], w[2], "infinity">> ELSE w
View(e) == [e EXCEPT !.w = [i \in 1..Len(e.w) |-> Norm(e.w[i])]]
Say(what, i) == PrintT(<<"REJECT", l, Trace[1][l].o, what, i>>) /\ FALSE
Exec(i, e) == Written(e) @@ regs[i]

Init == l = 1 /\ regs = [i \in Confs |-> [n \in {} |-> <<>>]]
Next ==
  /\ l <= Len(Trace[1])
  /\ \A i \in Confs :
       /\ IF Len(Trace[i]) = Len(Trace[1]) THEN TRUE ELSE Say("different number of steps in configuration", i)
       /\ IF View(Trace[i][l]) = View(Trace[1][l]) THEN TRUE ELSE Say("different result in configuration", i)
  /\ regs' = [i \in Confs |-> Exec(i, View(Trace[i][l]))]
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<regs, l>>

SameState == \A i \in Confs : regs[i] = regs[1]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace[1])>>)
=============================================================================
