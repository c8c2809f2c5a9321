---------------------------- MODULE Sensitivity ----------------------------
(***************************************************************************)
(* How much the specification of each call constrains its result: every    *)
(* event of a recorded (accepted) trace is altered in one place at a time - *)
(* one component of one written register moved by one or set to zero, one   *)
(* write forgotten, one flag flipped - and the altered event must not be a  *)
(* behaviour.  Alterations the specification lets through are reported;     *)
(* bin/sensitivity.py compares them with the list of those that are meant   *)
(* to be let through (other representatives of the same value).             *)
(***************************************************************************)
EXTENDS FieldTrace

Judge(e, Val) ==
  LET NW   == DOMAIN Val
      RW   == Val @@ R
      tab  == e.o \in {"e.pre", "tab"}
      RN   == IF tab THEN (e.d :> <<"C", P2(R[e.s[1]])>>) @@ RW ELSE RW
      S    == [i \in 1..Len(e.s) |-> R[e.s[i]]]
      N    == IF e.d = "" THEN <<>> ELSE RN[e.d]
      N2   == IF e.o \in InOut THEN RN[e.s[1]] ELSE IF e.o = "e.pre" THEN RN[e.s[2]] ELSE <<>>
  IN /\ \A n \in NW : MayWrite(e.o, e.d, e.s, n) \/ (n \in DOMAIN R /\ e.o \in BindRenorm /\ Same(R[n], Val[n]))
     /\ \A n \in NW : Canon(Val[n])
     /\ "x" \in DOMAIN e => e.o \in MayFail
     /\ BindOK(e.o, N, N2, S, e)

Put(x, j, v) == <<x[1], [k \in 1..Len(x[2]) |-> IF k = j THEN v ELSE x[2][k]]>>
Flip(v) == IF v = 0 THEN 1 ELSE 0
Told(e, what, acc) == IF acc THEN PrintT(<<"SURVIVES", e.o, what, l>>) ELSE TRUE
(* a destination nothing is said about: after a refusal, and at infinity, where X and Y are immaterial *)
Free(e, x) == \/ "x" \in DOMAIN e
              \/ "b" \in DOMAIN e /\ e.b = 0 /\ e.o \in {"f.sqrt", "P.set2", "Q.set2", "P.set3", "Q.set3"}
              \/ x[1] \in {"p", "u"} /\ x[2][3] = B(0)
              \/ x[1] \in {"q", "v"} /\ x[2][5] = B(0) /\ x[2][6] = B(0)
Sens(e) ==
  LET W   == [i \in 1..Len(e.w) |-> e.w[i][1]]
      NW  == {W[i] : i \in 1..Len(W)}
      Val == [n \in NW |-> Parse(e.w[CHOOSE i \in 1..Len(W) : W[i] = n])]
      Role(n) == IF n = e.d THEN "d" ELSE "s"
      Old(n, j) == IF n \in DOMAIN R /\ Len(R[n][2]) = Len(Val[n][2]) THEN R[n][2][j] ELSE B(0)
  IN IF e.o \in {"ld", "z.ld", "th", "tab"} THEN TRUE ELSE
     /\ Told(e, "unaltered refused", ~Judge(e, Val))
     /\ PrintT(<<"TRIED", e.o, "all", l>>)
     /\ \A n \in NW : IF Free(e, Val[n]) THEN TRUE ELSE \A j \in 1..Len(Val[n][2]) :
          /\ Told(e, Role(n) \o ToString(j) \o "+1", Judge(e, [Val EXCEPT ![n] = Put(Val[n], j, BAdd(Val[n][2][j], B(1)))]))
          /\ IF Val[n][2][j] = B(0) THEN TRUE ELSE Told(e, Role(n) \o ToString(j) \o "=0", Judge(e, [Val EXCEPT ![n] = Put(Val[n], j, B(0))]))
          /\ IF Old(n, j) = Val[n][2][j] THEN TRUE ELSE Told(e, Role(n) \o ToString(j) \o "=old", Judge(e, [Val EXCEPT ![n] = Put(Val[n], j, Old(n, j))]))
     /\ \A n \in NW : IF n \notin DOMAIN R THEN TRUE ELSE IF Free(e, Val[n]) THEN TRUE ELSE IF Same(R[n], Val[n]) THEN TRUE ELSE Told(e, Role(n) \o " unwritten", Judge(e, [m \in NW \ {n} |-> Val[m]]))
     /\ IF "b" \in DOMAIN e THEN Told(e, "b", Judge([e EXCEPT !.b = Flip(@)], Val)) ELSE TRUE
     /\ IF "r" \in DOMAIN e THEN \A i \in 1..Len(e.r) : Told(e, "r" \o ToString(i), Judge([e EXCEPT !.r[i] = Flip(@)], Val)) ELSE TRUE
     /\ IF "txt" \in DOMAIN e THEN Told(e, "txt", Judge([e EXCEPT !.txt = @ \o "0"], Val)) ELSE TRUE
     /\ IF "x" \in DOMAIN e THEN Told(e, "x dropped", Judge([k \in DOMAIN e \ {"x"} |-> e[k]], Val))
        ELSE Told(e, "x added", Judge([k \in DOMAIN e \cup {"x"} |-> IF k = "x" THEN "!" ELSE e[k]], Val))

SNext == l <= Len(Trace) /\ Sens(Trace[l]) /\ Step(Trace[l]) /\ l' = l + 1
SSpec == Init /\ [][SNext]_<<R, l>>
=============================================================================
