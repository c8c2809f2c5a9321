--------------------------- MODULE IntSensitivity ---------------------------
(* The same as Sensitivity for the integer machine. *)
EXTENDS IntTrace

Judge(e, Val) ==
  LET NW   == DOMAIN Val
      RN   == Val @@ R
      S    == [i \in 1..Len(e.s) |-> R[e.s[i]]]
      N    == IF e.d = "" THEN <<>> ELSE RN[e.d]
      N2   == IF e.d2 = "" THEN <<>> ELSE RN[e.d2]
      mn   == ModName(e.ty)
      m    == IF mn = "" THEN B(0) ELSE IF mn \in DOMAIN R THEN V(R[mn]) ELSE B(0)
  IN /\ \A n \in NW : n = e.d \/ n = e.d2
     /\ IF "x" \in DOMAIN e THEN MayRefuse(e.o, e.ty, S, e, m)
        ELSE /\ mn = "" \/ e.o = "z.mod" \/ \A n \in NW : Val[n][1] # e.ty \/ BLt(V(Val[n]), m)
             /\ OpOK(e.o, e.ty, N, N2, S, e, m)
Flip(v) == IF v = 0 THEN 1 ELSE 0
Told(e, what, acc) == IF acc THEN PrintT(<<"SURVIVES", e.ty \o "." \o e.o, what, l>>) ELSE TRUE
Sens(e) ==
  LET NW  == {e.w[i][1] : i \in 1..Len(e.w)}
      Of(n) == e.w[CHOOSE i \in 1..Len(e.w) : e.w[i][1] = n]
      Val  == [n \in NW |-> Parse(Of(n))]
      Role(n) == IF n = e.d THEN "d" ELSE "d2"
      With(n, v) == [k \in NW |-> IF k = n THEN <<Val[n][1], v>> ELSE Val[k]]
  IN IF e.o = "ld" THEN TRUE ELSE
     /\ PrintT(<<"TRIED", e.ty \o "." \o e.o, IF "x" \in DOMAIN e THEN "refused" ELSE "all", l>>)
     /\ Told(e, "unaltered refused", ~Judge(e, Val))
     /\ \A n \in NW : IF "x" \in DOMAIN e THEN TRUE ELSE IF Val[n][1] = "i"
          THEN Told(e, Role(n) \o " longer", Judge(e, With(n, <<48>> \o Val[n][2])))
          ELSE /\ Told(e, Role(n) \o "+1", Judge(e, With(n, BAdd(V(Val[n]), B(1)))))
               /\ IF V(Val[n]) = B(0) THEN TRUE ELSE Told(e, Role(n) \o "=0", Judge(e, With(n, B(0)))) /\ Told(e, Role(n) \o "=-", Judge(e, With(n, BNeg(V(Val[n])))))
     /\ \A n \in NW : IF n \notin DOMAIN R \/ "x" \in DOMAIN e THEN TRUE ELSE IF R[n] = Val[n] THEN TRUE ELSE Told(e, Role(n) \o " unwritten", Judge(e, [k \in NW \ {n} |-> Val[k]]))
     /\ IF "b" \in DOMAIN e THEN Told(e, "b", Judge([e EXCEPT !.b = Flip(@)], Val)) ELSE TRUE
     /\ IF "r" \in DOMAIN e THEN \A i \in 1..Len(e.r) : Told(e, "r" \o ToString(i), Judge([e EXCEPT !.r[i] = Flip(@)], Val)) ELSE TRUE
     /\ IF "rem" \in DOMAIN e THEN Told(e, "rem", Judge([e EXCEPT !.rem = "1" \o @], Val)) ELSE TRUE
     /\ IF "txt" \in DOMAIN e THEN Told(e, "txt", Judge([e EXCEPT !.txt = @ \o "0"], Val)) ELSE TRUE
     /\ IF "x" \in DOMAIN e THEN TRUE ELSE Told(e, "x added", Judge([k \in DOMAIN e \cup {"x"} |-> IF k = "x" THEN "!" ELSE e[k]], Val))
SNext == l <= Len(Trace) /\ Sens(Trace[l]) /\ Step(Trace[l]) /\ l' = l + 1
SSpec == Init /\ [][SNext]_<<R, l>>
=============================================================================
