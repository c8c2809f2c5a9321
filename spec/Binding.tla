------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* The interface offered to other languages (java/bn254_if.hpp): the same   *)
(* register machine with in-place operations, plus arbitrary integers       *)
(* (registers z, <<"z", <<value>> >>).  An in-place operation d.op(a) is    *)
(* the transition with destination d and operands <<d, a>>.                 *)
(* e.x is present exactly when the call signalled an error; after an error  *)
(* the destination may hold anything, other registers are untouched.        *)
(***************************************************************************)
EXTENDS FieldMachine

Zv(x) == x[2][1]
Failed(e) == "x" \in DOMAIN e
Even(a) == BBit(a, 0) = 0
(* C-like remainder: the sign of the dividend *)
Rem(a, m) == LET q == BMod(BAbs(a), BAbs(m)) IN IF BLt(a, B(0)) THEN BNeg(q) ELSE q

(* text of an integer: canonical decimal or 0x forms must be read, other    *)
(* things GMP takes for numbers (octal, binary, blanks, upper case) may be,  *)
(* the rest must be refused *)
ZLoose(tx) == \E i \in 1..Len(tx) : Hex(tx[i])
ZChars(c) == Hex(c) \/ White(c) \/ c \in {45, 88, 120, 66, 98}
ZTextOK(txt, N, e) ==
  LET n == ParseS(txt, 0) IN
  IF IsNum(n) /\ n[3] THEN ~Failed(e) /\ Zv(N) = n[2]
  ELSE IF IsNum(n) \/ (ZLoose(txt) /\ AllOf(txt, ZChars) /\ txt # << >>) THEN TRUE
  ELSE Failed(e)

PowOf(ty, x, k) ==
  CASE ty = "f" -> FpPow(x, k)
    [] ty = "g" -> F2Pow(x, k)
    [] ty = "t" -> F12Pow(x, k)
ValOf(ty, x) == CASE ty = "f" -> Fv(x) [] ty = "g" -> Gv(x) [] ty = "t" -> Tv(x)
MulOf(ty, x, y) == CASE ty = "f" -> FpMul(x, y) [] ty = "g" -> F2Mul(x, y) [] ty = "t" -> F12Mul(x, y)
OneOf(ty) == CASE ty = "f" -> FpI [] ty = "g" -> F2I [] ty = "t" -> F12I
ZeroOf(ty) == CASE ty = "f" -> FpZ [] ty = "g" -> F2Z [] ty = "t" -> F12Z

(* point text: the syntax, and on the curve *)
PointTextOK(ty, txt, N, e) ==
  LET st == PointReader(ty, Start(txt))
      red == [i \in 1..Len(st[4]) |-> BMod(st[4][i], p)]
      whole == Len(Skip(st[3])) = 0
      fits == \A i \in 1..Len(red) : BLt(st[4][i], p)
      on == Len(red) = 0 \/ (IF ty = "P" THEN OnG1(red[1], red[2]) ELSE OnG2(<<red[1], red[2]>>, <<red[3], red[4]>>))
      got == IF ty = "P" THEN P1(N) = IF Len(red) = 0 THEN Inf ELSE <<red[1], red[2]>>
             ELSE P2(N) = IF Len(red) = 0 THEN Inf ELSE << <<red[1], red[2]>>, <<red[3], red[4]>> >>
  IN IF Failed(e) THEN ~(st[1] /\ st[2] /\ whole /\ fits /\ on)
     ELSE st[1] /\ whole /\ on /\ got

BindOK(o, N, N2, S, e) ==
  CASE o = "z.new" -> Zv(N) = B(0)
    [] o = "z.ld" -> TRUE
    [] o = "z.copy" -> Zv(N) = Zv(S[1])
    [] o = "z.seti" -> Zv(N) = BI(e)
    [] o = "z.set" -> ZTextOK(e.t, N, e)
    [] o = "z.print" -> e.txt = BToDec(Zv(S[1]))
    [] o = "z.cmp" -> e.r = <<Bit(Zv(S[1]) = Zv(S[2])), Sign(Zv(S[1]), Zv(S[2]))>>
    [] o = "z.add" -> Zv(N) = BAdd(Zv(S[1]), Zv(S[2]))
    [] o = "z.sub" -> Zv(N) = BSub(Zv(S[1]), Zv(S[2]))
    [] o = "z.mul" -> Zv(N) = BMul(Zv(S[1]), Zv(S[2]))
    [] o = "z.mod" -> IF Zv(S[2]) = B(0) THEN Failed(e) ELSE ~Failed(e) /\ Zv(N) = Rem(Zv(S[1]), Zv(S[2]))
    [] o = "z.order" -> Zv(N) = r
    [] o \in {"b.eqf", "b.eqg", "b.eqt"} -> LET ty == SubSeq(o, 5, 5) IN e.b = Bit(ValOf(ty, S[1]) = ValOf(ty, S[2]))
    [] o = "b.eqP" -> e.b = Bit(P1(S[1]) = P1(S[2]))
    [] o = "b.eqQ" -> e.b = Bit(P2(S[1]) = P2(S[2]))
    [] o = "b.zeroP" -> e.b = Bit(P1(S[1]) = Inf)
    [] o = "b.zeroQ" -> e.b = Bit(P2(S[1]) = Inf)
    [] o \in {"b.copyf", "b.copyg", "b.copyt"} -> N[2] = S[1][2]
    \* powers: negative exponents mean powers of the inverse
    [] o \in {"b.powf", "b.powg", "b.powt"} ->
         LET ty == SubSeq(o, 6, 6) x == ValOf(ty, S[1]) k == Zv(S[2]) IN
         IF BLt(k, B(0))
         THEN IF x = ZeroOf(ty) THEN TRUE ELSE ~Failed(e) /\ MulOf(ty, ValOf(ty, N), PowOf(ty, x, BNeg(k))) = OneOf(ty)
         ELSE ~Failed(e) /\ ValOf(ty, N) = PowOf(ty, x, k)
    [] o = "b.mulP" -> P1(N) = LET k == Zv(S[2]) IN IF BLt(k, B(0)) THEN G1Neg(G1Mul(P1(S[1]), BNeg(k))) ELSE G1Mul(P1(S[1]), k)
    [] o = "b.mulQ" -> P2(N) = LET k == Zv(S[2]) IN IF BLt(k, B(0)) THEN G2Neg(G2Mul(P2(S[1]), BNeg(k))) ELSE G2Mul(P2(S[1]), k)
    [] o = "b.setg1" -> Gv(N) = <<BMod(BI(e), p), FpZ>>
    [] o = "b.setg2" -> Gv(N) = <<BMod(BI(e), p), BMod(BHex(e.j), p)>>
    [] o = "b.setg" -> Gv(N) = <<Fv(S[1]), Fv(S[2])>>
    [] o = "b.sett1" -> Tv(N) = << <<<<BMod(BI(e), p), FpZ>>, F2Z, F2Z>>, F6Z>>
    [] o = "b.getA" -> Fv(N) = Gv(S[1])[1]
    [] o = "b.getB" -> Fv(N) = Gv(S[1])[2]
    [] o = "b.addA" -> Gv(N) = <<FpAdd(Gv(S[1])[1], Fv(S[2])), Gv(S[1])[2]>>
    [] o = "b.addB" -> Gv(N) = <<Gv(S[1])[1], FpAdd(Gv(S[1])[2], Fv(S[2]))>>
    [] o = "b.parseg2" ->     \* both components as text
         LET Part(tx) == LET n == ParseU(tx, 0) IN IF IsNum(n) THEN <<TRUE, MustTake(n, FALSE), <<>>, <<n[2]>> >> ELSE <<FALSE, TRUE, <<>>, <<>> >>
             a == Part(e.t) b == Part(e.t2) IN
         ReadOK("g", <<a[1] /\ b[1], a[2] /\ b[2], <<>>, a[4] \o b[4]>>, N, e, TRUE)
    [] o = "b.parset" -> LET st == Read12(Start(e.t)) IN
         ReadOK("t", IF Len(Skip(st[3])) = 0 THEN st ELSE <<FALSE, st[2], st[3], st[4]>>, N, e, TRUE)
    [] o = "b.parseP" -> PointTextOK("P", e.t, N, e)
    [] o = "b.parseQ" -> PointTextOK("Q", e.t, N, e)
    [] o \in {"b.getXP", "b.getYP", "b.getZP"} -> N[2][1] = S[1][2][CASE o = "b.getXP" -> 1 [] o = "b.getYP" -> 2 [] OTHER -> 3]
    [] o \in {"b.getXQ", "b.getYQ", "b.getZQ"} -> LET i == CASE o = "b.getXQ" -> 1 [] o = "b.getYQ" -> 3 [] OTHER -> 5 IN
         N[2] = SubSeq(S[1][2], i, i + 1)
    [] OTHER -> OpOK(o, N, N2, S, e)

(* the calls that have a way to refuse *)
MayFail == {"f.read", "g.read", "s.read", "t.read", "P.read", "Q.read", "f.parse", "g.parse", "z.set", "z.mod",
            "b.powf", "b.powg", "b.powt", "b.parseg2", "b.parset", "b.parseP", "b.parseQ"}
BindRenorm == Renorm \cup {"b.eqP", "b.eqQ"}
=============================================================================
