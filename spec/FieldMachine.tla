---------------------------- MODULE FieldMachine ----------------------------
(***************************************************************************)
(* The library as a register machine.                                      *)
(*                                                                         *)
(* State: a register file R, name -> <<type, components>>.  Components are *)
(* the stored residues ("raw"): a field element x is stored as x*2^256 mod *)
(* p.  Every library call is a transition; Allowed(R, e, RN) says whether  *)
(* the call recorded as e (operation, operands, observed outputs) may take *)
(* register file R to RN.  Results are specified by the mathematical       *)
(* definitions of BNField/BNCurve/BNPairing, canonical form and frame      *)
(* included; where the library is free to choose (projective               *)
(* representatives, scaling of lines, lazily reduced values) the relation  *)
(* is non-deterministic.                                                   *)
(*                                                                         *)
(* Types: f Fp, n unreduced Fp word, g Fp2, m unreduced Fp2, s Fp6,        *)
(*  t Fp12, d/e/h/k double-width (1, 1, 2, 6 components), p G1 point,      *)
(*  q G2 point, u/v free G1/G2 triples, y Miller line, C line table.       *)
(***************************************************************************)
EXTENDS BNPairing, Text

Two256 == BPow(B(2), 256)
PN == BMul(p, Two256)
RInv == BInv(BMod(Two256, p), p)
RMont == BMod(Two256, p)
Two512 == BPow(B(2), 512)

(* ---- reading registers ------------------------------------------------ *)
FpVal(w) == BMod(BMul(w, RInv), p)
Fv(x) == FpVal(x[2][1])
F2At(c, i) == <<FpVal(c[i]), FpVal(c[i + 1])>>
Gv(x) == F2At(x[2], 1)
Sv(x) == <<F2At(x[2], 1), F2At(x[2], 3), F2At(x[2], 5)>>
Tv(x) == << <<F2At(x[2], 1), F2At(x[2], 3), F2At(x[2], 5)>>,
            <<F2At(x[2], 7), F2At(x[2], 9), F2At(x[2], 11)>> >>
T1v(x) == <<FpVal(x[2][1]), FpVal(x[2][2]), FpVal(x[2][3])>>
T2v(x) == <<F2At(x[2], 1), F2At(x[2], 3), F2At(x[2], 5)>>
P1(x) == G1OfJac(T1v(x))
P2(x) == G2OfJac(T2v(x))
H2(x) == G2OfHom(T2v(x))
Dv(x) == x[2][1]

Same(x, y) ==              \* the same denoted value, whatever the representation
  x[1] = y[1] /\ CASE x[1] = "p" -> P1(x) = P1(y)
                   [] x[1] = "q" -> P2(x) = P2(y)
                   [] OTHER -> x[2] = y[2]

AllCanon(c) == \A i \in 1..Len(c) : BLt(c[i], p)
Canon(x) == CASE x[1] \in {"n", "m", "d", "e", "h", "k", "C", "z"} -> TRUE
              [] x[1] = "y" -> AllCanon(SubSeq(x[2], 1, 4))
              \* the coordinates of the point at infinity are immaterial, its Z is not
              [] x[1] \in {"p", "u"} -> AllCanon(x[2]) \/ x[2][3] = B(0)
              [] x[1] \in {"q", "v"} -> AllCanon(x[2]) \/ (x[2][5] = B(0) /\ x[2][6] = B(0))
              [] OTHER -> AllCanon(x[2])

(* ---- double-width values ---------------------------------------------- *)
InPN(a) == BLe(B(0), a) /\ BLt(a, PN)
CongP(a, b) == BMod(BSub(a, b), p) = B(0)
DblIs(a, b) == InPN(a) /\ CongP(a, b)        \* congruent and in range
(* Fp2 products of unreduced components, over the integers *)
ReMul(x, y) == BSub(BMul(x[1], y[1]), BMul(x[2], y[2]))
ImMul(x, y) == BAdd(BMul(x[1], y[2]), BMul(x[2], y[1]))
(* Montgomery reduction *)
Redc(a) == BMod(BMul(a, RInv), p)
Pair(c, i) == <<c[2 * i - 1], c[2 * i]>>
AddZ(x, y) == <<BAdd(x[1], y[1]), BAdd(x[2], y[2])>>
MulZ(x, y) == <<ReMul(x, y), ImMul(x, y)>>
MulXiZ(x) == MulZ(x, <<B(XiA), B(XiB)>>)
(* the six double-width coefficients of an Fp6 product, over the integers *)
Fp6MulZ(x, y) ==
  LET X(i) == Pair(x, i) Y(i) == Pair(y, i) IN
  << AddZ(MulZ(X(1), Y(1)), MulXiZ(AddZ(MulZ(X(2), Y(3)), MulZ(X(3), Y(2))))),
     AddZ(AddZ(MulZ(X(1), Y(2)), MulZ(X(2), Y(1))), MulXiZ(MulZ(X(3), Y(3)))),
     AddZ(AddZ(MulZ(X(1), Y(3)), MulZ(X(2), Y(2))), MulZ(X(3), Y(1))) >>

(* ---- comparisons ------------------------------------------------------ *)
Bit(b) == IF b THEN 1 ELSE 0
Sign(a, b) == IF BLt(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1

(* ---- Miller lines ----------------------------------------------------- *)
(* A line register <<a, b, c>> stands for a + b w^3 + c w^4.  It must be a  *)
(* non-zero multiple, by an element of Fp2, of                              *)
(*     xi (lam xT - yT) + yP w^3 - lam xP w^4,                              *)
(* which is w^3 times the line through psi(T) with slope lam w at P.        *)
Cross(a, b, x, y) == F2Mul(a, y) = F2Mul(b, x)
Propor(l, m) == /\ Cross(l[1], l[2], m[1], m[2])
                /\ Cross(l[1], l[3], m[1], m[3])
                /\ Cross(l[2], l[3], m[2], m[3])
                /\ l # F6Z
LineVals(lam, T, P) == << F2MulXi(F2Sub(F2Mul(lam, T[1]), T[2])),
                          <<P[2], FpZ>>, F2Neg(F2MulFp(lam, P[1])) >>
OneOne == <<FpI, FpI>>         \* "xP = yP = 1" for the variants without P
(* a + b w^3 + c w^4 as a full element *)
LineFull(x) == << <<x[1], F2Z, x[3]>>, <<F2Z, x[2], F2Z>> >>
Small3p(c) == \A i \in 5..6 : BLt(c[i], BMul(B(3), p))

(* ---- text ------------------------------------------------------------- *)
F2Text(x, b) == "[" \o NumText(x[1], b) \o "," \o NumText(x[2], b) \o "]"
F6Text(x, b) == "[" \o F2Text(x[1], b) \o ",\n " \o F2Text(x[2], b) \o ",\n " \o F2Text(x[3], b) \o "]"
F12Text(x, b) == "[" \o F6Text(x[1], b) \o ",\n " \o F6Text(x[2], b) \o "]"
ElemText(ty, x, b) ==
  CASE ty = "f" -> NumText(Fv(x), b)
    [] ty = "d" -> "Dbl(" \o NumText(x[2][1], b) \o ")"
    [] ty = "g" -> F2Text(Gv(x), b)
    [] ty = "s" -> F6Text(Sv(x), b)
    [] ty = "t" -> F12Text(Tv(x), b)
    [] ty = "P" -> IF P1(x) = Inf THEN "0" ELSE NumText(P1(x)[1], 16) \o "_" \o NumText(P1(x)[2], 16)
    [] ty = "Q" -> IF P2(x) = Inf THEN "0" ELSE F2Text(P2(x)[1], 16) \o "_" \o F2Text(P2(x)[2], 16)
ElemReader(ty, st) == CASE ty = "f" -> Read1(st) [] ty = "g" -> Read2(st) [] ty = "s" -> Read6(st) [] ty = "t" -> Read12(st)
(* one half of a point's text *)
HalfRead(ty, s) ==          \* a reader state
  IF ty = "P" THEN LET n == ParseU(s, 0) IN
       IF IsNum(n) THEN <<TRUE, MustTake(n, FALSE), <<>>, <<n[2]>> >> ELSE <<FALSE, TRUE, s, <<>> >>
  ELSE LET st == Read2(Start(s)) IN IF Len(Skip(st[3])) = 0 THEN st ELSE <<FALSE, st[2], st[3], st[4]>>
PointReader(ty, st) ==
  LET s == Skip(st[3]) k == WordLen(s, 1) w == SubSeq(s, 1, k) rest == From(s, k + 1)
      us == {i \in 1..k : w[i] = 95} IN
  IF w = <<48>> THEN <<TRUE, TRUE, rest, <<>> >>
  ELSE IF us = {} THEN <<FALSE, TRUE, rest, <<>> >>
  ELSE LET u == CHOOSE i \in us : \A j \in us : i <= j
           a == HalfRead(ty, SubSeq(w, 1, u - 1)) b == HalfRead(ty, SubSeq(w, u + 1, k)) IN
       <<a[1] /\ b[1], a[2] /\ b[2], rest, a[4] \o b[4]>>
(* e.t the text; e.x present when the call refused; e.rest what it left *)
ReadOK(ty, st, N, e, whole) ==
  LET vals == st[4]
      red == [i \in 1..Len(vals) |-> BMod(vals[i], p)]
      fits == \A i \in 1..Len(vals) : BLt(vals[i], p)
      Got == CASE ty = "f" -> <<Fv(N)>> = red
               [] ty = "P" -> IF Len(red) = 0 THEN P1(N) = Inf ELSE T1v(N) = <<red[1], red[2], FpI>>
               [] ty = "Q" -> IF Len(red) = 0 THEN P2(N) = Inf ELSE T2v(N) = << <<red[1], red[2]>>, <<red[3], red[4]>>, F2I>>
               [] OTHER -> [i \in 1..Len(N[2]) |-> FpVal(N[2][i])] = red
  IN IF "x" \in DOMAIN e THEN ~(st[1] /\ st[2] /\ fits)
     ELSE st[1] /\ Got /\ (whole \/ e.rest = st[3])
OpOfType == [o \in {"f.print", "d.print", "g.print", "s.print", "t.print", "P.print", "Q.print",
                    "f.read", "g.read", "s.read", "t.read", "P.read", "Q.read", "f.parse", "g.parse"} |-> SubSeq(o, 1, 1)]

(* ---- the relation ----------------------------------------------------- *)
(* S: operand registers before the call; N: destination after the call;    *)
(* N2: an in/out first operand after the call; e: recorded outputs.        *)
BI(e) == BHex(e.i)
BelowHalf(x) == BLt(BAdd(x, x), PN)

OpOK(o, N, N2, S, e) ==
  CASE o \in {"ld", "th", "tab"} -> TRUE
    (* base field *)
    [] o = "f.add" -> Fv(N) = FpAdd(Fv(S[1]), Fv(S[2]))
    [] o = "f.sub" -> Fv(N) = FpSub(Fv(S[1]), Fv(S[2]))
    [] o = "f.neg" -> Fv(N) = FpNeg(Fv(S[1]))
    [] o = "f.mul" -> Fv(N) = FpMul(Fv(S[1]), Fv(S[2]))
    [] o = "f.sqr" -> Fv(N) = FpSqr(Fv(S[1]))
    [] o = "f.inv" -> FpMul(Fv(N), Fv(S[1])) = FpI
    [] o = "f.div" -> FpMul(Fv(N), Fv(S[2])) = Fv(S[1])
    [] o = "f.half" -> FpAdd(Fv(N), Fv(N)) = Fv(S[1])
    [] o = "f.quarter" -> FpMul(FpInt(4), Fv(N)) = Fv(S[1])
    [] o = "f.sqrt" -> /\ (e.b = 1) = FpIsSquare(Fv(S[1]))
                       /\ e.b = 1 => FpSqr(Fv(N)) = Fv(S[1])
    [] o = "f.cmp" -> LET a == Fv(S[1]) b == Fv(S[2]) IN
         /\ Len(e.r) = 8
         /\ e.r[2] = Bit(a = b) /\ e.r[3] = Bit(a # b)
         /\ e.r[8] = Bit(a = FpZ)
         \* an order on residues: a total order consistent with equality
         /\ (e.r[1] = 0) = (a = b) /\ e.r[1] = Sign(S[1][2][1], S[2][2][1])
         /\ e.r[4] = Bit(e.r[1] < 0) /\ e.r[5] = Bit(e.r[1] > 0)
         /\ e.r[6] = Bit(e.r[1] <= 0) /\ e.r[7] = Bit(e.r[1] >= 0)
    [] o = "f.seti" -> Fv(N) = BMod(BI(e), p)
    [] o = "f.get" -> /\ BI(e) = Fv(S[1])
                      /\ BHex(e.low) = BMod(Fv(S[1]), BPow(B(2), 64))
                      /\ e.odd = BBit(Fv(S[1]), 0)
    [] o = "f.toMont" -> Fv(N) = FpMul(Fv(S[1]), RMont)
    [] o = "f.fromMont" -> Fv(N) = FpMul(Fv(S[1]), RInv)
    [] o = "f.z2x3" -> Fv(N) = FpAdd(FpMul(FpInt(2), Fv(S[1])), FpMul(FpInt(3), Fv(S[2])))
    [] o = "f.copy" -> N[2] = S[1][2]
    [] o = "f.pow" -> Fv(N) = FpPow(Fv(S[1]), BI(e))
    [] o = "n.addNC" -> Dv(N) = BAdd(Dv(S[1]), Dv(S[2]))
    [] o = "n.subNC" -> Dv(N) = BSub(Dv(S[1]), Dv(S[2]))
    [] o = "n.shr1" -> Dv(N) = BShr(Dv(S[1]), 1)
    [] o = "n.shr2" -> Dv(N) = BShr(Dv(S[1]), 2)
    [] o = "n.fastmod" -> Dv(N) = BMod(Dv(S[1]), p)
    (* double width *)
    [] o = "d.add" -> DblIs(Dv(N), BAdd(Dv(S[1]), Dv(S[2])))
    [] o = "d.sub" -> DblIs(Dv(N), BSub(Dv(S[1]), Dv(S[2])))
    [] o = "d.neg" -> DblIs(Dv(N), BNeg(Dv(S[1])))
    [] o = "d.mul" -> Dv(N) = BMul(Dv(S[1]), Dv(S[2]))
    [] o = "d.mod" -> Dv(N) = Redc(Dv(S[1]))
    [] o = "d.addNC" -> Dv(N) = BAdd(Dv(S[1]), Dv(S[2]))
    [] o = "d.subNC" -> Dv(N) = BSub(Dv(S[1]), Dv(S[2]))
    \* the sum of two such results must still be a valid operand
    [] o = "d.subOpt1" -> DblIs(Dv(N), BSub(Dv(S[1]), Dv(S[2]))) /\ BelowHalf(Dv(N))
    [] o = "d.cmp" -> LET c == Sign(Dv(S[1]), Dv(S[2])) IN
         e.r = <<c, Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c >= 0)>>
    [] o = "h.add" -> \A i \in 1..2 : DblIs(N[2][i], BAdd(S[1][2][i], S[2][2][i]))
    [] o = "h.sub" -> \A i \in 1..2 : DblIs(N[2][i], BSub(S[1][2][i], S[2][2][i]))
    [] o = "h.neg" -> \A i \in 1..2 : DblIs(N[2][i], BNeg(S[1][2][i]))
    [] o = "h.addNC" -> \A i \in 1..2 : N[2][i] = BAdd(S[1][2][i], S[2][2][i])
    [] o = "h.subNC" -> \A i \in 1..2 : N[2][i] = BSub(S[1][2][i], S[2][2][i])
    [] o = "h.mul_xi" -> LET w == MulXiZ(S[1][2]) IN \A i \in 1..2 : DblIs(N[2][i], w[i])
    [] o = "h.mod" -> \A i \in 1..2 : N[2][i] = Redc(S[1][2][i])
    [] o \in {"h.mulOpt1", "h.mulOpt2"} ->
         /\ DblIs(N[2][1], ReMul(S[1][2], S[2][2]))
         /\ N[2][2] = ImMul(S[1][2], S[2][2])
         /\ o = "h.mulOpt1" => BelowHalf(N[2][1])
    [] o = "h.square" -> \A i \in 1..2 : DblIs(N[2][i], MulZ(S[1][2], S[1][2])[i])
    [] o = "k.mul" -> LET w == Fp6MulZ(S[1][2], S[2][2]) IN
         \A i \in 1..3 : DblIs(N[2][2 * i - 1], w[i][1]) /\ DblIs(N[2][2 * i], w[i][2])
    [] o = "k.mod" -> \A i \in 1..6 : N[2][i] = Redc(S[1][2][i])
    (* Fp2 *)
    [] o = "g.add" -> Gv(N) = F2Add(Gv(S[1]), Gv(S[2]))
    [] o = "g.sub" -> Gv(N) = F2Sub(Gv(S[1]), Gv(S[2]))
    [] o = "g.neg" -> Gv(N) = F2Neg(Gv(S[1]))
    [] o = "g.mul" -> Gv(N) = F2Mul(Gv(S[1]), Gv(S[2]))
    [] o = "g.sqr" -> Gv(N) = F2Sqr(Gv(S[1]))
    [] o = "g.mul_xi" -> Gv(N) = F2MulXi(Gv(S[1]))
    [] o = "g.mulfp0" -> Gv(N) = F2MulFp(Gv(S[1]), Fv(S[2]))
    [] o = "g.mulfp1" -> Gv(N) = F2Mul(Gv(S[1]), <<FpZ, Fv(S[2])>>)
    [] o = "g.mul_x" -> Gv(N) = F2Mul(Gv(S[1]), <<FpZ, FpI>>)
    [] o = "g.half" -> F2Add(Gv(N), Gv(N)) = Gv(S[1])
    [] o = "g.quarter" -> F2MulFp(Gv(N), FpInt(4)) = Gv(S[1])
    [] o = "g.inv" -> F2Mul(Gv(N), Gv(S[1])) = F2I
    [] o = "g.pow" -> Gv(N) = F2Pow(Gv(S[1]), BI(e))
    [] o = "g.eq" -> e.r = <<Bit(Gv(S[1]) = Gv(S[2])), Bit(Gv(S[1]) # Gv(S[2])), Bit(Gv(S[1]) = F2Z)>>
    [] o = "m.addNC" -> \A i \in 1..2 : N[2][i] = BAdd(S[1][2][i], S[2][2][i])
    [] o = "m.subNC" -> \A i \in 1..2 : N[2][i] = BSub(S[1][2][i], S[2][2][i])
    (* Fp6 *)
    [] o = "s.add" -> Sv(N) = F6Add(Sv(S[1]), Sv(S[2]))
    [] o = "s.sub" -> Sv(N) = F6Sub(Sv(S[1]), Sv(S[2]))
    [] o = "s.neg" -> Sv(N) = F6Neg(Sv(S[1]))
    [] o = "s.mul" -> Sv(N) = F6Mul(Sv(S[1]), Sv(S[2]))
    [] o = "s.sqr" -> Sv(N) = F6Sqr(Sv(S[1]))
    [] o = "s.inv" -> F6Mul(Sv(N), Sv(S[1])) = F6I
    [] o = "s.pow" -> Sv(N) = FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN F6Mul(F6Sqr(acc), Sv(S[1])) ELSE F6Sqr(acc)), F6I, BBits(BI(e)))
    [] o = "s.eq" -> e.r = <<Bit(Sv(S[1]) = Sv(S[2])), Bit(Sv(S[1]) # Sv(S[2])), Bit(Sv(S[1]) = F6Z)>>
    [] o = "s.mulb" -> LET x == Sv(S[1]) IN Sv(N) = <<x[1], F2MulFp(x[2], Fv(S[2])), x[3]>>
    [] o = "s.mulc" -> LET x == Sv(S[1]) IN Sv(N) = <<x[1], x[2], F2MulFp(x[3], Fv(S[2]))>>
    [] o = "s.mul24" -> LET x == Sv(S[1]) IN Sv(N) = <<x[1], F2MulFp(x[2], Fv(S[3])), F2MulFp(x[3], Fv(S[2]))>>
    (* Fp12 *)
    [] o = "t.add" -> Tv(N) = F12Add(Tv(S[1]), Tv(S[2]))
    [] o = "t.sub" -> Tv(N) = F12Sub(Tv(S[1]), Tv(S[2]))
    [] o = "t.neg" -> Tv(N) = F12Neg(Tv(S[1]))
    [] o = "t.mul" -> Tv(N) = F12Mul(Tv(S[1]), Tv(S[2]))
    [] o = "t.sqr" -> Tv(N) = F12Sqr(Tv(S[1]))
    [] o = "t.inv" -> F12Mul(Tv(N), Tv(S[1])) = F12I
    [] o = "t.frob" -> Tv(N) = F12Frob(Tv(S[1]))
    [] o = "t.frob2" -> Tv(N) = F12Frob2(Tv(S[1]))
    [] o = "t.frob3" -> Tv(N) = F12Frob3(Tv(S[1]))
    [] o = "t.pow" -> Tv(N) = F12Pow(Tv(S[1]), BI(e))
    [] o = "t.eq" -> e.r = <<Bit(Tv(S[1]) = Tv(S[2])), Bit(Tv(S[1]) # Tv(S[2])), Bit(Tv(S[1]) = F12Z)>>
    [] o = "t.mul024" -> Tv(N) = F12Mul(Tv(S[1]), LineFull(Sv(S[2])))
    [] o = "t.mul024x2" -> Tv(N) = F12Mul(LineFull(Sv(S[1])), LineFull(Sv(S[2])))
    (* cyclotomic subgroup and final exponentiation *)
    [] o = "t.cyclo" -> Tv(N) = EasyPart(Tv(S[1]))
    [] o = "t.sqru" -> Tv(N) = F12Sqr(Tv(S[1]))
    [] o = "t.csqn" -> Tv(N) = Iter(F12Sqr, BInt(BI(e)), Tv(S[1]))
    [] o = "t.fixpow" -> Tv(N) = F12Pow(Tv(S[1]), BAbs(z))
    [] o = "t.pownegz" -> Tv(N) = F12Pow(F12Conj(Tv(S[1])), z)
    [] o = "t.fexp" -> Tv(N) = FinalExp(Tv(S[1]))
    (* G1 *)
    [] o = "P.add" -> P1(N) = G1Add(P1(S[1]), P1(S[2]))
    [] o = "P.sub" -> P1(N) = G1Sub(P1(S[1]), P1(S[2]))
    [] o = "P.dbl" -> P1(N) = G1Dbl(P1(S[1]))
    [] o = "P.neg" -> P1(N) = G1Neg(P1(S[1]))
    [] o = "P.copy" -> N[2] = S[1][2]
    [] o = "P.mul" -> P1(N) = G1Mul(P1(S[1]), BI(e))
    [] o = "P.clear" -> P1(N) = Inf
    [] o \in {"P.norm", "P.njac", "P.nfree"} ->
         /\ P1(N) = P1(S[1])
         /\ P1(N) # Inf => T1v(N)[3] = FpI
    [] o = "P.nhom" -> LET h == G1OfHom(T1v(S[1])) IN
         IF h = Inf THEN T1v(N)[3] = FpZ ELSE T1v(N) = <<h[1], h[2], FpI>>
    [] o = "P.eq" -> LET a == P1(S[1]) b == P1(S[2]) IN
         e.r = <<Bit(a = b), Bit(a # b), Bit(a = Inf), Bit(b = Inf)>>
    [] o = "P.isValid" -> LET a == P1(S[1]) IN e.b = Bit(a = Inf \/ OnG1(a[1], a[2]))
    [] o = "P.isHom3" -> LET a == G1OfHom(T1v(S[1])) IN e.b = Bit(a = Inf \/ OnG1(a[1], a[2]))
    [] o = "P.isHom2" -> LET a == T1v(S[1]) IN e.b = Bit(OnG1(a[1], a[2]))
    [] o = "P.set2" -> LET ok == OnG1(Fv(S[1]), Fv(S[2])) IN
         /\ e.b = Bit(ok)
         /\ ok => P1(N) = <<Fv(S[1]), Fv(S[2])>>
    [] o = "P.set3" -> LET a == G1OfJac(<<Fv(S[1]), Fv(S[2]), Fv(S[3])>>)
                           ok == a = Inf \/ OnG1(a[1], a[2]) IN
         /\ e.b = Bit(ok)
         /\ ok => P1(N) = a
    (* G2 *)
    [] o = "Q.add" -> P2(N) = G2Add(P2(S[1]), P2(S[2]))
    [] o = "Q.sub" -> P2(N) = G2Sub(P2(S[1]), P2(S[2]))
    [] o = "Q.dbl" -> P2(N) = G2Dbl(P2(S[1]))
    [] o = "Q.neg" -> P2(N) = G2Neg(P2(S[1]))
    [] o = "Q.copy" -> N[2] = S[1][2]
    [] o = "Q.mul" -> P2(N) = G2Mul(P2(S[1]), BI(e))
    [] o = "Q.clear" -> P2(N) = Inf
    [] o \in {"Q.norm", "Q.njac", "Q.nfree"} ->
         /\ P2(N) = P2(S[1])
         /\ P2(N) # Inf => T2v(N)[3] = F2I
    [] o = "Q.nhom" -> LET h == G2OfHom(T2v(S[1])) IN
         IF h = Inf THEN T2v(N)[3] = F2Z ELSE T2v(N) = <<h[1], h[2], F2I>>
    [] o = "Q.eq" -> LET a == P2(S[1]) b == P2(S[2]) IN
         e.r = <<Bit(a = b), Bit(a # b), Bit(a = Inf), Bit(b = Inf)>>
    [] o = "Q.isValid" -> LET a == P2(S[1]) IN e.b = Bit(a = Inf \/ OnG2(a[1], a[2]))
    [] o = "Q.isHom3" -> LET a == G2OfHom(T2v(S[1])) IN e.b = Bit(a = Inf \/ OnG2(a[1], a[2]))
    [] o = "Q.isHom2" -> LET a == T2v(S[1]) IN e.b = Bit(OnG2(a[1], a[2]))
    [] o = "Q.set2" -> LET ok == OnG2(Gv(S[1]), Gv(S[2])) IN
         /\ e.b = Bit(ok)
         /\ ok => P2(N) = <<Gv(S[1]), Gv(S[2])>>
    [] o = "Q.set3" -> LET a == G2OfJac(<<Gv(S[1]), Gv(S[2]), Gv(S[3])>>)
                           ok == a = Inf \/ OnG2(a[1], a[2]) IN
         /\ e.b = Bit(ok)
         /\ ok => P2(N) = a
    (* Miller steps: S[1] is the running point, homogeneous, N2 its new value *)
    [] o = "l.dbl" -> LET T == H2(S[1]) IN
         /\ H2(N2) = G2Dbl(T) /\ AllCanon(N[2])
         /\ Propor(Sv(N), LineVals(G2Slope(T, T), T, P1(S[2])))
    [] o = "l.add" -> LET T == H2(S[1]) Q == P2(S[2]) IN
         /\ H2(N2) = G2Add(T, Q) /\ AllCanon(N[2])
         /\ Propor(Sv(N), LineVals(G2Slope(T, Q), T, P1(S[3])))
    [] o = "l.dbl0" -> LET T == H2(S[1]) IN
         /\ H2(N2) = G2Dbl(T) /\ Small3p(N[2])
         /\ Propor(Sv(N), LineVals(G2Slope(T, T), T, OneOne))
    [] o = "l.add0" -> LET T == H2(S[1]) Q == P2(S[2]) IN
         /\ H2(N2) = G2Add(T, Q) /\ Small3p(N[2])
         /\ Propor(Sv(N), LineVals(G2Slope(T, Q), T, OneOne))
    [] o = "l.mul01" -> LET x == Sv(S[1]) P == T1v(S[2]) IN
         /\ AllCanon(N[2]) /\ Sv(N) = <<x[1], F2MulFp(x[2], P[2]), F2MulFp(x[3], P[1])>>
    [] o = "l.frob1" -> T2v(N)[3] = F2I /\ <<T2v(N)[1], T2v(N)[2]>> = G2Frob(P2(S[1]))
    [] o = "l.frob2" -> T2v(N)[3] = F2I /\ <<T2v(N)[1], T2v(N)[2]>> = G2Frob(G2Frob(P2(S[1])))
    [] o = "l.frob8" -> T2v(N)[3] = F2I /\ <<T2v(N)[1], T2v(N)[2]>> = G2Neg(G2Frob(G2Frob(P2(S[1]))))
    (* pairings *)
    [] o \in {"e.ec", "e.jac", "e.aff"} -> Tv(N) = Pairing(P2(S[1]), P1(S[2]))
    [] o = "e.pre" -> LET n == T2v(N2) Q == P2(S[1]) IN n = <<Q[1], Q[2], F2I>>
    [] o = "e.mil" -> FinalExp(Tv(N)) = Pairing(S[1][2], P1(S[2]))
    [] o = "e.mil2" -> FinalExp(Tv(N)) = F12Mul(Pairing(S[1][2], P1(S[2])), Pairing(S[3][2], P1(S[4])))
    [] o = "b.lin" -> (* S = base value, value at multiples a and b, power ab *)
         LET w == F12Pow(F12Pow(Tv(S[1]), BI(e)), BHex(e.j)) IN
         /\ Tv(S[2]) = w /\ Tv(S[3]) = w /\ e.b = 1
         /\ F12Pow(Tv(S[1]), r) = F12I /\ Tv(S[1]) # F12I
         /\ (Tv(S[2]) = F12I) = (BMod(BMul(BI(e), BHex(e.j)), r) = B(0))
    (* text *)
    [] o \in {"f.print", "d.print", "g.print", "s.print", "t.print", "P.print", "Q.print"} ->
         e.txt = ElemText(OpOfType[o], S[1], e.base)
    [] o \in {"f.read", "g.read", "s.read", "t.read"} -> ReadOK(OpOfType[o], ElemReader(OpOfType[o], Start(e.t)), N, e, FALSE)
    [] o \in {"P.read", "Q.read"} -> ReadOK(OpOfType[o], PointReader(OpOfType[o], Start(e.t)), N, e, FALSE)
    [] o = "f.parse" -> LET n == ParseU(e.t, 0) IN
         ReadOK("f", IF IsNum(n) THEN <<TRUE, MustTake(n, FALSE), <<>>, <<n[2]>> >> ELSE <<FALSE, TRUE, <<>>, <<>> >>, N, e, TRUE)
    [] o = "g.parse" -> LET st == Read2(Start(e.t)) IN
         ReadOK("g", IF Len(Skip(st[3])) = 0 THEN st ELSE <<FALSE, st[2], st[3], st[4]>>, N, e, TRUE)
    [] OTHER -> PrintT(<<"unknown operation", o>>) /\ FALSE

(* operations with an in/out first operand besides the destination *)
InOut == {"l.dbl", "l.add", "l.dbl0", "l.add0"}
(* read-only on the denoted value, but free to change the representation   *)
Renorm == {"P.eq", "Q.eq", "e.ec", "P.print", "Q.print"}

(* which registers a call may write *)
MayWrite(o, d, s, nm) ==
  \/ nm = d
  \/ o \in InOut /\ nm = s[1]
  \/ o = "e.pre" /\ nm = s[2]
  \/ o = "t.cyclo" /\ nm = s[1]       \* documented to use up its operand
=============================================================================
