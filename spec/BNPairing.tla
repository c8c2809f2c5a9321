----------------------------- MODULE BNPairing -----------------------------
(***************************************************************************)
(* The optimal ate pairing of a BN curve, from its definition:             *)
(*   e(Q, P) = ( f_{6z+2,Q}(P) l_{[6z+2]Q, pi Q}(P)                        *)
(*                 l_{[6z+2]Q + pi Q, -pi^2 Q}(P) ) ^ FinalExponent        *)
(* computed with affine points, the plain binary expansion of |6z+2| and   *)
(* textbook line functions (the implementation uses projective points,     *)
(* scaled sparse lines and a signed-digit expansion).                      *)
(***************************************************************************)
EXTENDS BNCurve

(* The line through psi(T), psi(Q) with slope l*w, evaluated at P in E(Fp): *)
(*   yP - l w xP + (l xT - yT) w^3                                         *)
LineAt(l, T, P) ==
  FromW(<< <<P[2], FpZ>>, F2Neg(F2MulFp(l, P[1])), F2Z,
           F2Sub(F2Mul(l, T[1]), T[2]), F2Z, F2Z >>)
Chord(T, Q, P) == LineAt(G2Slope(T, Q), T, P)      \* T # -Q, both finite
Tangent(T, P) == LineAt(G2Slope(T, T), T, P)

(* One loop step per bit after the leading one; state <<f, T>> *)
MillerStep(s, b, Q, P) ==
  LET f2 == F12Mul(F12Sqr(s[1]), Tangent(s[2], P))
      T2 == G2Dbl(s[2])
  IN IF b = 1 THEN <<F12Mul(f2, Chord(T2, Q, P)), G2Add(T2, Q)>> ELSE <<f2, T2>>

Miller(Q, P) ==
  LET s0 == FoldLeft(LAMBDA s, b: TLCEval(MillerStep(s, b, Q, P)), <<F12I, Q>>, Tail(BBits(BAbs(loopC))))
      s  == IF BLt(loopC, B(0)) THEN <<F12Conj(s0[1]), G2Neg(s0[2])>> ELSE s0
      Q1 == G2Frob(Q)
      Q2 == G2Neg(G2Frob(Q1))
      T1 == G2Add(s[2], Q1)
  IN F12Mul(F12Mul(s[1], Chord(s[2], Q1, P)), Chord(T1, Q2, P))

(* ---- final exponentiation --------------------------------------------- *)
(* easy part: (p^6-1)(p^2+1) *)
EasyPart(f) == LET g == F12Mul(F12Conj(f), F12Inv(f)) IN F12Mul(F12Frob2(g), g)
(* hard part: a multiple (2z(6z^2+3z+1)) of (p^4-p^2+1)/r, in base p *)
HardDigits == << EvalPoly(<<1, 6, 12, 12>>), EvalPoly(<<0, 4, 6, 12>>),
                 EvalPoly(<<0, 6, 6, 12>>), EvalPoly(<<-1, 4, 6, 12>>) >>
HardExponent == BAdd(HardDigits[1], BMul(p, BAdd(HardDigits[2], BMul(p, BAdd(HardDigits[3], BMul(p, HardDigits[4]))))))
PowS(x, e) == IF BLt(e, B(0)) THEN F12Pow(F12Conj(x), BNeg(e)) ELSE F12Pow(x, e)  \* x of norm one
HardPart(g) ==
  F12Mul(F12Mul(PowS(g, HardDigits[1]), F12Frob(PowS(g, HardDigits[2]))),
         F12Mul(F12Frob2(PowS(g, HardDigits[3])), F12Frob3(PowS(g, HardDigits[4]))))
FinalExp(f) == HardPart(EasyPart(f))
(* the same exponent as one integer, for checking the decomposition above *)
FinalExponent == BMul(BMul(BSub(BPow(p, 6), B(1)), BAdd(BPow(p, 2), B(1))), HardExponent)
CyclotomicOrder == BAdd(BSub(BPow(p, 4), BPow(p, 2)), B(1))

Pairing(Q, P) == IF Q = Inf \/ P = Inf THEN F12I ELSE FinalExp(Miller(Q, P))
=============================================================================
