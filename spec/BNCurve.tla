------------------------------ MODULE BNCurve ------------------------------
(***************************************************************************)
(* The two groups of a BN curve, by the chord-and-tangent law on affine    *)
(* points; <<>> is the point at infinity.                                  *)
(*   G1 : y^2 = x^3 + b over Fp          G2 : y^2 = x^3 + b/xi over Fp2     *)
(* Projective triples <<X, Y, Z>> denote points through JacPoint/HomPoint. *)
(***************************************************************************)
EXTENDS BNField

Inf == << >>

(* ---- G1 --------------------------------------------------------------- *)
G1Slope(P, Q) ==
  IF P = Q THEN FpMul(FpMul(FpInt(3), FpSqr(P[1])), FpInv(FpAdd(P[2], P[2])))
           ELSE FpMul(FpSub(Q[2], P[2]), FpInv(FpSub(Q[1], P[1])))
G1Neg(P) == IF P = Inf THEN Inf ELSE <<P[1], FpNeg(P[2])>>
G1Add(P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ P[2] = FpNeg(Q[2]) THEN Inf
  ELSE LET l == G1Slope(P, Q)
           x == FpSub(FpSub(FpSqr(l), P[1]), Q[1])
       IN <<x, FpSub(FpMul(l, FpSub(P[1], x)), P[2])>>
G1Dbl(P) == G1Add(P, P)
G1Sub(P, Q) == G1Add(P, G1Neg(Q))
G1Mul(P, k) ==                      \* k >= 0, a big
  FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN G1Add(G1Dbl(acc), P) ELSE G1Dbl(acc)), Inf, BBits(k))
OnG1(x, y) == FpSqr(y) = FpAdd(FpMul(FpSqr(x), x), FpInt(CurveB))

(* ---- G2 --------------------------------------------------------------- *)
TwistB == F2MulFp(F2Inv(Xi), FpInt(CurveB))
G2Slope(P, Q) ==
  IF P = Q THEN F2Mul(F2MulFp(F2Sqr(P[1]), FpInt(3)), F2Inv(F2Add(P[2], P[2])))
           ELSE F2Mul(F2Sub(Q[2], P[2]), F2Inv(F2Sub(Q[1], P[1])))
G2Neg(P) == IF P = Inf THEN Inf ELSE <<P[1], F2Neg(P[2])>>
G2Add(P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ P[2] = F2Neg(Q[2]) THEN Inf
  ELSE LET l == G2Slope(P, Q)
           x == F2Sub(F2Sub(F2Sqr(l), P[1]), Q[1])
       IN <<x, F2Sub(F2Mul(l, F2Sub(P[1], x)), P[2])>>
G2Dbl(P) == G2Add(P, P)
G2Sub(P, Q) == G2Add(P, G2Neg(Q))
G2Mul(P, k) ==
  FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN G2Add(G2Dbl(acc), P) ELSE G2Dbl(acc)), Inf, BBits(k))
OnG2(x, y) == F2Sqr(y) = F2Add(F2Mul(F2Sqr(x), x), TwistB)

(* The p-power endomorphism carried to the twist: psi^-1 o pi o psi with    *)
(* psi(x, y) = (x w^2, y w^3).                                              *)
G2Frob(Q) == IF Q = Inf THEN Inf ELSE
  <<F2Mul(F2Conj(Q[1]), FrobGamma[3]), F2Mul(F2Conj(Q[2]), FrobGamma[4])>>

(* ---- projective triples ----------------------------------------------- *)
G1OfJac(T) == IF T[3] = FpZ THEN Inf ELSE
  LET i == FpInv(T[3]) ii == FpSqr(i) IN <<FpMul(T[1], ii), FpMul(T[2], FpMul(ii, i))>>
G2OfJac(T) == IF T[3] = F2Z THEN Inf ELSE
  LET i == F2Inv(T[3]) ii == F2Sqr(i) IN <<F2Mul(T[1], ii), F2Mul(T[2], F2Mul(ii, i))>>
G1OfHom(T) == IF T[3] = FpZ THEN Inf ELSE
  LET i == FpInv(T[3]) IN <<FpMul(T[1], i), FpMul(T[2], i)>>
G2OfHom(T) == IF T[3] = F2Z THEN Inf ELSE
  LET i == F2Inv(T[3]) IN <<F2Mul(T[1], i), F2Mul(T[2], i)>>
=============================================================================
