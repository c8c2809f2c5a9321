------------------------------ MODULE BNField ------------------------------
(***************************************************************************)
(* The number fields of a Barreto-Naehrig curve, by definition:            *)
(*   Fp   = integers modulo p, represented by 0..p-1                       *)
(*   Fp2  = Fp[u]/(u^2+1)          element <<a, b>>         = a + b u      *)
(*   Fp6  = Fp2[v]/(v^3 - xi)      element <<x0, x1, x2>>                  *)
(*   Fp12 = Fp6[w]/(w^2 - v)       element <<a, b>>         = a + b w      *)
(* Nothing here follows the implementation's algorithms: multiplication is *)
(* schoolbook, Frobenius is conjugation of the coefficients, powers are    *)
(* square-and-multiply on these products.                                  *)
(***************************************************************************)
EXTENDS BigInts, TLC, SequencesExt

CONSTANTS
  ParamZ(_),        \* ParamZ(0) = the curve parameter z (an operator: TLC constants are 32-bit)
  CurveB,           \* y^2 = x^3 + CurveB, a small integer
  XiA, XiB          \* xi = XiA + XiB u, small integers

z == ParamZ(0)
EvalPoly(c) == \* c[1] + c[2] z + ... by Horner
  FoldRight(LAMBDA ci, acc: BAdd(B(ci), BMul(acc, z)), c, B(0))

p == EvalPoly(<<1, 6, 24, 36, 36>>)       \* field characteristic
r == EvalPoly(<<1, 6, 18, 36, 36>>)       \* group order
t == EvalPoly(<<1, 0, 6>>)                \* trace of Frobenius
loopC == EvalPoly(<<2, 6>>)               \* 6z+2

Iter(f(_), n, a) == FoldLeft(LAMBDA acc, i: TLCEval(f(acc)), a, [i \in 1..n |-> i])

(* ---- Fp --------------------------------------------------------------- *)
FpZ == B(0)
FpI == B(1)
FpOf(a) == BMod(a, p)
FpAdd(a, b) == BMod(BAdd(a, b), p)
FpSub(a, b) == BMod(BSub(a, b), p)
FpNeg(a) == BMod(BNeg(a), p)
FpMul(a, b) == BMod(BMul(a, b), p)
FpSqr(a) == FpMul(a, a)
FpInv(a) == BInv(a, p)
FpInt(n) == BMod(B(n), p)
InFp(a) == BLe(B(0), a) /\ BLt(a, p)
FpHalf == FpInv(FpInt(2))
FpQuarter == FpInv(FpInt(4))
FpPow(a, e) == BPowMod(a, e, p)
FpIsSquare(a) == a = FpZ \/ FpPow(a, BDiv(BSub(p, B(1)), B(2))) = FpI

(* ---- Fp2 -------------------------------------------------------------- *)
F2Z == <<FpZ, FpZ>>
F2I == <<FpI, FpZ>>
F2Add(x, y) == <<FpAdd(x[1], y[1]), FpAdd(x[2], y[2])>>
F2Sub(x, y) == <<FpSub(x[1], y[1]), FpSub(x[2], y[2])>>
F2Neg(x) == <<FpNeg(x[1]), FpNeg(x[2])>>
F2Mul(x, y) == << BMod(BSub(BMul(x[1], y[1]), BMul(x[2], y[2])), p),
                  BMod(BAdd(BMul(x[1], y[2]), BMul(x[2], y[1])), p) >>
F2Sqr(x) == F2Mul(x, x)
F2MulFp(x, c) == <<FpMul(x[1], c), FpMul(x[2], c)>>
F2Conj(x) == <<x[1], FpNeg(x[2])>>
F2Inv(x) == LET n == FpInv(FpAdd(FpSqr(x[1]), FpSqr(x[2])))
            IN <<FpMul(x[1], n), FpNeg(FpMul(x[2], n))>>
F2Int(n) == <<FpInt(n), FpZ>>
Xi == <<FpInt(XiA), FpInt(XiB)>>
F2MulXi(x) == F2Mul(x, Xi)
F2Pow(x, e) == FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN F2Mul(F2Sqr(acc), x) ELSE F2Sqr(acc)), F2I, BBits(e))

(* ---- Fp6 -------------------------------------------------------------- *)
F6Z == <<F2Z, F2Z, F2Z>>
F6I == <<F2I, F2Z, F2Z>>
F6Add(x, y) == <<F2Add(x[1], y[1]), F2Add(x[2], y[2]), F2Add(x[3], y[3])>>
F6Sub(x, y) == <<F2Sub(x[1], y[1]), F2Sub(x[2], y[2]), F2Sub(x[3], y[3])>>
F6Neg(x) == <<F2Neg(x[1]), F2Neg(x[2]), F2Neg(x[3])>>
F2Sum3(x, y, w) == F2Add(F2Add(x, y), w)
F6Mul(x, y) ==
  << F2Add(F2Mul(x[1], y[1]), F2MulXi(F2Add(F2Mul(x[2], y[3]), F2Mul(x[3], y[2])))),
     F2Sum3(F2Mul(x[1], y[2]), F2Mul(x[2], y[1]), F2MulXi(F2Mul(x[3], y[3]))),
     F2Sum3(F2Mul(x[1], y[3]), F2Mul(x[2], y[2]), F2Mul(x[3], y[1])) >>
F6Sqr(x) == F6Mul(x, x)
F6MulV(x) == <<F2MulXi(x[3]), x[1], x[2]>>
F6MulF2(x, c) == <<F2Mul(x[1], c), F2Mul(x[2], c), F2Mul(x[3], c)>>
F6Inv(x) ==  \* adjugate of the multiplication matrix over its determinant
  LET a == F2Sub(F2Sqr(x[1]), F2MulXi(F2Mul(x[2], x[3])))
      b == F2Sub(F2MulXi(F2Sqr(x[3])), F2Mul(x[1], x[2]))
      c == F2Sub(F2Sqr(x[2]), F2Mul(x[1], x[3]))
      n == F2Inv(F2Add(F2Mul(x[1], a), F2MulXi(F2Add(F2Mul(x[3], b), F2Mul(x[2], c)))))
  IN <<F2Mul(a, n), F2Mul(b, n), F2Mul(c, n)>>
F6OfF2(c) == <<c, F2Z, F2Z>>

(* ---- Fp12 ------------------------------------------------------------- *)
F12Z == <<F6Z, F6Z>>
F12I == <<F6I, F6Z>>
F12Add(x, y) == <<F6Add(x[1], y[1]), F6Add(x[2], y[2])>>
F12Sub(x, y) == <<F6Sub(x[1], y[1]), F6Sub(x[2], y[2])>>
F12Neg(x) == <<F6Neg(x[1]), F6Neg(x[2])>>
F12Mul(x, y) == << F6Add(F6Mul(x[1], y[1]), F6MulV(F6Mul(x[2], y[2]))),
                   F6Add(F6Mul(x[1], y[2]), F6Mul(x[2], y[1])) >>
F12Sqr(x) == F12Mul(x, x)
F12Conj(x) == <<x[1], F6Neg(x[2])>>                  \* the p^6-power
F12Inv(x) == LET n == F6Inv(F6Sub(F6Sqr(x[1]), F6MulV(F6Sqr(x[2]))))
             IN <<F6Mul(x[1], n), F6Neg(F6Mul(x[2], n))>>
F12PowBits(x, bits) == FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN F12Mul(F12Sqr(acc), x) ELSE F12Sqr(acc)), F12I, bits)
F12Pow(x, e) == F12PowBits(x, BBits(e))              \* e >= 0

(* coefficients of 1, w, w^2, ..., w^5 over Fp2 *)
ToW(x) == <<x[1][1], x[2][1], x[1][2], x[2][2], x[1][3], x[2][3]>>
FromW(c) == << <<c[1], c[3], c[5]>>, <<c[2], c[4], c[6]>> >>

(* Frobenius: (sum c_i w^i)^p = sum conj(c_i) xi^(i(p-1)/6) w^i, as w^6 = xi. *)
FrobGamma == LET g == F2Pow(Xi, BDiv(BSub(p, B(1)), B(6)))
             IN [i \in 1..6 |-> F2Pow(g, B(i - 1))]
F12Frob(x) == LET c == ToW(x) IN FromW([i \in 1..6 |-> F2Mul(F2Conj(c[i]), FrobGamma[i])])
F12Frob2(x) == F12Frob(F12Frob(x))
F12Frob3(x) == F12Frob(F12Frob2(x))
=============================================================================
