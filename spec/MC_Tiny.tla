------------------------------ MODULE MC_Tiny ------------------------------
(***************************************************************************)
(* The specification itself, exhaustively, on curves so small that all     *)
(* points can be visited: z = -1 gives p = 19, r = 13 and z = 1 gives       *)
(* p = 103, r = 97.  The machine walks over all pairs (aG, bH); the          *)
(* invariants say that what BNCurve and BNPairing define has the properties *)
(* that make it worth being an oracle: the chord-and-tangent law is the     *)
(* cyclic group of order r on both curves, the pairing is bilinear and      *)
(* non-degenerate, the twist's endomorphism is multiplication by p, lines    *)
(* may be scaled by elements of Fp2 without changing the value (the freedom  *)
(* FieldMachine gives to line steps), the base-p decomposition of the final  *)
(* exponent is that exponent, and Frobenius is the p-th power.               *)
(***************************************************************************)
EXTENDS BNPairing, BNParams
CONSTANTS Gen1(_), Gen2(_), Order
VARIABLES a, b, P, Q
vars == <<a, b, P, Q>>
(* generators of the two groups *)
L2(x) == <<B(x[1]), B(x[2])>>
G1Neg1(x) == <<B(4), B(3)>>
G2Neg1(x) == <<L2(<<7, 18>>), L2(<<11, 8>>)>>
G1Pos1(x) == <<B(2), B(42)>>
G2Pos1(x) == <<L2(<<86, 29>>), L2(<<88, 47>>)>>
G == Gen1(0)
H == Gen2(0)
N == Order
ASSUME B(N) = r
ASSUME OnG1(G[1], G[2]) /\ OnG2(H[1], H[2])
Idx == 0..(N - 1)
M1 == FoldLeft(LAMBDA acc, i: TLCEval(Append(acc, G1Add(acc[Len(acc)], G))), <<Inf>>, [i \in 1..(N - 1) |-> i])
M2 == FoldLeft(LAMBDA acc, i: TLCEval(Append(acc, G2Add(acc[Len(acc)], H))), <<Inf>>, [i \in 1..(N - 1) |-> i])
E == Pairing(H, G)
EP == FoldLeft(LAMBDA acc, i: TLCEval(Append(acc, F12Mul(acc[Len(acc)], E))), <<F12I>>, [i \in 1..(N - 1) |-> i])

Init == a = 0 /\ b = 0 /\ P = Inf /\ Q = Inf
Next == \/ a < N - 1 /\ a' = a + 1 /\ P' = G1Add(P, G) /\ UNCHANGED <<b, Q>>
        \/ b < N - 1 /\ b' = b + 1 /\ Q' = G2Add(Q, H) /\ UNCHANGED <<a, P>>
        \* wrapping round: r times a generator is infinity
        \/ a = N - 1 /\ G1Add(P, G) = Inf /\ a' = 0 /\ P' = Inf /\ UNCHANGED <<b, Q>>
        \/ b = N - 1 /\ G2Add(Q, H) = Inf /\ b' = 0 /\ Q' = Inf /\ UNCHANGED <<a, P>>
Spec == Init /\ [][Next]_vars

On == /\ (a = 0) = (P = Inf) /\ (P # Inf => OnG1(P[1], P[2]))
      /\ (b = 0) = (Q = Inf) /\ (Q # Inf => OnG2(Q[1], Q[2]))
Mult == P = M1[a + 1] /\ Q = M2[b + 1] /\ P = G1Mul(G, B(a)) /\ Q = G2Mul(H, B(b)) /\ G1Mul(P, B(b)) = M1[((a * b) % N) + 1]
(* the law is that of Z/r, hence a group *)
Law1 == G1Add(P, M1[b + 1]) = M1[((a + b) % N) + 1] /\ G1Sub(P, M1[b + 1]) = M1[((a + N - b) % N) + 1]
Law2 == G2Add(M2[a + 1], Q) = M2[((a + b) % N) + 1] /\ G2Sub(M2[a + 1], Q) = M2[((a + N - b) % N) + 1]
Opp == G1Add(P, G1Neg(P)) = Inf /\ G2Add(Q, G2Neg(Q)) = Inf
Endo == a = 0 => G2Frob(Q) = G2Mul(Q, p)
Bilinear == Pairing(Q, P) = EP[((a * b) % N) + 1]
NonDegenerate == (Pairing(Q, P) = F12I) = (P = Inf \/ Q = Inf)
Fp2Units == {<<B(i), B(j)>> : i, j \in 0..18} \ {F2Z}
ScaleF12(f, c) == <<F6MulF2(f[1], c), F6MulF2(f[2], c)>>
FreeScale == (a = 1 /\ b \in 1..3) => LET m == Miller(Q, P) IN \A c \in Fp2Units : FinalExp(ScaleF12(m, c)) = FinalExp(m)
Projective == b = 0 /\ P # Inf => \A i \in 1..18 : LET k == FpInt(i) kk == FpSqr(k) IN
  k # FpZ => /\ G1OfJac(<<FpMul(P[1], kk), FpMul(P[2], FpMul(kk, k)), k>>) = P
             /\ G1OfHom(<<FpMul(P[1], k), FpMul(P[2], k), k>>) = P
(* with the class only: numbers beyond 32 bits *)
Order12 == BSub(BPow(p, 12), B(1))
FinalIsPower == (a = 1 /\ b > 0) => LET m == Miller(Q, P) IN
  /\ FinalExp(m) = F12Pow(m, BMod(FinalExponent, Order12))
  /\ F12Pow(EasyPart(m), CyclotomicOrder) = F12I
  /\ F12Frob(m) = F12Pow(m, p)
  /\ F12Conj(m) = F12Pow(m, BPow(p, 6))
  /\ F12Mul(m, F12Inv(m)) = F12I
=============================================================================
