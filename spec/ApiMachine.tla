----------------------------- MODULE ApiMachine -----------------------------
(***************************************************************************)
(* The library seen through its groups only.                               *)
(*                                                                         *)
(* State: registers holding points of G1 (P..), of the order-r subgroup of  *)
(* the twist (Q..), and pairing values (T..), each denoted by its           *)
(* coordinates, integers modulo r, over a fixed family of base elements:    *)
(* three independent points G_i, two independent points H_j and the six     *)
(* values e(G_i, H_j).  MC_Tiny justifies the abstraction: the groups are   *)
(* cyclic of order r and the pairing is the bilinear product.  No relation   *)
(* between the bases is known, so two registers denote the same element      *)
(* exactly when their coordinates agree.                                     *)
(* Every call moves the coordinates as below, and what the real objects      *)
(* answer about equality must be exactly what the coordinates say.           *)
(***************************************************************************)
EXTENDS BNPairing
Zr(a) == BMod(a, r)
Vec(n, f(_)) == [i \in 1..n |-> Zr(f(i))]
VAdd(x, y) == Vec(Len(x), LAMBDA i: BAdd(x[i], y[i]))
VSub(x, y) == Vec(Len(x), LAMBDA i: BSub(x[i], y[i]))
VMul(x, k) == Vec(Len(x), LAMBDA i: BMul(x[i], k))
VNeg(x) == Vec(Len(x), LAMBDA i: BNeg(x[i]))
Zero(n) == Vec(n, LAMBDA i: B(0))
Unit(n, k) == Vec(n, LAMBDA i: IF i = k THEN B(1) ELSE B(0))
Dim(ty) == CASE ty = "P" -> 3 [] ty = "Q" -> 2 [] ty = "T" -> 6
E(Qv, Pv) == Vec(6, LAMBDA i: BMul(Pv[((i - 1) \div 2) + 1], Qv[((i - 1) % 2) + 1]))
FinalExponentR == Zr(FinalExponent)
pR == Zr(p)

(* the coordinates of the result: o operation, s operand coordinates, k scalar *)
Result(o, ty, s, k, i) ==
  CASE o = "base" -> Unit(Dim(ty), i)
    [] o = "zero" -> Zero(Dim(ty))
    [] o \in {"add", "Tmul"} -> VAdd(s[1], s[2])
    [] o \in {"sub", "Tdiv"} -> VSub(s[1], s[2])
    [] o \in {"neg", "Tinv", "Tconj"} -> VNeg(s[1])
    [] o \in {"dbl", "Tsqr"} -> VMul(s[1], B(2))
    [] o \in {"mul", "Tpow"} -> VMul(s[1], k)
    [] o = "same" -> s[1]                      \* copies, other representatives, normalisation, text
    [] o \in {"frob", "Tfrob"} -> VMul(s[1], BPowMod(p, B(i), r))
    [] o = "Tsqrn" -> VMul(s[1], BPowMod(B(2), B(i), r))
    [] o = "Tz" -> VMul(s[1], BAbs(z))
    [] o = "Tfinal" -> VMul(s[1], FinalExponentR)
    [] o = "pair" -> E(s[1], s[2])
    [] o = "pair2" -> VAdd(E(s[1], s[2]), E(s[3], s[4]))
=============================================================================
