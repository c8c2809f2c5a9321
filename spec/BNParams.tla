------------------------------ MODULE BNParams ------------------------------
(* The curves the library supports, and two tiny relatives for exhaustive checking. *)
EXTENDS BigInts
(* default build: z = -(2^62 + 2^55 + 1), b = 2, xi = 1 + u *)
Z_BNb(x) == BNeg(BAdd(BAdd(BPow(B(2), 62), BPow(B(2), 55)), B(1)))
(* SNARK build: z = 4965661367192848881, b = 3 or 82, xi = 9 + u *)
Z_SNARK(x) == BDec("4965661367192848881")
Z_Pos1(x) == 1        \* p = 103, r = 97
Z_Neg1(x) == -1       \* p = 19,  r = 13
=============================================================================
