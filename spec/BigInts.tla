------------------------------ MODULE BigInts ------------------------------
(***************************************************************************)
(* Arithmetic on the mathematical integers.                                *)
(*                                                                         *)
(* TLA+ integers are unbounded, TLC's are 32-bit.  Every operator below is *)
(* DEFINED here in plain TLA+ over Int.  When the class BigInts (see       *)
(* java/BigInts.java) is on TLC's class path, TLC evaluates the same       *)
(* operators with java.math.BigInteger, so that the very same              *)
(* specification text can be model-checked exhaustively on tiny constants  *)
(* without the class (pure TLA+), and on 254-bit constants with it.        *)
(* MC_BigInts checks that the class agrees with these definitions.         *)
(*                                                                         *)
(* With the class loaded, a "big" is a distinct kind of TLC value: B(n)    *)
(* lifts a TLC integer, and bigs are only ever compared with bigs.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

B(n) == n                          \* lift a TLC integer
BInt(a) == a                       \* back to a TLC integer (must be small)

BAdd(a, b) == a + b
BSub(a, b) == a - b
BMul(a, b) == a * b
BNeg(a) == 0 - a
BDiv(a, b) == a \div b             \* floor, b > 0
BMod(a, b) == a % b                \* 0 <= result < b, b > 0
BLt(a, b) == a < b
BLe(a, b) == a <= b
BAbs(a) == IF a < 0 THEN 0 - a ELSE a

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN 1 ELSE a * BPow(a, n - 1)      \* n a TLC integer
BShl(a, n) == a * BPow(2, n)
BShr(a, n) == a \div BPow(2, n)                             \* floor
BBit(a, i) == (a \div BPow(2, i)) % 2                       \* a TLC integer 0/1

RECURSIVE BBitLen(_)
BBitLen(a) == IF a = 0 THEN 0 ELSE 1 + BBitLen(a \div 2)    \* a >= 0, TLC integer

(* Bits of a >= 0, most significant first; <<>> for 0 *)
RECURSIVE BBits(_)
BBits(a) == IF a = 0 THEN << >> ELSE Append(BBits(a \div 2), a % 2)

(* a^e mod m, e a big >= 0 *)
RECURSIVE BPowMod(_, _, _)
BPowMod(a, e, m) == IF e = 0 THEN 1 % m
                    ELSE IF e % 2 = 1 THEN (BPowMod(a, e - 1, m) * a) % m
                    ELSE LET h == BPowMod(a, e \div 2, m) IN (h * h) % m

(* the inverse of a modulo m, or 0 when there is none *)
BInv(a, m) == IF \E x \in 0..m-1 : (a * x) % m = 1 % m
              THEN CHOOSE x \in 0..m-1 : (a * x) % m = 1 % m
              ELSE 0

RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = 0 THEN BAbs(a) ELSE BGcd(b, a % BAbs(b))

(* ---- strings ---------------------------------------------------------- *)
HexDigit(c) == CHOOSE i \in 0..15 :
                 SubSeq("0123456789abcdef", i + 1, i + 1) = c
RECURSIVE BHex(_)                  \* lower-case hexadecimal, "" is 0, "-" allowed
BHex(s) == IF Len(s) = 0 THEN 0
           ELSE IF SubSeq(s, 1, 1) = "-" THEN 0 - BHex(SubSeq(s, 2, Len(s)))
           ELSE BHex(SubSeq(s, 1, Len(s) - 1)) * 16 + HexDigit(SubSeq(s, Len(s), Len(s)))
RECURSIVE BDec(_)
BDec(s) == IF Len(s) = 0 THEN 0
           ELSE IF SubSeq(s, 1, 1) = "-" THEN 0 - BDec(SubSeq(s, 2, Len(s)))
           ELSE BDec(SubSeq(s, 1, Len(s) - 1)) * 10 + HexDigit(SubSeq(s, Len(s), Len(s)))

RECURSIVE BToBase(_, _)
BToBase(a, base) ==                \* a >= 0
  LET d == SubSeq("0123456789abcdef", (a % base) + 1, (a % base) + 1)
  IN IF a < base THEN d ELSE BToBase(a \div base, base) \o d
BToHex(a) == IF a < 0 THEN "-" \o BToBase(0 - a, 16) ELSE BToBase(a, 16)
BToDec(a) == IF a < 0 THEN "-" \o BToBase(0 - a, 10) ELSE BToBase(a, 10)
=============================================================================
