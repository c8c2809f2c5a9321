----------------------------- MODULE MC_BigInts -----------------------------
(***************************************************************************)
(* Does the Java class compute what BigInts.tla defines?  The definitions   *)
(* are repeated here (they cannot be reached by their names once the class   *)
(* is loaded) and compared with the class on all small integers; numbers     *)
(* beyond 32 bits are covered by laws that determine the operators from      *)
(* addition and comparison.                                                  *)
(***************************************************************************)
EXTENDS BigInts, TLC
CONSTANT Range
VARIABLES x, y
S == -Range..Range
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE BitLen(_)
BitLen(a) == IF a = 0 THEN 0 ELSE 1 + BitLen(a \div 2)
RECURSIVE Bits(_)
Bits(a) == IF a = 0 THEN << >> ELSE Append(Bits(a \div 2), a % 2)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN 0 - a ELSE a) ELSE Gcd(b, a % (IF b < 0 THEN 0 - b ELSE b))
Inv(a, m) == IF \E i \in 0..m-1 : (a * i) % m = 1 % m THEN CHOOSE i \in 0..m-1 : (a * i) % m = 1 % m ELSE 0
Dig == "0123456789abcdef"
RECURSIVE ToBase(_, _)
ToBase(a, base) == LET d == SubSeq(Dig, (a % base) + 1, (a % base) + 1) IN IF a < base THEN d ELSE ToBase(a \div base, base) \o d
Str(a, base) == IF a < 0 THEN "-" \o ToBase(0 - a, base) ELSE ToBase(a, base)
Small(a, b) ==
  /\ BInt(B(a)) = a
  /\ BAdd(B(a), B(b)) = B(a + b) /\ BSub(B(a), B(b)) = B(a - b) /\ BMul(B(a), B(b)) = B(a * b) /\ BNeg(B(a)) = B(0 - a)
  /\ (b > 0 => BDiv(B(a), B(b)) = B(a \div b) /\ BMod(B(a), B(b)) = B(a % b))
  /\ BLt(B(a), B(b)) = (a < b) /\ BLe(B(a), B(b)) = (a <= b) /\ (B(a) = B(b)) = (a = b)
  /\ BAbs(B(a)) = B(IF a < 0 THEN 0 - a ELSE a)
  /\ (b \in 0..5 => BPow(B(a), b) = B(Pow(a, b)))
  /\ (b \in 0..12 => BShl(B(a), b) = B(a * Pow(2, b)) /\ BShr(B(a), b) = B(a \div Pow(2, b)) /\ (a >= 0 => BBit(B(a), b) = (a \div Pow(2, b)) % 2))
  /\ (a >= 0 => BBitLen(B(a)) = BitLen(a) /\ BBits(B(a)) = Bits(a))
  /\ (a >= 0 /\ b > 0 => BInv(B(a), B(b)) = B(Inv(a, b)))
  /\ (b # 0 => BGcd(B(a), B(b)) = B(Gcd(a, b)))
  /\ (a >= 0 /\ b \in 1..6 => BPowMod(B(a), B(b), B(7)) = B(Pow(a % 7, b) % 7))
  /\ BToHex(B(a)) = Str(a, 16) /\ BToDec(B(a)) = Str(a, 10) /\ BHex(Str(a, 16)) = B(a) /\ BDec(Str(a, 10)) = B(a)
(* large: a * 2^100 + b etc. *)
Big == BAdd(BMul(B(x), BPow(B(2), 100)), B(y))
Dv == BAdd(BMul(B(y), BPow(B(2), 61)), B(7))
RECURSIVE Times(_, _)
Times(a, n) == IF n = 0 THEN B(0) ELSE BAdd(a, Times(a, n - 1))
FromBits(s) == LET RECURSIVE f(_)
                   f(i) == IF i = 0 THEN B(0) ELSE BAdd(BMul(B(2), f(i - 1)), B(s[i]))
               IN f(Len(s))
Large ==
  /\ (x \in 0..40 => BMul(Dv, B(x)) = Times(Dv, x))
  /\ BMul(Big, Dv) = BAdd(BMul(Big, BAdd(Dv, B(1))), BNeg(Big))
  /\ BSub(BAdd(Big, Dv), Dv) = Big
  /\ (BLt(B(0), Dv) => LET q == BDiv(Big, Dv) m == BMod(Big, Dv) IN
        BAdd(BMul(q, Dv), m) = Big /\ BLe(B(0), m) /\ BLt(m, Dv))
  /\ BLt(Big, Dv) = BLt(BSub(Big, Dv), B(0)) /\ BLe(Big, Dv) = (BLt(Big, Dv) \/ Big = Dv)
  /\ (x > 0 => FromBits(BBits(Big)) = Big /\ BBitLen(Big) = Len(BBits(Big)) /\ BBits(Big)[1] = 1)
  /\ BHex(BToHex(Big)) = Big /\ BDec(BToDec(Big)) = Big
  /\ BShl(Big, 37) = BMul(Big, BPow(B(2), 37))
  /\ LET s == BShr(Big, 37) IN BLe(BMul(s, BPow(B(2), 37)), Big) /\ BLt(Big, BMul(BAdd(s, B(1)), BPow(B(2), 37)))
  /\ (BLt(B(1), Dv) => LET i == BInv(BAbs(Big), Dv) IN
        IF BGcd(BAbs(Big), Dv) = B(1) THEN BMod(BMul(i, BAbs(Big)), Dv) = B(1) ELSE i = B(0))
  /\ (BLt(B(1), Dv) /\ x > 0 => BPowMod(Big, B(x), Dv) = BMod(BMul(BPowMod(Big, B(x - 1), Dv), Big), Dv))
Init == x \in S /\ y \in S
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Agrees == Small(x, y)
Laws == Large
=============================================================================
