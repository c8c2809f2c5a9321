----------------------------- MODULE IntMachine -----------------------------
(***************************************************************************)
(* The integer side of the library as a register machine over the          *)
(* mathematical integers.                                                  *)
(*                                                                         *)
(* Registers: a fixed-capacity naturals (Vuint, Words words), w naturals of     *)
(* unbounded size, b signed integers, z and y residues with one modulus     *)
(* each (state variables "Mz", "My"), i a text stream (its unread codes).   *)
(* Register = <<type, value>>.  A call either succeeds, and then OpOK       *)
(* relates the registers before and after, or is refused (the process       *)
(* would exit, or an exception is thrown), which MayRefuse must permit.     *)
(***************************************************************************)
EXTENDS Text

CONSTANTS Words, UnitBits      \* capacity in words, bits of a word
Size(v) == LET n == (BBitLen(BAbs(v)) + UnitBits - 1) \div UnitBits IN IF n = 0 THEN 1 ELSE n
V(x) == x[2]
NoRoom(ty, n) == ty # "w" /\ n > Words
Bit(b) == IF b THEN 1 ELSE 0
Sign(a, b) == IF BLt(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
Cmp6(a, b) == LET c == Sign(a, b) IN
  <<c, Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c > 0), Bit(c <= 0), Bit(c >= 0)>>
TwoTo(n) == BPow(B(2), n)
IPow(x, e) == FoldLeft(LAMBDA acc, b: TLCEval(IF b = 1 THEN BMul(BMul(acc, acc), x) ELSE BMul(acc, acc)), B(1), BBits(e))
(* division: the remainder has the sign of the divisor *)
FloorQ(x, y) == IF BLt(y, B(0)) THEN BDiv(BNeg(x), BNeg(y)) ELSE BDiv(x, y)
FloorR(x, y) == BSub(x, BMul(FloorQ(x, y), y))
Weighted(ws, bits) == FoldRight(LAMBDA h, acc: TLCEval(BAdd(BHex(h), BShl(acc, bits))), ws, B(0))

(* ty: the type letter; S operands before; N, N2 destinations after; m modulus *)
OpOK(o, ty, N, N2, S, e, m) ==
  CASE o = "ld" -> TRUE
    (* naturals and signed integers *)
    [] o = "add" -> V(N) = BAdd(V(S[1]), V(S[2]))
    [] o = "addi" -> V(N) = BAdd(V(S[1]), BHex(e.i))
    [] o = "sub" -> V(N) = BSub(V(S[1]), V(S[2]))
    [] o = "mul" -> V(N) = BMul(V(S[1]), V(S[2]))
    [] o = "muli" -> V(N) = BMul(V(S[1]), BHex(e.i))
    [] o = "neg" -> V(N) = BNeg(V(S[1]))
    [] o = "abs" -> V(N) = BAbs(V(S[1]))
    [] o = "div" -> LET y == V(S[2]) IN        \* N remainder, N2 quotient, either may be missing
         IF y = B(0) THEN e.b = 0
         ELSE /\ e.b = 1
              /\ N # <<>> => V(N) = FloorR(V(S[1]), y)
              /\ N2 # <<>> => V(N2) = FloorQ(V(S[1]), y)
    [] o = "div1" -> LET y == BHex(e.i) IN
         /\ BHex(e.rem) = BMod(V(S[1]), y)
         /\ N2 # <<>> => V(N2) = BDiv(V(S[1]), y)
    [] o = "shl" -> V(N) = BMul(V(S[1]), TwoTo(e.n))
    [] o = "shr" -> V(N) = BShr(V(S[1]), e.n)
    [] o = "pow" -> V(N) = IPow(V(S[1]), BHex(e.i))
    [] o = "copy" -> V(N) = V(S[1])
    [] o = "seti" -> V(N) = BHex(e.i)
    [] o = "set32" -> V(N) = Weighted(e.ws, 32)
    [] o = "set64" -> V(N) = Weighted(e.ws, 64)
    [] o = "clear" -> V(N) = B(0)
    [] o = "cmp" -> e.r = Cmp6(V(S[1]), V(S[2]))
    [] o = "test" -> LET v == V(S[1]) IN
         e.r = <<Bit(v = B(0)), Bit(BLt(v, B(0))), Size(v), BBitLen(BAbs(v))>>
    [] o = "bit" -> e.b = BBit(V(S[1]), e.n)
    [] o = "at" -> BHex(e.rem) = BMod(BShr(BAbs(V(S[1])), UnitBits * e.n), TwoTo(UnitBits))
    (* residues: m is the modulus *)
    [] o = "z.mod" -> V(N) = BHex(e.i)
    [] o = "z.add" -> V(N) = BMod(BAdd(V(S[1]), V(S[2])), m)
    [] o = "z.sub" -> V(N) = BMod(BSub(V(S[1]), V(S[2])), m)
    [] o = "z.mul" -> V(N) = BMod(BMul(V(S[1]), V(S[2])), m)
    [] o = "z.neg" -> V(N) = BMod(BNeg(V(S[1])), m)
    [] o = "z.inv" -> BMod(BMul(V(N), V(S[1])), m) = BMod(B(1), m)
    [] o = "z.div" -> BMod(BMul(V(N), V(S[2])), m) = V(S[1])
    [] o = "z.pow" -> V(N) = BPowMod(V(S[1]), BHex(e.i), m)
    [] o = "z.seti" -> V(N) = BMod(BHex(e.i), m)
    [] o = "z.set32" -> V(N) = BMod(Weighted(e.ws, 32), m)
    [] o = "z.set64" -> V(N) = BMod(Weighted(e.ws, 64), m)
    (* text *)
    [] o = "print" -> e.txt = NumText(V(S[1]), e.base)
    [] o = "parse" -> MayTake(IF ty = "b" THEN ParseS(e.t, e.base) ELSE ParseU(e.t, e.base), V(N))
    [] o = "z.parse" -> LET n == ParseU(e.t, 0) IN IsNum(n) /\ V(N) = BMod(n[2], m)
    [] o = "open" -> V(N) = e.t
    [] o = "read" -> LET k == Token(V(S[1]), ty = "b") IN
         /\ MayTake(k[1], V(N)) /\ V(N2) = k[2]
    [] OTHER -> PrintT(<<"unknown operation", o>>) /\ FALSE

MayRefuse(o, ty, S, e, m) ==
  CASE o = "add" -> NoRoom(ty, Size(BAdd(BAbs(V(S[1])), BAbs(V(S[2])))))
    [] o = "addi" -> NoRoom(ty, Size(BAdd(V(S[1]), BHex(e.i))))
    [] o = "sub" -> IF ty = "b" THEN NoRoom(ty, Size(BAdd(BAbs(V(S[1])), BAbs(V(S[2])))))
                    ELSE BLt(V(S[1]), V(S[2]))
    [] o = "mul" -> NoRoom(ty, Size(V(S[1])) + Size(V(S[2])))
    [] o = "muli" -> NoRoom(ty, Size(V(S[1])) + 1)
    [] o = "div" -> NoRoom(ty, Size(V(S[2])) + 1)
    [] o = "shl" -> NoRoom(ty, Size(V(S[1])) + (e.n \div UnitBits) + 1)
    [] o = "shr" -> ty = "b" /\ BLt(V(S[1]), B(0))          \* not offered for negative numbers
    [] o = "pow" -> NoRoom(ty, 2 * Size(IPow(BAbs(V(S[1])), BHex(e.i))))
    [] o \in {"set32", "z.set32"} -> NoRoom(ty, (Len(e.ws) * 32 + UnitBits - 1) \div UnitBits)
    [] o \in {"set64", "z.set64"} -> NoRoom(ty, Len(e.ws) * (64 \div UnitBits))
    [] o \in {"z.mul", "z.inv", "z.div", "z.pow"} -> NoRoom(ty, 2 * Size(m))
    [] o \in {"z.add", "z.sub"} -> NoRoom(ty, Size(BAdd(m, m)))
    [] o = "z.seti" -> LET i == BHex(e.i) IN        \* far negative integers may be refused
         BLt(i, BNeg(m)) \/ i = BHex("-80000000")
    [] o = "parse" -> ~MustTake(IF ty = "b" THEN ParseS(e.t, e.base) ELSE ParseU(e.t, e.base), ty = "w")
    [] o = "z.parse" -> ~MustTake(ParseU(e.t, 0), FALSE) \/ NoRoom(ty, 2 * Size(m))
    [] o = "read" -> LET k == Token(V(S[1]), ty = "b") IN ~(MustTake(k[1], ty = "w") /\ k[3])
    [] OTHER -> FALSE
=============================================================================
