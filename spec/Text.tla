-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text forms of numbers, field elements and points: a grammar over     *)
(* character codes.  A text is a sequence of codes 0..255.                  *)
(*   number  ::= "0" | nonzero-digit digit* | "0x" hexnumber                *)
(*   Fp2     ::= "[" number "," number "]"   (and so on, see Composite)     *)
(*   point   ::= "0" | hex "_" hex                                          *)
(* A parser is a relation: canonical text must be read with its value, text *)
(* that is no number must be refused, and text that is a number in a form   *)
(* the library never writes itself (superfluous zeros) may be either.       *)
(***************************************************************************)
EXTENDS BigInts, TLC, SequencesExt

Digit(c) == 48 <= c /\ c <= 57
HexLow(c) == 97 <= c /\ c <= 102
HexUp(c) == 65 <= c /\ c <= 70
Hex(c) == Digit(c) \/ HexLow(c) \/ HexUp(c)
White(c) == c = 32 \/ (9 <= c /\ c <= 13)
Minus == 45
Lower_x == 120
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF HexLow(c) THEN c - 87 ELSE c - 55

AllOf(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
From(t, i) == SubSeq(t, i, Len(t))
Value(t, base) == FoldLeft(LAMBDA acc, c: TLCEval(BAdd(BMul(acc, B(base)), B(HexVal(c)))), B(0), t)

Bad == <<"bad">>
Num(v, canonical, room) == <<"num", v, canonical, room>>
IsNum(x) == x[1] = "num"
NumVal(x) == x[2]
(* the form the library itself writes: no superfluous leading zero *)
Plain(t) == Len(t) = 1 \/ t[1] # 48

(* unsigned, base 0 (by prefix), 10 or 16.  room: within what the reader of *)
(* a 9-word number is obliged to take (it may refuse longer digit strings)  *)
ParseU(t, base) ==
  IF Len(t) > 2 /\ t[1] = 48 /\ t[2] = Lower_x /\ base # 10 /\ AllOf(From(t, 3), Hex)
  THEN LET v == Value(From(t, 3), 16) IN Num(v, Plain(From(t, 3)), Len(t) <= 146)
  ELSE IF Len(t) > 0 /\ base # 16 /\ AllOf(t, Digit)
  THEN LET v == Value(t, 10) IN Num(v, Plain(t), BBitLen(v) <= 512)
  ELSE IF Len(t) > 0 /\ base = 16 /\ AllOf(t, Hex)
  THEN LET v == Value(t, 16) IN Num(v, Plain(t), Len(t) <= 144)
  ELSE Bad
ParseS(t, base) ==
  IF Len(t) > 0 /\ t[1] = Minus
  THEN LET n == ParseU(From(t, 2), base) IN
       IF IsNum(n) THEN Num(BNeg(n[2]), n[3] /\ n[2] # B(0), n[4]) ELSE Bad
  ELSE ParseU(t, base)

(* reading value v (or refusing) is right for the parse result n; unlimited: no capacity bound *)
MustTake(n, unlimited) == IsNum(n) /\ n[3] /\ (n[4] \/ unlimited)
MayTake(n, v) == IsNum(n) /\ v = n[2]

(* ---- reading from a stream -------------------------------------------- *)
RECURSIVE Skip(_)
Skip(t) == IF Len(t) > 0 /\ White(t[1]) THEN Skip(From(t, 2)) ELSE t
(* length of the longest prefix that looks like a number *)
RECURSIVE Run(_, _, _)
Run(t, i, signed) ==
  IF i > Len(t) THEN i - 1
  ELSE LET c == t[i] IN
    IF \/ Hex(c)
       \/ signed /\ i = 1 /\ c = Minus
       \/ c = Lower_x /\ i > 1 /\ t[i - 1] = 48 /\ (i = 2 \/ (i = 3 /\ t[1] = Minus))
    THEN Run(t, i + 1, signed) ELSE i - 1
(* what follows a number without a doubt *)
Terminator(t, k) == k = Len(t) \/ White(t[k + 1]) \/ t[k + 1] \in {44, 59, 91, 93, 95, 40, 41, 0}
Token(t, signed) ==         \* <<parse result, text after it, certain>>
  LET s == Skip(t) k == Run(s, 1, signed) IN
  << IF signed THEN ParseS(SubSeq(s, 1, k), 0) ELSE ParseU(SubSeq(s, 1, k), 0), From(s, k + 1), Terminator(s, k) >>

(* ---- composite elements ----------------------------------------------- *)
(* state of a reader: <<ok, certain, remaining, values>> *)
Start(t) == <<TRUE, TRUE, t, <<>> >>
Expect(st, c) ==
  IF ~st[1] THEN st ELSE LET s == Skip(st[3]) IN
  IF Len(s) > 0 /\ s[1] = c THEN <<TRUE, st[2], From(s, 2), st[4]>> ELSE <<FALSE, st[2], st[3], st[4]>>
Read1(st) ==
  IF ~st[1] THEN st ELSE LET k == Token(st[3], FALSE) IN
  IF IsNum(k[1]) THEN <<TRUE, st[2] /\ k[3] /\ MustTake(k[1], FALSE), k[2], Append(st[4], NumVal(k[1]))>>
  ELSE <<FALSE, st[2], st[3], st[4]>>
LBr == 91 RBr == 93 Comma == 44
Read2(st) == Expect(Read1(Expect(Read1(Expect(st, LBr)), Comma)), RBr)
Read6(st) == Expect(Read2(Expect(Read2(Expect(Read2(Expect(st, LBr)), Comma)), Comma)), RBr)
Read12(st) == Expect(Read6(Expect(Read6(Expect(st, LBr)), Comma)), RBr)
(* a word of non-blank characters *)
RECURSIVE WordLen(_, _)
WordLen(t, i) == IF i > Len(t) \/ White(t[i]) THEN i - 1 ELSE WordLen(t, i + 1)

(* ---- writing ---------------------------------------------------------- *)
NumText(v, base) == IF base = 10 THEN BToDec(v)
                    ELSE IF BLt(v, B(0)) THEN "-0x" \o BToHex(BNeg(v)) ELSE "0x" \o BToHex(v)
=============================================================================
