---------------------------- MODULE InitMachine ----------------------------
(***************************************************************************)
(* Histories of initialisation calls.                                      *)
(*                                                                         *)
(* State: the curve in force (None before the first accepted call).  A     *)
(* call names a curve (z, b, xi) and a code mode; it is accepted exactly   *)
(* for the curves this build supports, and then that curve is in force,    *)
(* whatever went before; otherwise it is refused and changes nothing.      *)
(* Params says what every derived parameter of the curve in force is.      *)
(***************************************************************************)
EXTENDS BigInts, TLC, SequencesExt

CONSTANT Build                     \* "def" or "snark"

Crv(z, b, xa, xb) == [z |-> z, b |-> b, xa |-> xa, xb |-> xb]    \* z in decimal
ZBNb == "-4647714815446351873"
ZSnark == "4965661367192848881"
BNb == Crv(ZBNb, 2, 1, 1)
Snark1 == Crv(ZSnark, 3, 9, 1)
Snark2 == Crv(ZSnark, 82, 9, 1)
SupportedBy(build) == IF build = "snark" THEN {Snark1, Snark2} ELSE {BNb}
Supported(c) == c \in SupportedBy(Build)
None == Crv("0", 0, 0, 0)
InForce(cur, c) == IF Supported(c) THEN c ELSE cur          \* the transition

(* ---- derived parameters, by definition -------------------------------- *)
Ev(z, cs) == FoldRight(LAMBDA ci, acc: BAdd(B(ci), BMul(acc, z)), cs, B(0))
P(z) == Ev(z, <<1, 6, 24, 36, 36>>)
RR(z) == Ev(z, <<1, 6, 18, 36, 36>>)
TT(z) == Ev(z, <<1, 0, 6>>)
M2(p, x, y) == << BMod(BSub(BMul(x[1], y[1]), BMul(x[2], y[2])), p), BMod(BAdd(BMul(x[1], y[2]), BMul(x[2], y[1])), p) >>
Pow2(p, x, e) == FoldLeft(LAMBDA acc, bit: TLCEval(IF bit = 1 THEN M2(p, M2(p, acc, acc), x) ELSE M2(p, acc, acc)),
                          <<B(1), B(0)>>, BBits(e))
Inv2(p, x) == LET n == BInv(BMod(BAdd(BMul(x[1], x[1]), BMul(x[2], x[2])), p), p)
              IN <<BMod(BMul(x[1], n), p), BMod(BNeg(BMul(x[2], n)), p)>>
Signed(ds) == FoldLeft(LAMBDA acc, d: TLCEval(BAdd(BAdd(acc, acc), B(d))), B(0), ds)
DigitsOf(ds, v) == /\ Len(ds) > 0 /\ ds[1] = 1
                   /\ \A i \in 1..Len(ds) : ds[i] \in {-1, 0, 1}
                   /\ Signed(ds) = v

(* o: the observed parameters; field elements are stored as x*2^256 mod p *)
ParamsOK(c, o) ==
  LET z == BDec(c.z)
      p == P(z)
      ri == BInv(BMod(BPow(B(2), 256), p), p)
      F(h) == BMod(BMul(BHex(h), ri), p)
      G(x) == <<F(x[1]), F(x[2])>>
      xi == <<B(c.xa), B(c.xb)>>
      e6 == BDiv(BSub(p, B(1)), B(6))
      p2 == BMul(p, p)
      g1 == Pow2(p, xi, e6)
      g2 == Pow2(p, xi, BDiv(BSub(p2, B(1)), B(6)))
      g3 == Pow2(p, xi, BDiv(BSub(BMul(p2, p), B(1)), B(6)))
      Powers(g, obs) == Len(obs) = 5 /\ \A i \in 1..5 : G(obs[i]) = Pow2(p, g, B(i))
      Is(what, b) == IF b THEN TRUE ELSE PrintT(<<"parameter", what>>) /\ FALSE
  IN /\ Is("z", BHex(o.z) = z)
     /\ Is("p", BHex(o.p) = p /\ BHex(o.m) = p)
     /\ Is("r", BHex(o.r) = RR(z))
     /\ Is("t", BHex(o.t) = TT(z))
     /\ Is("6z+2", BHex(o.c) = Ev(z, <<2, 6>>))
     /\ Is("loop digits", DigitsOf(o.si, BAbs(Ev(z, <<2, 6>>))) /\ (o.naf = 0 => \A i \in 1..Len(o.si) : o.si[i] # -1))
     /\ Is("digits of z", "zr" \in DOMAIN o => DigitsOf(o.zr, BAbs(z)))
     /\ Is("b", o.b = c.b)
     /\ Is("b/xi", M2(p, G(o.binv), xi) = <<B(c.b), B(0)>>)
     /\ Is("half", BMod(BMul(F(o.half), B(2)), p) = B(1))
     /\ Is("constants 0, 1", F(o.i0) = B(0) /\ F(o.i1) = B(1) /\ F(o.one) = B(1))
     /\ Is("gamma", Powers(g1, o.g1))
     /\ Is("gamma2", Powers(g2, o.g2))
     /\ Is("gamma3", Powers(g3, o.g3))
     /\ Is("W2p", G(o.w2) = M2(p, g1, g1))
     /\ Is("W3p", G(o.w3) = Pow2(p, g1, B(3)))
     /\ Is("Z", g2[2] = B(0) /\ F(o.Z) = BMod(BMul(g2[1], g2[1]), p))
=============================================================================
