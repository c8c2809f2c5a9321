import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
BN="include/bn.h"; Z2H="include/zm2.h"; Z2C="src/zm2.cpp"; ZH="include/zm.h"; ZC="src/zm.cpp"
prop("P01","The pairing is bilinear, non-degenerate and lands in the order-r group",
 "For every point P of the base curve, every order-r point Q of the twist and all non-negative integers a and b, the pairing of aP with bQ equals the pairing of P with Q raised to the power ab. Its value always has order dividing r, and it is the unit element exactly when one of the two points is the point at infinity.",
 ["inputs","configurations"],"all pairs of points (including infinity, negated and repeated ones), all scalars, every supported curve",
 "The tests use two or three fixed points and a few dozen fixed scalars; a wrong carry, line coefficient or exponent digit that shows on other points is not reached.",
 [BN,Z2C],[("Miller loop over signed digits of 6z+2","include/bn.h:2719 opt_atePairing"),("final exponentiation","include/bn.h:1776 final_exp"),("Frobenius correction lines","include/bn.h:2760"),("generated line evaluation and sparse multiplication","src/zm2.cpp PairingCode")],
 ["opt_atePairing(Fp12&, Fp2 Q[2], Fp P[2])","opt_atePairing(Fp12&, Ec2, Ec1)","Fp12 values"])
prop("P02","All pairing entry points agree on the one optimal-ate value of a pair",
 "Each way of computing a pairing (affine coordinates, projective coordinates, point objects, precomputed lines) returns one and the same field element for the same two points, namely the optimal ate pairing value of that curve, whatever projective representatives are given. The combined two-pair computation equals the product of the two single pairings, and a precomputed table can be reused with any number of first arguments.",
 ["inputs","histories","configurations"],"all pairs of points, all projective representatives, all orders of precompute/reuse calls, every supported curve",
 "The tests compare two entry points on one pair with trivial denominators; the reused table, two-pair path and non-normalised inputs are exercised once with fixed points.",
 [BN],[("precomputed line table","include/bn.h components::precomputeG2"),("millerLoop over the table","include/bn.h components::millerLoop"),("two-pair Miller loop","include/bn.h components::millerLoop2"),("Jacobian front end","include/bn.h:2795 opt_atePairingJac")],
 ["components::precomputeG2/millerLoop/millerLoop2 + final_exp","opt_atePairing, opt_atePairingJac"])
prop("P03","Base-field arithmetic is exact, canonical and alias-safe",
 "Addition, subtraction, negation, multiplication, squaring, halving, quartering, small-multiple combinations, inversion, division, square roots, comparison and conversion to and from integers in the base field give exactly the result of integer arithmetic modulo p, for all operands. Every result is the unique reduced representative, also when the destination is one of the operands. A square root is reported exactly for squares and really squares back.",
 ["inputs","configurations"],"all pairs of reduced field elements, all aliasing patterns, every arithmetic code path",
 "The tests use a fixed handful of values and short incremental loops; limb-boundary carries and borrows (probability about 2^-64 per random input) are never reached.",
 [Z2H,Z2C],[("generated add/sub/neg/mul with conditional subtraction","src/zm2.cpp PairingCode::gen_*"),("Montgomery inverse with correction table","include/zm2.h:165 Fp::inv"),("half/quarter tables","include/zm2.h:216"),("squareRoot","include/zm2.h:297")],
 ["Fp::add/sub/neg/mul/square/inv/divBy2/divBy4/squareRoot/compare/get/set"])
prop("P04","Double-width lazy-reduction arithmetic stays congruent and in range",
 "Every double-width operation (product without reduction, addition, subtraction, negation, the no-carry variants inside their stated bounds, and the final reduction) yields a value congruent modulo p to the exact integer result. Values stay inside the range the next operation requires, the final reduction returns the unique reduced representative, and the destination may be one of the operands.",
 ["inputs","configurations"],"all double-width operands within the documented ranges, including every limb carry/borrow pattern and the extreme ends of the ranges",
 "Tests check a few products; the conditional corrections trigger on conditions on the top half that fixed inputs seldom reach, and range violations need chains of extreme operands.",
 [Z2H,Z2C,BN],[("conditional correction by p*2^256","src/zm2.cpp in_FpDbl_add/sub/neg"),("Montgomery reduction of 512 bits","src/zm2.cpp FpDbl_mod"),("subOpt1 correction table","include/zm2.h:382"),("Fp2/Fp6 double-width products","include/bn.h:725 mulOptC, include/bn.h:1268 Dbl::mulC")],
 ["Fp::Dbl, Fp2::Dbl, Fp6::Dbl static operations"])
prop("P05","Extension-field arithmetic matches the tower definition for all elements",
 "In the quadratic, sextic and twelfth-degree extensions, addition, subtraction, negation, multiplication, squaring, multiplication by the non-residue, by base-field and by sparse elements, inversion and the Frobenius powers compute exactly what the tower definition of the curve prescribes. This holds for all reduced elements, including zero, subfield and sparse ones, and for every aliasing of destination and operands.",
 ["inputs","configurations"],"all reduced elements of each extension, all aliasing patterns, every supported curve and code path",
 "Tests multiply a few dense fixed elements; zero components, extreme components and aliased destinations are unsampled.",
 [BN,Z2C],[("Karatsuba with lazy reduction","include/bn.h:412 mulC, :904, :1450"),("generated Fp2/Fp6 multiplication","src/zm2.cpp Fp2_mul, Fp6_mul, Fp2Dbl_mulOpt"),("non-residue multiplication","include/bn.h:447 mul_xiC"),("Frobenius tables","include/bn.h:1640 Frobenius*"),("sparse products","include/bn.h:1964 mul_Fp2_024")],
 ["Fp2, Fp6, Fp12 operators and static functions"])
prop("P06","Cyclotomic shortcuts and final exponentiation equal plain exponentiation",
 "For every element of the cyclotomic subgroup, the fast squarings, the compressed squarings followed by decompression and the power by the curve parameter equal plain squaring and exponentiation. For every non-zero element of the big field, mapping to the subgroup and the whole final exponentiation equal raising to the corresponding fixed integer exponent.",
 ["inputs","configurations"],"all elements of the cyclotomic subgroup (including the unit and elements with vanishing coordinates), all non-zero field elements, every supported curve",
 "Tests check one pairing-derived element; elements on which the compressed representation degenerates (unit, vanishing components) or carries occur are not sampled.",
 [BN,Z2C],[("Granger-Scott squaring","include/bn.h:1561 sqru"),("compressed squaring and decompression","include/bn.h:2128 CompressT"),("power by the curve parameter","include/bn.h:2310 fixed_power, :1756 pow_neg_t"),("easy part","include/bn.h:1731 mapToCyclo"),("final exponentiation","include/bn.h:1776")],
 ["Fp12::sqru, mapToCyclo, final_exp, Compress::square_n, Compress::fixed_power"])
prop("P07","Point addition, subtraction, doubling and negation form the curve group",
 "On both curves, adding, subtracting, doubling and negating points gives the group law's result for all operands, including equal, opposite and infinite ones, whatever projective representatives carry them. The destination may be one of the operands, and operands that are not the destination keep their value.",
 ["inputs","histories"],"all pairs of points on either curve in any projective representation, all aliasing patterns, all sequences of such operations",
 "Tests add a few small multiples of a generator; coincidences such as P+P or P+(-P) with different denominators or aliased destinations are sampled once if at all.",
 [BN],[("Jacobian doubling","include/bn.h:2496 ECDouble"),("Jacobian addition with special cases","include/bn.h:2525 ECAdd"),("point object wrappers","include/bn.h:2814 EcT")],
 ["ecop::ECAdd/ECDouble","EcT::add/sub/neg/dbl and operators"],
 [("p[3], mode","projective coordinates of a point object","include/bn.h EcT")])
prop("P08","Scalar multiplication is correct for every non-negative scalar of every type",
 "Multiplying a point of either curve by a non-negative integer gives the sum of that many copies of the point, for every size and bit pattern of the integer (zero, one, multiples of and numbers beyond the group order, several words with zero words between), for every supported integer type, and for every point including infinity and non-normalised ones. The destination may be the operand.",
 ["inputs","configurations"],"all points, all non-negative scalars up to many words, all accepted scalar types",
 "Tests multiply by a few constants mostly below one word; word boundaries, zero words and special window patterns are unsampled.",
 [BN,ZH],[("double-and-add over blocks","include/bn.h:2589 ScalarMult"),("scalar block access","include/zm.h:1345 IntTag, include/bn.h:40")],
 ["ecop::ScalarMult","EcT::operator*, *=, mul"])
prop("P09","Point validity, normalisation, comparison and construction are faithful",
 "A coordinate tuple is accepted as a point exactly when it satisfies the curve equation (or denotes infinity), construction with checking rejects everything else, and normalising changes the representation but never the point. Two point objects compare equal exactly when they denote the same group element, and copying, assigning, clearing and reading coordinates never change or mix up the element denoted.",
 ["inputs","histories"],"all coordinate triples on and off either curve in each coordinate system, all histories of set/normalise/compare/copy on point objects",
 "Tests check the generator and one off-curve point; mixtures of representation, infinity encodings and lazily normalised objects are not covered.",
 [BN],[("curve-equation tests","include/bn.h:2360 isOnECJac3 .. isOnTwistECHom3"),("normalisation","include/bn.h:2450 NormalizeJac/Hom, EcT::normalize"),("equality and set with verify","include/bn.h:2842 EcT::set, operator==")],
 ["ecop::isOn*, Normalize*","EcT::isValid, set, ==, isZero, normalize, copy"],
 [("mutable p[3]","lazily normalised representation inside const objects","include/bn.h EcT::normalize")])
prop("P10","Unsigned big integers compute exactly within their capacity",
 "Addition, subtraction of a smaller number, multiplication, division with remainder, shifts, bit and block access, comparison, bit length and conversions on the fixed-capacity unsigned integers equal those of the natural numbers for every operand length and aliasing pattern whenever operands and result leave room within the capacity; a call that does not fit is exact or refused, never silently wrong. The result is always in normal form, so equal numbers compare equal.",
 ["inputs","configurations"],"all operand values up to the capacity, all aliasing patterns, all shift amounts",
 "Tests use fixed examples; quotient-digit estimation and carry propagation fail only on rare limb patterns.",
 [ZH,ZC],[("schoolbook multiply and estimate-based division","include/zm.h:904, :926, GetApp"),("normal form trimming","include/zm.h VuintT::trim"),("generated add/sub/mul1/div1","src/zm.cpp")],
 ["Vuint operators, div, shl, shr, bitLen, testBit, compare"])
prop("P11","Signed big integers follow one consistent integer semantics",
 "Addition, subtraction, multiplication, negation, shifts, comparison and floor division with a remainder of the divisor's sign equal those of the integers, for every sign combination, for zero, and for aliased destinations. Zero has a single representation, so that a number compares and prints the same however it was obtained and whatever the object held before.",
 ["inputs","histories"],"all signed operands within capacity, all sign combinations, all earlier contents of the destination",
 "Tests check small sign tables; zero results reached by cancellation, exact divisions with negative operands and re-used objects are mostly unsampled.",
 [ZH],[("sign handling","include/zm.h:1033 VsintT::add/sub/mul/div/neg"),("shifts","include/zm.h:1125")],
 ["Vsint operators, div, set, compare, print"],
 [("isNeg_","sign flag independent of the magnitude","include/zm.h VsintT")])
prop("P12","Generic modular integers compute in Z/m",
 "For every modulus and all operands, addition, subtraction, negation, multiplication, inversion and division of the generic modular integers equal arithmetic modulo m, with every result reduced. Assigning any integer, negative or larger than the modulus, yields its residue, and aliased destinations are allowed.",
 ["inputs","configurations"],"all moduli (word-size to several words), all reduced operands, invertible ones for division",
 "Tests use a few fixed moduli and values; sums that equal the modulus, the top of the word range and inversion sequences with particular quotients are unsampled.",
 [ZH],[("conditional subtract","include/zm.h:1236 ZmZ::add/sub"),("extended gcd","include/zm.h:1292 ZmZ::inv"),("modulo reduction on construction","include/zm.h ZmZ::modulo")],
 ["ZmZ operators, set, inverse"])
prop("P13","Text forms round-trip exactly and malformed text is refused",
 "Printing any number, field element or point and reading the text back yields the same value in every supported base, prefix and stream form, also when several values follow one another. The printed form is the canonical one (no leading zeros, no negative zero), and text that is not such a number is refused rather than silently read as a different number.",
 ["inputs","histories"],"all values, both bases, all malformed strings, all sequences of values in a stream",
 "Tests parse a dozen literals; digit-group boundaries, inner zero groups and malformed characters at group positions are not enumerated.",
 [ZH,ZC,Z2H,BN],[("decimal and hexadecimal conversion in digit groups","include/zm.h VuintT::set(string)/toString"),("token reader","include/zm.h local::getDigits"),("element printers and readers","include/bn.h operator<< / operator>>")],
 ["set(const std::string&), toString, operator<<, operator>>"])
prop("P14","Results do not depend on the chosen machine-code configuration",
 "For every program of library calls, each initialisation mode and each instruction-set option gives bit-for-bit the same results, and the portable reference routines give the same results as the generated machine code.",
 ["configurations","inputs","programs"],"all combinations of mode and instruction-set flag, all programs and operands",
 "The test runs each mode on the same few values and never compares modes with each other, so a generator path that only differs on rare carries stays unseen.",
 [Z2C,ZC,BN],[("generator branches on mode and mulx","src/zm2.cpp PairingCode::init, gen_*"),("portable fallbacks","include/bn.h *C functions")],
 ["all field and pairing operations under Param::init(mode, useMulx)"])
prop("P15","Initialisation yields consistent parameters under every call history",
 "After any sequence of initialisation calls that ends with a supported curve, all derived parameters (field prime, group order, trace, digit expansion of the loop count, Frobenius constants, twist constant, inverse and half tables) are those defined by that curve's parameters, and every operation behaves as for that curve. Repeating the initialisation changes nothing, and an unsupported curve is refused.",
 ["histories","configurations"],"all sequences of initialisation calls with all supported and unsupported parameters and modes",
 "Each test process initialises once; repeated or switched initialisation and the individual constants are not examined.",
 [BN,Z2H,Z2C,ZC],[("parameter setup","include/bn.h:206 ParamT::init"),("one-time field setup","src/zm2.cpp Fp::setModulo"),("digit expansion","include/bn.h:120 convertToNAF, :158 getGoodRepl")],
 ["Param::* constants, Fp::getModulo, all operations after re-initialisation"],
 [("one-time static code generation","generated code is baked at the first initialisation","src/zm2.cpp:setModulo")])
prop("P16","The language-binding interface equals the core library",
 "Each operation offered to other languages (integers, field elements, curve points, pairing, text conversion, validity checks) gives the same value as the mathematical definition of the underlying operation, and signals an error instead of accepting an invalid point or element. Objects passed as arguments are not changed, and an in-place operation whose argument is the object itself is also correct.",
 ["inputs","histories"],"all argument values and all call sequences of the binding interface",
 "The binding test computes one fixed scenario with small scalars.",
 ["java/bn254_if.hpp","java/bn254_if.i",BN],[("wrapper classes","java/bn254_if.hpp"),("interface file","java/bn254_if.i")],
 ["Mpz, Fp, Fp2, Fp12, Ec1, Ec2 wrapper methods"])
prop("P17","Operations write only their destination and leave operands denoting the same",
 "No library call changes the value denoted by an argument other than its destination, nor any memory outside the destination object, whatever the relation between destination and operands. Read-only queries never change what an object denotes, however often and in whatever order they are asked.",
 ["inputs","histories","configurations"],"all operations on neighbouring objects, all aliasing patterns, all query orders",
 "Tests look only at the destination; a stray write past an object or a modified input is invisible to them.",
 [BN,Z2H,Z2C,ZH,ZC],[("generated code's stores and saved registers","src/zm2.cpp MakeStackFrame, store_*"),("copy-on-alias temporaries","include/bn.h, include/zm.h")],
 ["arrays of objects around the destination before and after each call"])
prop("P18","Generic exponentiation equals repeated multiplication",
 "Raising an element of any of the library's multiplicative structures (generic modular integers, base and extension fields) to a non-negative integer power equals multiplying the element by itself that many times, for every exponent size, bit pattern and integer type, including zero and exponents of several words. The destination may be the base element.",
 ["inputs","configurations"],"all base elements, all non-negative exponents of every supported integer type",
 "Tests raise a few elements to small powers or to one large constant.",
 [ZH,BN],[("square-and-multiply over blocks","include/zm.h:1388 power"),("block access","include/zm.h:1345 IntTag")],
 ["mie::power, power_impl"])
prop("P19","Miller-loop line steps advance the point and evaluate its tangent or chord",
 "Each doubling or addition step of the Miller loop turns the running twist point into its double or its sum with the other point, and the line it returns vanishes exactly on the points of the tangent or chord, up to a factor the final exponentiation removes. The variant that leaves out the first argument gives the same line once that argument is supplied, and the sparse product of two lines equals their full product.",
 ["inputs","configurations"],"all twist points in all projective representations, all base points, every supported curve and code path",
 "Tests compare one fixed step with recorded constants.",
 [BN,Z2C],[("doubling step","include/bn.h:1001 pointDblLineEvalWithoutPC, generated version in src/zm2.cpp"),("addition step","include/bn.h:1094 pointAddLineEvalWithoutP"),("line products","include/bn.h:2065 mul_Fp2_024_Fp2_024")],
 ["Fp6::pointDblLineEval(WithoutP), pointAddLineEval(WithoutP), Fp12::Dbl::mul_Fp2_024(_Fp2_024)"])
prop("P20","After initialisation, threads working on their own objects do not interfere",
 "Once initialisation has finished, any interleaving of library calls made by several threads on objects that are not shared for writing gives each thread the results it would get alone. (Comparing, printing or pairing a point that is not normalised rewrites its representation, so such a point counts as written.)",
 ["schedules"],"all interleavings of any number of threads calling any operations on distinct objects (sharing only read-only inputs)",
 "All tests are single-threaded, so a scratch variable with static storage is invisible to them.",
 [BN,Z2H,Z2C,ZH,ZC],[("no mutable static scratch after initialisation","all operations"),("stack-only temporaries in generated code","src/zm2.cpp")],
 ["per-thread results under concurrent execution"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
