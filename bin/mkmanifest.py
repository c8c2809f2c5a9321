#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ specification checked by TLC; traces of the real code validated against it by TLC"
N = {
 "P01": "FieldMachine/BNPairing: recorded e(P,Q), e(aP,bQ), e(P,Q)^ab of the real code, all entry points and configurations; TLC recomputes powers and membership in the order-r group. Trusts TLC, the BigInteger operator override and the C++ recorder.",
 "P02": "BNPairing defines the optimal ate pairing in affine arithmetic; TLC recomputes it for every recorded call of every entry point and of the precomputed-line and two-pair routines.",
 "P03": "FieldMachine: every recorded base-field call is checked against integers modulo p, with canonical form, aliasing, frame and callee-saved registers. Inputs are biased random, not exhaustive.",
 "P04": "FieldMachine: every double-width call is checked for congruence, range and frame, with operands at the edges of the ranges. Inputs are biased random, not exhaustive.",
 "P05": "FieldMachine/BNField: every recorded extension-field call is compared with the tower definition, portable and generated routines, special values and all aliasing forms.",
 "P06": "FieldMachine: cyclotomic calls on members of the subgroup, also ones with vanishing compressed coordinates, and the final exponentiation are compared with plain powers by the integer exponents.",
 "P07": "BNCurve: every recorded group call is compared with the affine group law for equal, opposite, infinite and rescaled operands and all aliasing forms.",
 "P08": "BNCurve: every recorded scalar multiplication, of all integer types and special bit patterns, is compared with double-and-add over the affine law.",
 "P09": "FieldMachine: validity, construction, normalisation, comparison and copying compared with the curve equation and the denoted point; points off the curve by little are included.",
 "P14": "Lockstep: one program run in all configurations must be one behaviour, bit for bit; in addition each configuration's trace is validated against FieldMachine.",
 "P17": "FieldMachine frame conditions: the whole register file with guard zones is compared before and after every call, together with callee-saved registers and line tables.",
 "P18": "FieldMachine: recorded powers in every structure compared with square-and-multiply in the specification for all integer types and bit patterns.",
 "P19": "BNCurve/FieldMachine: each recorded line step must move the running point as the group law says and return a multiple, by an Fp2 factor, of the line through the points.",
 "P10": "IntMachine: every recorded call on fixed- and unbounded-size naturals, with generated and portable primitives, is compared with the integers; refusals only where the capacity leaves no room; words beyond the size are filled with garbage. Inputs are biased random.",
 "P11": "IntMachine: every recorded call on signed integers, with all sign combinations, aliasing and destination histories, is compared with the integers and floor division; zero has one form. Inputs are biased random.",
 "P12": "IntMachine: recorded calls on residues for changing moduli (word size to several words) compared with arithmetic modulo m, results reduced. Inputs are biased random.",
 "P13": "Text/IntMachine: printing, parsing and stream reading of recorded calls, with malformed text and digit-group boundaries, compared with a grammar in TLA+. Inputs are biased random.",
}
N.update({
 "P15": "InitMachine: TLC enumerates every history of initialisation calls up to a length; each is replayed in a fresh process of the real code; after every call all derived parameters and a short program are compared with the specification.",
 "P16": "Binding: recorded calls of the wrapper classes (integers, fields, points, pairing, text, refusals, self-arguments) compared with the definitions. The C++ classes behind the foreign-language layer, not the generated Java/Python glue.",
 "P20": "Threads: TLC proves non-interference for private scratch over all interleavings and refutes it for shared scratch; every one-preemption schedule it enumerates is replayed in the real code by single-stepping, plus free-running threads; all outcomes are judged by FieldMachine.",
})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    if p in N:
        M["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                            "technique": TR, "level": "model_checking", "level_note": N[p]})
    else:
        M["not_applicable"].append({"property": p, "reason": "not built yet"})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
