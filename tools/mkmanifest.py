"""Writes MANIFEST.json from the list of built checks."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "contract-based deductive verification: verification conditions generated from the LLVM IR of the current source"
SAT = "discharged for all inputs by bit blasting and SAT (kissat)"
SWP = "discharged for all inputs by SAT sweeping against an IEEE specification circuit (own CDCL solver, kissat for remainders)"
LIA = "discharged for all inputs in linear integer arithmetic over exact values (z3), with product lemmas; remainders by SAT (kissat)"
CLAIMED = {
    "C01": (f"{GEN}; postconditions {SAT}", "All helpers, all inputs, no bound."),
    "C02": (f"{GEN}; postconditions {LIA}", "All helpers compiled for this target, all inputs, no bound."),
    "C03": (f"{GEN}; loops cut by invariants and termination measures; obligations {LIA}", "All unsigned helpers compiled for this target, with and without machine division, and the algorithms other targets select; all operands with a nonzero divisor."),
    "C04": (f"{GEN}; callers checked against the proved contract of unsigned division; loops cut by invariants; obligations {LIA}", "All signed helpers at 32, 64 and 128 bits, all operands with a nonzero divisor."),
    "C05": (f"{GEN}; postconditions {SAT}", "All helpers; precondition: shift count below the width."),
    "C06": (f"{GEN}; postconditions {SAT}", "All helpers and the generic variants, all inputs."),
    "C07": (f"{GEN}; postconditions {SWP}", "f16, f32, f64, f128, all operand pairs; complete case split by operand class."),
    "C08": (f"{GEN}; postconditions {SWP}; the 128-bit widening product by a contract proved in integer arithmetic", "f16, f32, f64, f128, all operand pairs; complete case split by operand class."),
    "C10": (f"{GEN}; postconditions {SAT}", "All comparison helpers of f16/f32/f64/f128, all operand pairs."),
    "C11": (f"{GEN}; postconditions {SAT}", "All conversions present in the library, all integers."),
    "C12": (f"{GEN}; postconditions {SAT}", "All conversions present in the library, all floats."),
    "C13": (f"{GEN}; postconditions {SAT}", "All widening and narrowing pairs, all floats."),
    "C14": (f"{GEN}; memory as a function from addresses to bytes, loops replaced by closed-form summaries proved inductive with a termination measure, string instructions by contract; obligations discharged for all inputs by bit blasting and SAT (cadical, kissat)", "memcpy, memmove and memset, portable and machine-specific, all lengths, alignments and overlaps; the variant without unaligned word reads in the thorough tier."),
    "C15": (f"{GEN}; memory as a function from addresses to bytes, loops replaced by closed-form summaries proved inductive with a termination measure, inner comparisons by proved contracts; obligations discharged for all inputs by bit blasting and SAT (cadical, kissat)", "memcmp, bcmp and strlen, portable and machine-specific, all lengths, alignments and contents."),
    "C16": (f"{GEN}; postconditions {SAT}", "All rounding functions in four formats, all floats."),
    "C17": (f"{GEN}; postconditions {SAT}", "All functions in the formats offered, all operand pairs."),
    "C18": (f"{GEN}; postconditions {SAT}", "All functions in the formats offered, all inputs, all exponents."),
    "C20": (f"{GEN}; postconditions {SWP}, one case per distance of the exponents; wide product by a contract proved in integer arithmetic", "f16, f32 and f64: all operand triples. f128: zeros, infinities, NaN, dominated sums and five exponent distances only (bounded part, not counted as proved for the others)."),
    "C22": (f"{GEN}; loops cut by invariants against a reference automaton, callers checked against the contracts of their callees; rounding {SWP}", "Parsing: texts of less than 2^28 bytes, four formats, four rounding modes, all significands and exponents. Formatting: bounded, the round trip is sampled on every run and not counted as proved. If the loops are rewritten beyond the invariants, texts of at most 5 bytes stand in (bounded, stated in the evidence)."),
    "C23": (f"{GEN}; native float operations by contract (sign, zero, NaN, exponent bound, monotonicity), integer code, comparisons and table accesses exact; symmetry as a relational postcondition of two executions; obligations discharged for all inputs by bit blasting and SAT (cadical)", "f32 and f64 elementary functions of one and two arguments. Proved for all inputs: return, no panic, no access out of bounds (except hypot, pow, powf) and the NaN rule; symmetry of asinh, atan, atanh, cosh, erf, j0, sin, sinh, tanh and their f32 forms where not listed next. Bounded (sampled on every run, not counted as proved): hypot, absence of panics in pow and powf, the large-argument reduction (assumed in its callers), symmetry of asin, atan2, cbrt, cos, j1, sincos, tan and their f32 forms and of sinf. Not covered: the integer-order Bessel functions."),
    "C24": (f"{GEN}; the loop unrolled completely with a proof that it has ended, the format's multiplication and division uninterpreted; obligations {SAT}", "f32, f64 and f128, all bases and exponents."),
    "C25": (f"{GEN}; safety obligations (overflow, shift range, assertions, bounds, termination) {SAT}; division and products {LIA}", "All integer helpers and all f16/f32/f64/f128 arithmetic, comparison and conversion helpers, f32 and f64 division included, all inputs. Quad-precision division is left out: that its reciprocal estimate stays in range needs an error analysis. Memory routines: see C14 and C15."),
    "C28": (f"{GEN}; rely-guarantee contracts of the cached function pointer and feature word, instruction preconditions and results {SAT}", "fma and fmaf of the x86_64 build with architecture support: for every value of every processor identification register and every state other threads can leave the caches in, only variants the processor and operating system support are called and the result is that of the portable variant; the instructions are taken at their contracts.", ),
    "C26": (f"{GEN}; postconditions {SAT}, products and divisions {LIA}", "All operations of the 256-bit integers and narrowing division at five widths, all operands."),
}
exec(open(os.path.join(HERE, "tools", "claims.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "claims.py")) else None
NA = {"C09": "no proof attempted: needs an error analysis of the reciprocal iteration, estimated to cost more time than was left; only the safety of f32 and f64 division is claimed, in C25",
      "C19": "no proof attempted: needs an error analysis of the reciprocal square root iteration, estimated to cost more time than was left",
      "C21": "no proof attempted: needs an invariant of the reduction loop modulo the divisor, estimated to cost more time than was left; narrowing division, which it uses, is proved in C26",
      "C27": "deciding an ulp bound needs certified real-analysis enclosures of every polynomial, table and argument reduction in the library; no proof was attempted and nothing is claimed"}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3-vt tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Each check compiles /repo's working tree to LLVM IR in a scratch directory, generates the obligations and discharges them; nothing under /repo is modified. VERIF_TIER=thorough runs the same complete proofs.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i][:2]
        m["checks"].append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
                            "technique": t, "level": CLAIMED[i][2] if len(CLAIMED[i]) > 2 else "proof", "level_note": n, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
