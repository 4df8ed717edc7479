#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
CB = "compiler-builtins/src/"
LM = "libm/src/math/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "128-bit addition and subtraction are exact, with exact overflow flags",
  "For every pair of operands the 128-bit add and subtract helpers return the true sum or difference modulo 2^128. The overflow-reporting variants set their flag exactly when the mathematical result does not fit the signed (i128) or unsigned (u128) type.",
  ["inputs"], "all pairs of 128-bit operands, signed and unsigned",
  "2^256 operand pairs; the tests draw about ten thousand random or edge-biased pairs per function, so a carry lost for one particular bit pattern is not reached.",
  [CB+"int/addsub.rs"], [("split carry between halves", CB+"int/addsub.rs"), ("sign-based overflow test", CB+"int/addsub.rs")],
  ["__rust_i128_add", "__rust_i128_sub", "__rust_i128_addo", "__rust_i128_subo", "__rust_u128_addo", "__rust_u128_subo", "__rust_u128_add"])
p("C02", "Integer multiplication is exact modulo 2^N and reports overflow exactly",
  "The 64-bit and 128-bit multiply helpers return the true product modulo 2^N for every pair of operands. The overflow-reporting variants return that same wrapped product and raise their flag exactly when the true product is outside the signed or unsigned range of the operand type.",
  ["inputs"], "all operand pairs of 32/64/128-bit multiplication helpers, signed and unsigned",
  "Overflow sits on a thin boundary of a 2^256-point space; fuzzed pairs seldom land one step either side of it.",
  [CB+"int/mul.rs"], [("half-width decomposition", CB+"int/mul.rs"), ("overflow test on the partial products", CB+"int/mul.rs")],
  ["__muldi3", "__multi3", "__mulosi4", "__mulodi4", "__muloti4", "__rust_i128_mulo", "__rust_u128_mulo"])
p("C03", "Unsigned division gives the exact quotient and remainder at every width",
  "For every dividend n and every nonzero divisor d, the unsigned divide helpers return q and the remainder helpers return r with n = q*d + r and 0 <= r < d, and the combined helpers return both. This holds for every width and for every division algorithm the library can select for it.",
  ["inputs", "configurations"], "all n and all d != 0 at each width; with and without the assembly feature; every algorithm variant exposed",
  "Quotient-estimate corrections fire for a vanishing share of operand pairs; the fuzzers reach few of them and never all 2^256 pairs.",
  [CB+"int/udiv.rs", CB+"int/specialized_div_rem/mod.rs", CB+"int/specialized_div_rem/trifecta.rs", CB+"int/specialized_div_rem/asymmetric.rs", CB+"int/specialized_div_rem/binary_long.rs", CB+"int/specialized_div_rem/delegate.rs", CB+"int/specialized_div_rem/norm_shift.rs"],
  [("quotient estimate and correction", CB+"int/specialized_div_rem/trifecta.rs"), ("shift-subtract long division", CB+"int/specialized_div_rem/binary_long.rs"), ("normalisation shift", CB+"int/specialized_div_rem/norm_shift.rs")],
  ["__udivsi3", "__umodsi3", "__udivmodsi4", "__udivdi3", "__umoddi3", "__udivmoddi4", "__udivti3", "__umodti3", "__udivmodti4"])
p("C04", "Signed division truncates; the remainder takes the dividend's sign",
  "For every signed n and nonzero d, except the minimum divided by -1, the signed divide and remainder helpers return q truncated toward zero and r with n = q*d + r, |r| < |d| and r zero or of the sign of n. For the minimum divided by -1 they return the wrapped quotient and remainder zero without trapping.",
  ["inputs"], "all signed operand pairs with d != 0 at 32, 64 and 128 bits",
  "Sign handling interacts with the most negative value in a handful of points of a 2^256 space.",
  [CB+"int/sdiv.rs", CB+"int/specialized_div_rem/mod.rs"], [("absolute value, unsigned division, sign fix-up", CB+"int/sdiv.rs")],
  ["__divsi3", "__modsi3", "__divmodsi4", "__divdi3", "__moddi3", "__divmoddi4", "__divti3", "__modti3", "__divmodti4"])
p("C05", "Wide shifts equal the mathematical shift for every in-range shift count",
  "For every value and every shift count smaller than the width, the left, logical right and arithmetic right shift helpers of 32, 64 and 128 bits return the exact shifted value.",
  ["inputs"], "all values and all shift counts below the width",
  "The tests take sampled values; a lost carry between halves for one shift count and one bit pattern is not excluded.",
  [CB+"int/shift.rs"], [("cross-half combination", CB+"int/shift.rs")],
  ["__ashlsi3", "__ashldi3", "__ashlti3", "__ashrsi3", "__ashrdi3", "__ashrti3", "__lshrsi3", "__lshrdi3", "__lshrti3"])
p("C06", "Leading-zero, trailing-zero and byte-swap helpers are exact for every value",
  "For every value of 32, 64 and 128 bits the count-leading-zeros and count-trailing-zeros helpers return the exact count, with the width for a zero input, under every implementation variant. The byte-swap helpers return the value with its bytes in reverse order.",
  ["inputs", "configurations"], "all values at each width; every portable implementation variant",
  "2^128 values; binary-search style counting can be wrong for a single bit pattern per level.",
  [CB+"int/leading_zeros.rs", CB+"int/trailing_zeros.rs", CB+"int/bswap.rs"],
  [("binary search on halves", CB+"int/leading_zeros.rs"), ("loop over halves", CB+"int/trailing_zeros.rs")],
  ["__clzsi2", "__clzdi2", "__clzti2", "__ctzsi2", "__ctzdi2", "__ctzti2", "__bswapsi2", "__bswapdi2", "__bswapti2"])
p("C07", "Soft-float addition and subtraction are correctly rounded in every format",
  "For every pair of f16/f32/f64/f128 operands the addition and subtraction helpers return the IEEE 754 round-to-nearest-even result, including signed zeros, subnormals, infinities and overflow. The result is a NaN exactly when an operand is a NaN or infinities of opposite effective sign meet.",
  ["inputs"], "all operand pairs of every supported format",
  "A guard/sticky/normalisation slip shows for specific exponent differences and bit patterns only; f64 has 2^128 pairs and f128 2^256.",
  [CB+"float/add.rs", CB+"float/sub.rs", LM+"support/float_traits.rs"],
  [("alignment shift with sticky bit", CB+"float/add.rs"), ("renormalisation after cancellation", CB+"float/add.rs"), ("round to nearest even", CB+"float/add.rs")],
  ["__addhf3", "__addsf3", "__adddf3", "__addtf3", "__subhf3", "__subsf3", "__subdf3", "__subtf3"])
p("C08", "Soft-float multiplication is correctly rounded in every format",
  "For every pair of f16/f32/f64/f128 operands the multiplication helpers return the IEEE 754 round-to-nearest-even product, including the sign of zeros, gradual underflow, overflow to infinity and infinities. The result is a NaN exactly when an operand is a NaN or zero meets infinity.",
  ["inputs"], "all operand pairs of every supported format",
  "Underflow and tie cases need specific significands; random operands seldom produce an exact tie.",
  [CB+"float/mul.rs", LM+"support/float_traits.rs", LM+"support/int_traits.rs", LM+"support/big.rs"],
  [("widening significand product", CB+"float/mul.rs"), ("subnormal result shift with sticky bit", CB+"float/mul.rs"), ("round to nearest even", CB+"float/mul.rs")],
  ["__mulhf3", "__mulsf3", "__muldf3", "__multf3"])
p("C09", "Soft-float division is correctly rounded in every format",
  "For every pair of operands of a supported format the division helpers return the IEEE 754 round-to-nearest-even quotient, including the sign of zeros, gradual underflow, overflow, division by zero and infinities. The result is a NaN exactly when an operand is a NaN, zero is divided by zero or infinity by infinity.",
  ["inputs"], "all operand pairs of f16, f32, f64 and f128",
  "The reciprocal estimate is off by an amount that depends on the divisor; a quotient landing next to a rounding boundary is rare under random sampling.",
  [CB+"float/div.rs", LM+"support/float_traits.rs"],
  [("reciprocal iteration", CB+"float/div.rs"), ("remainder-based final rounding", CB+"float/div.rs")],
  ["__divhf3", "__divsf3", "__divdf3", "__divtf3"])
p("C10", "Soft-float comparisons realise the IEEE order, with NaN and signed zeros",
  "For every operand pair of every supported format, the comparison helpers return a value whose relation to zero matches the IEEE order of the operands: equal zeros of either sign, and with any NaN the documented unordered value of that helper. The unordered test is nonzero exactly when an operand is a NaN.",
  ["inputs"], "all operand pairs of f16, f32, f64 and f128",
  "NaN payloads, signed zeros and negative pairs multiply into a space tests only sample.",
  [CB+"float/cmp.rs"], [("sign-magnitude integer comparison", CB+"float/cmp.rs")],
  ["__lesf2", "__gesf2", "__eqsf2", "__nesf2", "__ltsf2", "__gtsf2", "__unordsf2", "and the hf/df/tf versions"])
p("C11", "Integer to float conversion is correctly rounded for every integer",
  "For every signed and unsigned integer of 32, 64 and 128 bits, conversion to f32/f64/f128 returns the nearest float, ties to even, with the right sign.",
  ["inputs"], "all integers of each source width and signedness, every target format",
  "Ties and carry-out into the exponent depend on low bits of 128-bit values.",
  [CB+"float/conv.rs"], [("shift to significand with sticky/tie adjustment", CB+"float/conv.rs")],
  ["__floatsisf", "__floatdisf", "__floattisf", "__floatunsisf", "__floatundisf", "__floatuntisf", "and the hf/df/tf versions"])
p("C12", "Float to integer conversion truncates toward zero and saturates",
  "For every float of every supported format, conversion to a signed or unsigned integer returns the value truncated toward zero when it fits. It returns the nearest bound of the integer type when the value does not fit and zero for a NaN.",
  ["inputs"], "all floats of each format, every target width and signedness",
  "Boundary values around 2^N and -2^N differ in the last bit; tests sample.",
  [CB+"float/conv.rs"], [("exponent range tests", CB+"float/conv.rs"), ("significand shift", CB+"float/conv.rs")],
  ["__fixsfsi", "__fixsfdi", "__fixsfti", "__fixunssfsi", "__fixunssfdi", "__fixunssfti", "and the df/tf versions"])
p("C13", "Float widening is exact and float narrowing is correctly rounded",
  "Widening a float preserves its value, sign and infinity exactly for every input. Narrowing returns the round-to-nearest-even value in the target format, including subnormal results, underflow to zero and overflow to infinity; NaN inputs give NaN in both directions.",
  ["inputs"], "all floats of every source format, every pair of formats",
  "f64 and f128 sources cannot be enumerated; subnormal-result sticky bits need particular trailing bits.",
  [CB+"float/extend.rs", CB+"float/trunc.rs"], [("rebias and normalise subnormals", CB+"float/extend.rs"), ("round with sticky shift", CB+"float/trunc.rs")],
  ["__extendhfsf2", "__extendhfdf2", "__extendsfdf2", "__extendhftf2", "__extendsftf2", "__extenddftf2", "__truncsfhf2", "__truncdfhf2", "__truncdfsf2", "__trunctfhf2", "__trunctfsf2", "__trunctfdf2"])
p("C14", "Memory copy, move and fill write exactly the requested bytes",
  "For every length, alignment and (for move) overlap, memcpy, memmove and memset leave each destination byte equal to the original source byte or the fill byte, and change no byte outside the destination range. They read only the bytes of the source range, apart from whole aligned words that contain at least one byte of it, and return the destination pointer.",
  ["inputs", "configurations"], "all lengths, all relative alignments, all overlaps, all memory contents",
  "Tests use lengths up to a few hundred at a handful of offsets; word-tail and misalignment paths depend on length, alignment and overlap together.",
  [CB+"mem/mod.rs", CB+"mem/impls.rs", CB+"mem/x86_64.rs"], [("alignment prologue, word loop, byte tail", CB+"mem/impls.rs"), ("forward or backward choice on overlap", CB+"mem/mod.rs")],
  ["memcpy", "memmove", "memset"])
p("C15", "Memory comparison and string length return the first difference and first NUL",
  "For every pair of buffers and every length, memcmp returns the sign of the unsigned difference at the first differing byte, or zero if there is none, and bcmp is zero exactly for equal buffers. strlen returns the index of the first NUL byte.",
  ["inputs", "configurations"], "all buffer contents and lengths",
  "The position of the first difference and the length together select chunked paths; tests cover a few short sizes.",
  [CB+"mem/mod.rs", CB+"mem/impls.rs", CB+"mem/x86_64.rs"], [("chunked comparison", CB+"mem/x86_64.rs"), ("byte loop", CB+"mem/impls.rs")],
  ["memcmp", "bcmp", "strlen"])
p("C16", "Rounding functions return the exact integral value and keep sign and status",
  "For every float of every format ceil, floor, trunc, round, roundeven and rint return exactly the integral value their direction prescribes, with the sign of the input kept on zero results and with infinities unchanged and NaN giving NaN. Variants that report status raise the inexact flag exactly when the result differs from the input.",
  ["inputs", "configurations"], "all floats of f16, f32, f64 and f128; portable implementations",
  "Only f16 and f32 can be enumerated; f64 and f128 inputs are sampled.",
  [LM+"generic/ceil.rs", LM+"generic/floor.rs", LM+"generic/trunc.rs", LM+"generic/round.rs", LM+"generic/rint.rs", LM+"roundeven.rs", LM+"rint.rs"],
  [("fraction mask by exponent", LM+"generic/trunc.rs"), ("add-and-subtract of 2^p", LM+"generic/rint.rs")],
  ["ceil", "floor", "trunc", "round", "roundeven", "rint (f16/f32/f64/f128)"])
p("C17", "Min/max, positive difference, copysign and fabs follow their IEEE rules",
  "For every operand pair of every format the min/max families return one of the operands (or a NaN) as IEEE 754-2008/2019 prescribes for ordering, NaN handling and, where specified, signed zeros. The positive difference is x-y rounded or +0, copysign and fabs change only the sign bit.",
  ["inputs"], "all operand pairs of f16, f32, f64 and f128",
  "NaN, signed-zero and ordering combinations over 2^64..2^256 pairs.",
  [LM+"fmin_fmax.rs", LM+"fminimum_fmaximum.rs", LM+"fminimum_fmaximum_num.rs", LM+"generic/fmin.rs", LM+"generic/fmax.rs", LM+"generic/fminimum.rs", LM+"generic/fmaximum.rs", LM+"generic/fminimum_num.rs", LM+"generic/fmaximum_num.rs", LM+"generic/fdim.rs", LM+"generic/copysign.rs", LM+"generic/fabs.rs"],
  [("ordered selection with sign tie-break", LM+"generic/fminimum.rs")],
  ["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "fdim", "copysign", "fabs"])
p("C18", "Exponent and neighbour functions are exact, and scaling rounds once",
  "For every input frexp, ilogb, modf and nextafter return the exact fraction/exponent, exponent, integer and fractional parts and adjacent representable value. scalbn and ldexp return x*2^n correctly rounded (ties to even) for every float x and every int n, including subnormal results, overflow and underflow.",
  ["inputs"], "all floats and all integer scale amounts",
  "Scaling into the subnormal range rounds twice for particular exponents and bits if done in naive steps; the space is 2^96 and more.",
  [LM+"generic/frexp.rs", LM+"generic/ilogb.rs", LM+"generic/scalbn.rs", LM+"ldexp.rs", LM+"scalbn.rs", LM+"frexp.rs", LM+"ilogb.rs", LM+"modf.rs", LM+"modff.rs", LM+"nextafter.rs", LM+"nextafterf.rs"],
  [("multi-step scaling", LM+"generic/scalbn.rs"), ("subnormal normalisation", LM+"generic/frexp.rs")],
  ["frexp", "ilogb", "modf", "nextafter", "scalbn", "ldexp"])
p("C19", "Square root is correctly rounded in every format",
  "For every non-negative f16/f32/f64/f128 input the square root function returns the value nearest to the real square root (round to nearest even); zeros keep their sign, +infinity is unchanged, and negative inputs and NaN give NaN.",
  ["inputs"], "all floats of f16, f32, f64 and f128; portable implementation",
  "Near-ties of the square root are rare; f64 and f128 cannot be enumerated.",
  [LM+"generic/sqrt.rs", LM+"sqrt.rs"], [("table seed and reciprocal-root iteration", LM+"generic/sqrt.rs"), ("final residual correction", LM+"generic/sqrt.rs")],
  ["sqrtf16", "sqrtf", "sqrt", "sqrtf128"])
p("C20", "Fused multiply-add rounds once",
  "For every triple of operands fma returns x*y+z rounded once to nearest even, including subnormal and overflowing results, signed zeros and infinities. The result is a NaN exactly when IEEE 754 prescribes an invalid operation or an operand is a NaN.",
  ["inputs"], "all operand triples of f16, f32, f64 and f128; portable implementation",
  "Single rounding differs from double rounding only when 53+ trailing bits line up; random triples essentially never do.",
  [LM+"generic/fma.rs", LM+"generic/fma_wide.rs", LM+"fma.rs", LM+"fmaf16.rs"], [("double-width product and aligned addition", LM+"generic/fma.rs"), ("wider-format evaluation with halfway fix", LM+"generic/fma_wide.rs")],
  ["fmaf16", "fmaf", "fma", "fmaf128"])
p("C21", "fmod, remainder and remquo are exact",
  "For every finite x and nonzero y fmod returns exactly x - trunc(x/y)*y with the sign of x, and remainder returns exactly x - n*y with n the integer nearest x/y, ties to even. remquo returns that remainder together with the low bits and sign of n; zero divisors, infinities and NaN give the prescribed special results.",
  ["inputs"], "all operand pairs of f16, f32, f64 and f128, any exponent gap",
  "The number of reduction steps depends on the exponent difference (up to tens of thousands of bits); tests sample few gaps.",
  [LM+"generic/fmod.rs", LM+"fmod.rs", LM+"remainder.rs", LM+"remainderf.rs", LM+"remquo.rs", LM+"remquof.rs", LM+"support/modular.rs", LM+"support/int_traits/narrowing_div.rs"],
  [("long-division reduction", LM+"generic/fmod.rs"), ("modular exponentiation shortcut", LM+"support/modular.rs")],
  ["fmod", "remainder", "remquo (f16/f32/f64/f128)"])
p("C22", "Hex-float parsing is total and correctly rounded; formatting round-trips",
  "Parsing a hexadecimal float literal never panics: it returns an error or the literal's value rounded in the requested mode with the matching status. Formatting a float that is not a NaN as hexadecimal and parsing it back gives the same float.",
  ["inputs"], "all texts of less than 2^28 bytes in the four standard formats and four rounding modes; all floats of each format",
  "Unbounded strings: exponent overflow, long mantissas and sticky digits combine.",
  [LM+"support/hex_float.rs"], [("digit accumulation with sticky bit", LM+"support/hex_float.rs"), ("rounding to target precision", LM+"support/hex_float.rs")],
  ["hf32", "hf64", "parse_hex_exact", "Hexf"])
p("C23", "Elementary functions are total, panic free and keep exact symmetries",
  "Every elementary function of the math library returns for every input bit pattern without panicking, indexing out of bounds or looping forever, and a NaN argument gives a NaN except where the C standard says otherwise. Odd and even functions satisfy f(-x) = -f(x) or f(-x) = f(x) exactly, the sign of a zero result at an infinite argument of the Bessel function j1 excepted.",
  ["inputs"], "all float inputs of every one- and two-argument elementary function but the Bessel functions of integer order",
  "Table lookups and argument reduction index by computed integers; tests sample inputs and judge accuracy only.",
  [LM+"mod.rs", LM+"rem_pio2.rs", LM+"rem_pio2_large.rs", LM+"exp2.rs", LM+"pow.rs", LM+"jn.rs"], [("table lookups by computed index", LM+"exp2.rs"), ("argument reduction", LM+"rem_pio2_large.rs")],
  ["every public function of libm"])
p("C24", "powi multiplies by repeated squaring over the exact exponent",
  "For every base and every 32-bit exponent, the integer power helper returns the product chain of the binary expansion of |n| in the arithmetic of its format, inverted once at the end when n is negative. In particular x^0 is 1, x^1 is x and the loop terminates for the minimum exponent.",
  ["inputs"], "all bases and all i32 exponents", "Tests use small exponents and tolerances; the minimum exponent and large exponents give a different bit path.",
  [CB+"float/pow.rs"], [("square-and-multiply loop", CB+"float/pow.rs")], ["__powisf2", "__powidf2", "__powitf2"])
p("C25", "Arithmetic helpers never panic, overflow internally or touch foreign memory",
  "For every input allowed by their interface, the integer and float helper routines return normally: no arithmetic overflow trap, no out-of-range shift, no failed assertion, no out-of-bounds access and no infinite loop. They write only through the result pointers they are given.",
  ["inputs"], "all inputs of all integer and float helper entry points, with overflow and debug checks compiled in",
  "Release builds compile the checks out and debug tests only sample inputs; a trap inside a compiler helper has no handler.",
  [CB+"int", CB+"float", LM+"support"], [("overflow-checked arithmetic", CB+"macros.rs")], ["every intrinsic exported on the host target"])
p("C26", "256-bit helper integers and narrowing division are exact",
  "The 256-bit unsigned and signed helper integers perform comparison, addition, subtraction, shifts and widening multiplication exactly modulo 2^256, and high-half extraction is exact. Narrowing division returns the exact quotient and remainder of a double-width dividend whose quotient fits.",
  ["inputs"], "all operand values", "256-bit operands cannot be enumerated and the users (f128 multiply, fma, sqrt, fmod) only reach parts of the space.",
  [LM+"support/big.rs", LM+"support/int_traits.rs", LM+"support/int_traits/narrowing_div.rs", LM+"support/modular.rs"],
  [("limb carries", LM+"support/big.rs"), ("two-digit division step", LM+"support/int_traits/narrowing_div.rs")], ["u256", "i256", "narrowing division"])
p("C27", "Elementary functions stay within their documented error bounds",
  "For every input each elementary function returns a result within the library's stated number of units in the last place of the exact real result.",
  ["inputs"], "all inputs of each elementary function and format",
  "Only 32-bit and smaller one-argument functions can be enumerated; the others are sampled against a reference.",
  [LM+"mod.rs"], [("polynomial approximations and argument reduction", LM)], ["every elementary function of libm"])
p("C28", "Run-time CPU dispatch stays valid under any schedule",
  "Whatever the interleaving of first calls from several threads, each call of a run-time dispatched function executes an implementation the CPU supports, and the cached selection never becomes invalid. Repeated calls return the same results as the portable implementation.",
  ["schedules", "inputs"], "all interleavings of concurrent first uses; all CPU feature sets",
  "Tests run one schedule on one CPU.",
  [LM+"support/feature_detect.rs", LM+"arch/x86/detect.rs", LM+"arch/x86/fma.rs"], [("cached function pointer and feature flags with relaxed atomics", LM+"support/feature_detect.rs")], ["fma on x86"],
  state=[dict(name="feature cache", meaning="zero or the detected flags with the initialised bit", where=LM+"support/feature_detect.rs"), dict(name="selected function", meaning="initialiser or one valid implementation", where=LM+"support/feature_detect.rs")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
