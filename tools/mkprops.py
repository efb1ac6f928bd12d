#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CB = "compiler-builtins/src/"
LM = "libm/src/math/"

prop("C01", "Integer division and remainder are exact at every width",
 "For every dividend and every non-zero divisor, the 32-, 64- and 128-bit division intrinsics (signed and unsigned, quotient, remainder and combined forms; all overflow cases as two's-complement wrap) return q and r with n = q*d + r, |r| < |d|, r taking the sign of n, and the combined forms store the remainder through the pointer when it is given and only then. The same holds for each generic division algorithm the crate provides, whichever of them the target selects and for every integer width it is instantiated at.",
 ["inputs", "configurations"],
 "all pairs (n, d != 0) of u32/i32/u64/i64/u128/i128, all division algorithms (asymmetric, trifecta, delegate, binary long, sparc), with and without the `arch` feature",
 "2^256 operand pairs; the existing fuzz test draws random pairs and only exercises the algorithm the x86-64 host selects, so quotient-correction branches that need a particular bit pattern are reached by luck or not at all.",
 [CB+"int/udiv.rs", CB+"int/sdiv.rs", CB+"int/specialized_div_rem/"],
 [("impl_trifecta / impl_delegate / impl_binary_long / impl_asymmetric / impl_normalization_shift", CB+"int/specialized_div_rem"),
  ("sign handling of the signed forms", CB+"int/sdiv.rs")],
 ["compiler_builtins::int::udiv::*", "compiler_builtins::int::sdiv::*", "generic algorithm modules instantiated in a harness crate"])

prop("C02", "Integer add, sub, mul, shift and bit intrinsics match exact arithmetic",
 "For every operand, the 32/64/128-bit add, subtract, multiply and shift intrinsics return the exact mathematical result reduced modulo 2^width, and the overflow-reporting forms report overflow exactly when the exact result is not representable. Leading-zero and trailing-zero counts and byte swaps return the mathematically defined value for every argument, including zero for the counts that define it.",
 ["inputs"],
 "all operand pairs of every provided width and signedness; shift amounts 0..width-1",
 "The operand space is 2^256; the tests sample it and carry/overflow boundaries of the double-word decompositions need specific operand patterns.",
 [CB+"int/addsub.rs", CB+"int/mul.rs", CB+"int/shift.rs", CB+"int/leading_zeros.rs", CB+"int/trailing_zeros.rs", CB+"int/bswap.rs"],
 [("double-word decomposition with carries", CB+"int/mul.rs"), ("funnel shifts", CB+"int/shift.rs"),
  ("branchy / conditional-set clz variants", CB+"int/leading_zeros.rs")],
 ["compiler_builtins::int::*"])

prop("C03", "Soft-float add, sub, mul, div are correctly rounded IEEE 754 operations",
 "For every pair of f16, f32, f64 or f128 operands, the addition, subtraction, multiplication and division intrinsics that exist for that format return the exact mathematical result rounded to nearest, ties to even, including gradual underflow, overflow to infinity and signed zeros. Invalid operations and NaN operands give a NaN, never a number.",
 ["inputs"], "all operand pairs of all four formats for every provided operation",
 "Up to 2^256 operand pairs; wrong sticky/guard handling shows only for specific exponent differences and mantissa tails, which random tests against a host FPU do not aim at, and f128 has no host FPU to compare with.",
 [CB+"float/add.rs", CB+"float/sub.rs", CB+"float/mul.rs", CB+"float/div.rs"],
 [("guard/round/sticky alignment", CB+"float/add.rs"), ("widening product and normalisation", CB+"float/mul.rs"),
  ("Newton-Raphson reciprocal with final residual correction", CB+"float/div.rs")],
 ["compiler_builtins::float::{add,sub,mul,div}"])

prop("C04", "Float comparison intrinsics realise the IEEE ordering",
 "For every pair of operands of f16, f32, f64 and f128, the equal, not-equal, less, less-or-equal, greater, greater-or-equal and unordered intrinsics return a value whose sign or zero test is true exactly when the IEEE relation holds. -0 equals +0, and any NaN operand makes every ordered relation false and only not-equal and unordered true.",
 ["inputs"], "all operand pairs of all formats and all comparison intrinsics",
 "2^256 pairs; tests sample few NaN/zero/negative combinations per width.",
 [CB+"float/cmp.rs"], [("sign-magnitude integer comparison", CB+"float/cmp.rs")], ["compiler_builtins::float::cmp"])

prop("C05", "Float-to-float conversions widen exactly and narrow with one correct rounding",
 "Every extension intrinsic returns exactly the same value in the wider format and every truncation intrinsic returns the operand rounded once to nearest-even in the narrower format, including results that are subnormal, underflow to a signed zero or overflow to a signed infinity. NaN stays NaN with its sign and infinities and signed zeros are preserved.",
 ["inputs"], "all values of the source format for f16<->f32<->f64<->f128",
 "f64 and f128 sources cannot be enumerated; ties and subnormal-boundary cases form a vanishing fraction of random inputs.",
 [CB+"float/extend.rs", CB+"float/trunc.rs", "libm/src/math/generic/"], [("round bits / sticky computation", CB+"float/trunc.rs")],
 ["compiler_builtins::float::{extend,trunc}"])

prop("C06", "Integer/float conversions round and saturate correctly",
 "Every integer-to-float intrinsic returns the integer rounded to nearest-even in the destination format. Every float-to-integer intrinsic returns the operand truncated toward zero when that is representable, saturates at the integer type's bounds otherwise (0 for negative operands of unsigned targets), and returns 0 for NaN.",
 ["inputs"], "all 32/64/128-bit signed and unsigned integers; all f32/f64/f128 values",
 "128-bit integers and f128 values cannot be enumerated; double rounding needs tails just above or below a tie.",
 [CB+"float/conv.rs"], [("shift + adjusted-bits rounding trick", CB+"float/conv.rs")], ["compiler_builtins::float::conv"])

prop("C07", "memcpy/memmove/memset/memcmp/bcmp/strlen have exact byte effects",
 "For every length, alignment and placement (including every overlap for memmove), the destination ends up byte-for-byte as the C definition says, no byte outside the destination range is written, no byte outside the addressed ranges' own memory pages is needed, and the destination pointer is returned. memcmp's sign is that of the first differing byte compared as unsigned, bcmp is non-zero exactly on difference, and strlen returns the index of the first NUL byte.",
 ["inputs", "histories", "configurations"], "all lengths, source/destination alignments, overlap distances and contents, both for the x86-64 assembly and the portable word-copy implementations, over sequences of operations",
 "Alignment x length x overlap x content is unbounded; the tests use a few sizes and never place buffers against an unmapped page, so over-reads and stray writes stay invisible.",
 [CB+"mem/mod.rs", CB+"mem/impls.rs", CB+"mem/x86_64.rs"],
 [("word-wise and misaligned copy loops", CB+"mem/impls.rs"), ("rep movsb/movsq/stosq paths", CB+"mem/x86_64.rs"), ("direction choice in memmove", CB+"mem/mod.rs")],
 ["compiler_builtins::mem::*"], None, [("memory", "byte contents of the arena", "harness arena between guard pages")])

prop("C08", "Rounding functions return the right integral value",
 "For every f16, f32, f64 and f128 input, ceil, floor, trunc, round, roundeven and rint return the integral value defined by their rounding direction (up, down, toward zero, half away, half to even, half to even), keeping the sign of the input when the result is zero. Infinities and already-integral values are returned unchanged and NaN gives NaN.",
 ["inputs", "configurations"], "all inputs of all formats, for assembly/intrinsic and generic implementations and for both crates exporting them",
 "f64/f128 inputs cannot be enumerated; half-way and near-half cases at every exponent are a vanishing fraction.",
 [LM+"ceil.rs", LM+"floor.rs", LM+"trunc.rs", LM+"round.rs", LM+"roundeven.rs", LM+"rint.rs", LM+"generic/", LM+"arch/"],
 [("mask-based generic rounding", LM+"generic")], ["libm public functions", "compiler_builtins::math"])

prop("C09", "fma is the exact product-sum rounded once",
 "For every x, y, z of f16, f32, f64 and f128, fma returns x*y+z computed exactly and rounded once to nearest-even, including subnormal results, cancellation to a correctly signed zero, overflow, and tiny addends that only break a tie. Invalid combinations (0*inf, inf-inf) and NaN operands give NaN.",
 ["inputs", "configurations"], "all operand triples in all four formats, hardware-assisted and soft implementations",
 "2^48 to 2^384 triples; double rounding needs a tie created by the product and broken by a bit far below it.",
 [LM+"fma.rs", LM+"fmaf16.rs", LM+"generic/fma.rs", LM+"generic/fma_wide.rs", LM+"arch/"],
 [("double-width product with sticky bit", LM+"generic/fma.rs"), ("round-to-odd fix-up in the wider type", LM+"generic/fma_wide.rs")],
 ["libm::fma*", "libm::generic::fma*"])

prop("C10", "sqrt, cbrt and hypot are correctly rounded",
 "sqrt in f16, f32, f64 and f128, cbrt in f32 and f64, and hypot in f64 return the exact real result rounded to nearest-even for every input, hypotf is within 1 ULP, and none of them overflows or underflows unless the exact result does. Negative sqrt operands give NaN, sqrt(-0) and cbrt(-0) are -0, and hypot with an infinite operand is +infinity even when the other operand is NaN.",
 ["inputs", "configurations"], "all inputs of each format; generic, assembly and relaxed implementations where the same promise holds",
 "The hard-to-round arguments are isolated points in 2^64..2^128 inputs that sampling does not reach.",
 [LM+"sqrt.rs", LM+"generic/sqrt.rs", LM+"cbrt.rs", LM+"cbrtf.rs", LM+"hypot.rs", LM+"hypotf.rs", LM+"arch/"],
 [("Goldschmidt iteration with exact residual fix", LM+"generic/sqrt.rs"), ("CORE-MATH accurate path", LM+"cbrt.rs")],
 ["libm::sqrt*", "libm::cbrt*", "libm::hypot*"])

prop("C11", "fmod, remainder and remquo are exact",
 "For every finite x and non-zero y, fmod returns exactly x - n*y with n the truncated quotient, and remainder and remquo return exactly x - n*y with n the quotient rounded to nearest-even, with the sign of x on zero results. remquo additionally returns the sign and the low 31 bits of that same n; x infinite, y zero or NaN operands give NaN.",
 ["inputs"], "all operand pairs of f16, f32, f64, f128 (fmod) and f32, f64 (remainder, remquo), with any exponent difference",
 "Exponent differences up to 32k bits and subnormal operands give far more paths than sampled tests visit.",
 [LM+"fmod.rs", LM+"generic/fmod.rs", LM+"remainder.rs", LM+"remquo.rs", LM+"remquof.rs", LM+"support/modular.rs"],
 [("bitwise long division / modular reduction", LM+"generic/fmod.rs")], ["libm::fmod*", "libm::remainder*", "libm::remquo*"])

prop("C12", "Scaling, decomposition and neighbour functions are exact",
 "scalbn and ldexp return x*2^n rounded once to nearest-even for every x and every 32-bit n; frexp returns a fraction in [0.5,1) and exponent that recompose to x exactly; modf splits x into exact integral and fractional parts carrying x's sign; ilogb returns floor(log2|x|); nextafter returns the adjacent representable value in the direction of y. Zeros, infinities and NaN follow the C definitions.",
 ["inputs"], "all x of each provided format, all 32-bit exponents n, all y",
 "2^160 (x, n) pairs; double rounding into subnormals needs specific mantissas and shifts.",
 [LM+"scalbn.rs", LM+"generic/scalbn.rs", LM+"ldexp.rs", LM+"frexp.rs", LM+"generic/frexp.rs", LM+"ilogb.rs", LM+"modf.rs", LM+"modff.rs", LM+"nextafter.rs", LM+"nextafterf.rs"],
 [("staged multiplication avoiding double rounding", LM+"generic/scalbn.rs")], ["libm public functions"])

prop("C13", "min/max families, fdim, copysign and fabs follow their definitions",
 "For every operand pair in all formats, fmin/fmax and fminimum_num/fmaximum_num return the smaller/larger operand and ignore a single NaN, fminimum/fmaximum return NaN when any operand is NaN, and the fminimum/fmaximum families order -0 below +0. fdim returns max(x-y, 0) with one rounding, and fabs and copysign change only the sign bit.",
 ["inputs", "configurations"], "all operand pairs of f16, f32, f64, f128",
 "All special/ordinary combinations in all formats and both operand orders exceed the sampled test cases.",
 [LM+"fmin_fmax.rs", LM+"fminimum_fmaximum.rs", LM+"fminimum_fmaximum_num.rs", LM+"fdim.rs", LM+"copysign.rs", LM+"fabs.rs", LM+"generic/"],
 [("comparison ladders", LM+"generic")], ["libm public functions", "compiler_builtins::math"])

prop("C14", "Exponential, logarithm and power functions stay within their ULP bounds",
 "For every input, exp, exp2, expm1, log, log2, log10, log1p and pow in f32 and f64 return a value within 1 ULP of the correctly rounded real result, and exp10 within 6 ULP. Overflow, underflow and domain limits occur exactly where the real result requires them (up to that tolerance), never earlier or later.",
 ["inputs"], "all f32 and f64 inputs (pairs for pow)",
 "The tests compare a few thousand sampled and edge points per function with MPFR; an error confined to one table entry, one reduction interval or one threshold branch occupies a vanishing fraction of the 2^32..2^128 inputs.",
 [LM+"exp.rs", LM+"exp2.rs", LM+"exp10.rs", LM+"expm1.rs", LM+"log.rs", LM+"log2.rs", LM+"log10.rs", LM+"log1p.rs", LM+"pow.rs", LM+"expf.rs", LM+"exp2f.rs", LM+"exp10f.rs", LM+"expm1f.rs", LM+"logf.rs", LM+"log2f.rs", LM+"log10f.rs", LM+"log1pf.rs", LM+"powf.rs"],
 [("argument reduction + polynomial/table", LM)], ["libm public functions"])

prop("C15", "Trigonometric and hyperbolic functions stay within their ULP bounds",
 "For every finite f32 and f64 input, however large, sin, cos, tan, sincos, asin, acos, atan and cosh are within 1 ULP of the correctly rounded real result, atan2, sinh, tanh, asinh and atanh within 2 ULP, and acosh within 4 ULP. sincos returns the same accuracy in both components as sin and cos.",
 ["inputs"], "all f32 and f64 inputs including arguments up to the largest finite value and neighbours of multiples of pi/2",
 "Argument reduction of huge values and near multiples of pi/2 goes wrong only for specific inputs; the tests sample a few thousand points per function.",
 [LM+"sin.rs", LM+"cos.rs", LM+"tan.rs", LM+"sincos.rs", LM+"rem_pio2.rs", LM+"rem_pio2_large.rs", LM+"rem_pio2f.rs", LM+"k_sin.rs", LM+"k_cos.rs", LM+"k_tan.rs", LM+"asin.rs", LM+"acos.rs", LM+"atan.rs", LM+"atan2.rs", LM+"sinh.rs", LM+"cosh.rs", LM+"tanh.rs", LM+"asinh.rs", LM+"acosh.rs", LM+"atanh.rs"],
 [("Cody-Waite and Payne-Hanek reduction", LM+"rem_pio2.rs, rem_pio2_large.rs"), ("kernel polynomials", LM+"k_sin.rs k_cos.rs k_tan.rs")], ["libm public functions"])

prop("C16", "Error, gamma and Bessel functions stay within their stated accuracy",
 "For every input outside the documented ill-conditioned regions, erf is within 1 ULP and erfc within 4 ULP, tgammaf within 1 ULP, tgamma within 20 ULP, and lgamma/lgamma_r within 4 ULP with the sign of gamma reported correctly. For |x| < 2^100 the Bessel functions j0, j1, y0, y1 agree with the real function to within 2^-20 (f32) or 2^-49 (f64) of the larger of the value and the oscillation amplitude sqrt(2/(pi x)), and jn, yn of order |n| <= 60 to within 2^-17 or 2^-45, with the sign that order and argument demand.",
 ["inputs"], "all f32 and f64 inputs, integer orders of jn/yn",
 "These are piecewise approximations with many intervals and coefficient tables; the tests sample them, skip wide regions and allow the Bessel functions millions of ULP.",
 [LM+"erf.rs", LM+"erff.rs", LM+"tgamma.rs", LM+"tgammaf.rs", LM+"lgamma_r.rs", LM+"lgammaf_r.rs", LM+"j0.rs", LM+"j1.rs", LM+"jn.rs", LM+"j0f.rs", LM+"j1f.rs", LM+"jnf.rs"],
 [("piecewise rational approximations", LM)], ["libm public functions"])

prop("C17", "Special values, symmetries and exact cases of the math functions",
 "At zeros, infinities, NaN, poles and domain boundaries every libm function returns the value C Annex F prescribes (for example log(0) = -inf, pow(x, 0) = 1, exp2 of an integer exact, NaN in gives NaN out). Odd and even functions satisfy f(-x) = -f(x) or f(-x) = f(x) bit for bit for every x (only the sign of a zero returned by a Bessel function at infinity is left open).",
 ["inputs"], "all inputs of all functions: the special-value lattice completely, the symmetry laws over the whole domain",
 "The symmetry laws quantify over all inputs, and the lattice of special cases of two-argument functions (pow, atan2, hypot) is only sampled.",
 [LM], [("explicit special-case branches", LM)], ["libm public functions"])

prop("C18", "Every public function is total: no panic, trap, hang or bad access",
 "For every argument, including NaN payloads, infinities, subnormals and extreme integers, every public libm function and every compiler intrinsic (except division by a zero integer) returns normally in bounded time, without panic, arithmetic-overflow trap, out-of-range table access or undefined behaviour, with debug assertions and overflow checks enabled. The result depends on the arguments alone: repeated and concurrent calls return the same bits.",
 ["inputs", "schedules"], "all arguments of all public functions; any interleaving of calls from several threads",
 "Totality quantifies over the whole input space; release builds index tables unchecked so a rare bad index is silent there.",
 [LM, CB+"int", CB+"float"], [("bounded loops, unchecked table indexing behind i!", LM+"mod.rs")], ["libm and compiler_builtins public functions"])

prop("C19", "ARM kernel-helper atomics are linearizable and touch only their bytes",
 "Under any interleaving with other threads and any spurious failure of the kernel compare-exchange, each 1-, 2- and 4-byte legacy ARM sync operation behaves as one atomic step on its operand: it returns the old (or new) value and stores exactly the operation's result computed at the operand's own width and signedness. Neighbouring bytes of the same word always keep whatever other threads last stored there, and a failed compare-and-swap stores nothing. A completed operation is a full memory barrier, and the barrier function issues one; the Thumb-1 ARMv6K variant, built on exclusive loads and stores, behaves the same.",
 ["schedules", "histories", "inputs"], "all interleavings with concurrent updates of the same word, all byte offsets, sizes, operations and values",
 "No test in the suite runs this code on the host at all; the races need an interfering update between load and compare-exchange.",
 [CB+"sync/arm_linux.rs", CB+"sync/thumbv6k.rs", CB+"sync/arm_thumb_shared.rs"], [("aligned-word compare-exchange loop with shift/mask", CB+"sync/arm_linux.rs")],
 ["the sync operations driven with a scripted kernel helper"], None)

prop("C20", "AArch64 outline atomics implement the named operation and ordering",
 "For every operand size, memory ordering and operation, both the LSE and the load/store-exclusive path of each outline atomic performs exactly the named read-modify-write atomically, returns the previous value zero-extended, compares only the operand's own width, and retries on a failed exclusive store. The instructions used carry at least the acquire and release semantics the function's name promises.",
 ["schedules", "inputs", "configurations"], "all interleavings of other cores' writes between instructions, all operand values, LSE present or absent, all sizes and orderings",
 "The code is AArch64 assembly that no test on this host executes, and failures need interference between an exclusive load and store.",
 [CB+"aarch64_outline_atomics.rs"], [("LL/SC loops and LSE instructions chosen by macro", CB+"aarch64_outline_atomics.rs")],
 ["the generated AArch64 instruction sequences"], None)

prop("C21", "Stack probing touches every page of the requested frame",
 "For every requested frame size, the stack-probe routine (__rust_probestack; ___chkstk_ms, __chkstk and _alloca on Windows-like targets) touches at least one word in every 4 KiB page between the caller's stack pointer and the new frame end, in descending order without skipping a page, so that a guard page anywhere in the frame is hit before anything beyond it. It touches nothing outside that region (but for its own few saved words), and returns with the stack pointer and all registers (apart from flags and scratch) as its contract requires.",
 ["inputs"], "all frame sizes from 0 up to many pages, all stack pointer offsets within a page",
 "The only observable effect is which pages are touched, which no test observes.",
 [CB+"probestack.rs", CB+"x86_64.rs", CB+"x86.rs"], [("probe loop in steps of one page", CB+"probestack.rs")], ["the probe routine executed on a private stack"])

prop("C22", "powi raises to an integer power like repeated multiplication",
 "For every x and every 32-bit exponent n (including the most negative one), powi in f32, f64 and f128 terminates and returns a result whose relative error is bounded by a small multiple of the number of multiplications, with the sign of x kept for odd n, powi(x,0)=1, and reciprocal results for negative n. Zeros, infinities and NaN behave as under repeated multiplication.",
 ["inputs"], "all (x, n)", "2^96..2^160 pairs; only random moderate values are tested.",
 [CB+"float/pow.rs"], [("square and multiply on |n|", CB+"float/pow.rs")], ["compiler_builtins::float::pow"])

prop("C23", "Hexadecimal float parsing and printing are exact",
 "Parsing a hexadecimal float literal returns the exactly rounded value under the requested rounding mode together with the correct status, for every digit string and exponent and every supported format, and rejects malformed text with an error rather than a panic. Printing a value and parsing the text back gives the identical value.",
 ["inputs"], "all literal strings, all rounding modes, all values of f16, f32, f64, f128",
 "The language of literals is infinite; rounding at subnormal and overflow boundaries, long digit strings and huge exponents are only spot-checked.",
 [LM+"support/hex_float.rs"], [("digit accumulation with sticky bit and rounding", LM+"support/hex_float.rs")], ["libm::support::hex_float"])

prop("C24", "Wide-integer and modular helpers compute exact arithmetic",
 "The 256-bit signed and unsigned integers (add, sub, widening multiply, shifts, comparisons, conversions), the widening and narrowing operations (wide product, high/low halves, narrowing division), and the modular reduction helper return exactly the mathematical result for every input in their domain.",
 ["inputs"], "all 256-bit operands, all shift amounts, all narrowing-division operands, all reduction triples",
 "2^512 operand pairs; carries across the 128-bit limbs need specific patterns.",
 [LM+"support/big.rs", LM+"support/int_traits.rs", LM+"support/int_traits/narrowing_div.rs", LM+"support/modular.rs"],
 [("limb arithmetic", LM+"support/big.rs"), ("Barrett-style reducer", LM+"support/modular.rs")], ["libm::support"])

prop("C25", "All routes to a function return the same bits",
 "For every input, the different ways of reaching an operation agree bit for bit (any NaN counting as equal): with or without architecture-specific code, with or without compiler intrinsics, through the trait-dispatch helper, through the generic implementation, through the symbols exported by compiler-builtins, and in the shipped build without run-time checks. A function with two results delivers what the functions for each result deliver (sincos: sin and cos; lgamma_r and lgamma; remquo and remainder), and synonyms agree (ldexp and scalbn, rint and roundeven).",
 ["inputs", "configurations"], "all inputs; feature configurations arch / generic / intrinsics; all exported aliases",
 "The configurations are tested separately against approximations; their pointwise equality over all inputs, and argument order and signature of each alias, is not.",
 ["libm/src/libm_helper.rs", LM+"arch/", CB+"math/mod.rs", LM+"mod.rs"],
 [("cfg-selected arch implementations", LM+"arch"), ("dispatch table", "libm/src/libm_helper.rs")], ["libm::Libm<T>", "compiler_builtins::math", "libm::generic"])

prop("C26", "Status flags returned by the software float core are true",
 "For every f16, f32, f64 and f128 input, the status-reporting ceil, floor, trunc and rint report inexact exactly when the operand is a number that is not already integral, and no other flag. sqrt reports invalid for every number below zero and for no other number; fma reports underflow, overflow, invalid or inexact only where IEEE 754 raises them. The value delivered together with a status is the correctly rounded one.",
 ["inputs"], "all inputs of all four formats",
 "Flags have no counterpart on the host that the tests could compare with; they are asserted for a few listed inputs only.",
 [LM+"support/env.rs", LM+"generic/ceil.rs", LM+"generic/floor.rs", LM+"generic/trunc.rs", LM+"generic/rint.rs", LM+"generic/sqrt.rs", LM+"generic/fma.rs", LM+"generic/fma_wide.rs"],
 [("FpResult/Status plumbing", LM+"support/env.rs"), ("exactness tests of each function", LM+"generic/")],
 ["libm::generic::{ceil,floor,trunc,rint}_status", "libm::generic::{sqrt,fma,fma_wide}_round"])

prop("C27", "Run-time CPU feature detection is sound and stable",
 "For every processor and operating-system configuration, detection reports an x86 feature only if the processor has it and the operating system saves the register state it needs, so a function chosen by it never executes an instruction that is unavailable. FMA and FMA4 are recognised where they are usable. Under any interleaving of first calls from several threads, the cached result and the chosen function pointer are never a half-initialised value, every call computes with a valid implementation, and detection is not repeated once a thread has seen its result.",
 ["configurations", "schedules", "histories"], "all cpuid/xgetbv results, all interleavings of concurrent first calls",
 "The host has one processor configuration, and the caches are initialised once per process: tests see one configuration and no race.",
 [LM+"arch/x86/detect.rs", LM+"arch/x86/fma.rs", LM+"support/feature_detect.rs"],
 [("cpuid and xgetbv decoding", LM+"arch/x86/detect.rs"), ("relaxed atomics cache and function pointer selection", LM+"support/feature_detect.rs")],
 ["detection and selection code run on simulated processors under a scheduler"])

prop("C28", "Functions of the ARM run-time ABI compute what their names say",
 "On 32-bit ARM every __aeabi_ function computes the operation its name stands for: arithmetic, conversions and shifts equal the generic function of that operation and width; comparison helpers (__aeabi_fcmplt and so on) return 1 or 0, and 0 for NaN operands except the unordered ones; __aeabi_memcpy, memmove, memset (arguments: destination, size, value) and memclr and their 4- and 8-byte-aligned forms change exactly the named bytes for every size and alignment they allow; __aeabi_idivmod, uidivmod, ldivmod and uldivmod deliver the quotient and the remainder in the registers the ABI prescribes, in ARM and Thumb code, preserve the callee-saved registers and the stack, and call with an aligned stack. The functions configured differently on ARM satisfy the same properties as on other targets.",
 ["inputs", "histories", "configurations"], "all operands, all memory states, sizes and permitted alignments, ARM and Thumb encodings",
 "The functions exist on ARM only and have no tests of their own; calling them by name on the host is impossible, the ones in assembly above all.",
 [CB+"arm.rs", CB+"macros.rs", CB+"float/cmp.rs", CB+"int/specialized_div_rem/mod.rs", CB+"int/shift.rs", CB+"float/conv.rs"],
 [("naked division trampolines", CB+"arm.rs"), ("word loops of the memory functions", CB+"arm.rs"), ("aeabi aliases", CB+"macros.rs")],
 ["symbols of the library configured for ARM, compiled for the host", "machine words of the trampolines"])

prop("C29", "Math functions with target-specific code compute the same functions",
 "Where a target has its own code for a math function - AArch64 (fma, rint, sqrt), LoongArch (fma, rint, sqrt), WebAssembly (ceil, floor, trunc, rint, sqrt, fabs), x86 without SSE2 (ceil, floor, rint, exp, exp2, exp10 on the x87 unit) - that code satisfies the property of the function: the exactly rounded or exact result for the former, the error bound and special values for the exponentials, for every argument. The x87 code leaves the unit's control word and register stack as it found them.",
 ["inputs", "configurations"], "all arguments in each target configuration",
 "Each of the variants is compiled on its own target only; a wrong rounding mode, operand order or an unbalanced x87 stack passes every test run elsewhere.",
 ["libm/src/math/arch/aarch64/", "libm/src/math/arch/loongarch/", "libm/src/math/arch/wasm32/", "libm/src/math/arch/i586/", "libm/src/math/arch/mod.rs"],
 [("machine instructions of AArch64 and LoongArch", "libm/src/math/arch/aarch64/fma.rs"), ("x87 exponentials", "libm/src/math/arch/i586/exp_all.rs"), ("x87 rounding", "libm/src/math/arch/i586/rounding.rs")],
 ["machine words of the functions", "library configured for the target, compiled for the host", "x87 state after the call"])

prop("C30", "Code configured for other targets computes the same functions",
 "The variants of integer division, multiplication, leading-zero count, float comparison, conversion and arithmetic symbols that are configured on AVR, PowerPC, SPARC, RISC-V, x86 (32-bit), UEFI, WebAssembly and AArch64 return what the operation of their name is specified to return: comparisons in the result type of the target, AVR division with both results packed or in the registers avr-gcc expects and no other register changed, PowerPC's names for binary128 functions, split 128-bit arguments on UEFI. Argument reduction with the digit table for narrow pointers gives trigonometric functions of the same accuracy.",
 ["inputs", "configurations"], "all operands in each target configuration",
 "The code does not exist in the configuration the tests run in: only its own target compiles it.",
 [CB+"int/udiv.rs", CB+"int/sdiv.rs", CB+"int/mul.rs", CB+"int/leading_zeros.rs", CB+"int/specialized_div_rem/", CB+"float/cmp.rs", CB+"float/conv.rs", CB+"macros.rs", LM+"rem_pio2_large.rs"],
 [("AVR division in assembly", CB+"int/udiv.rs"), ("division algorithm chosen per target", CB+"int/specialized_div_rem/mod.rs"), ("result types of comparisons", CB+"float/cmp.rs")],
 ["symbols of the library configured for each target, compiled for the host", "machine words of the AVR routines"])

SC = "crates/symcheck/src/main.rs"
prop("C31", "symcheck accepts exactly the libraries that are safe to link",
 "symcheck --check exits with 0 for a set of object files and archives exactly when each of them satisfies: no global symbol (weak or not) is defined twice in it, other than pc thunks, literal constants, .refptr and weak debugger-script symbols; every referenced symbol of core is defined in it; every object is for the requested target (architecture, endianness, and operating system where the format states it); no ELF object asks for an executable stack, by a program header or a marked or missing .note.GNU-stack (unless --no-os, and with the exceptions for executables, objects without code and the first 64-bit PowerPC ABI); no defined global symbol has default or protected visibility (unless --no-visibility); and there are symbols. Every member of every file counts, in any order. --build-and-check judges in the same way every library and executable of the expected names that cargo reports, and fails when the build fails or produces none.",
 ["inputs", "configurations"], "all archives: members, formats, symbols, sections, headers, archive styles, targets, options",
 "Few archives made by one host compiler are tried; most rules concern other targets or rare combinations, and a checker that accepts too much keeps every test green.",
 [SC], [("one pass per rule over all members", SC), ("target description from rustc's cfg", SC), ("stack rules of ELF", SC)],
 ["exit status of the tool"])

prop("C32", "Float and integer traits do exactly what their methods say",
 "The Float and Int traits all of libm and compiler-builtins is written with are exact for every value of every type: the classification of a float (NaN, quiet or signalling, infinite, subnormal, sign), its fields and constants, composing a float from sign, exponent and significand, bit equality with and without telling NaNs apart, abs, copysign, signum, normalising a subnormal significand, widening, narrowing and the trait's fma; for integers of every width and signedness the checked, wrapping, overflowing and carrying operations, shifts, rotation, bit counts, logarithm, absolute values and differences, and casts between all integer types and to floats. Status flags read back exactly what was set, and setting one leaves the others alone.",
 ["inputs"], "all values of f16, f32, f64, f128 and of all integer types; all sequences of flag changes",
 "The helpers are generic and have unit tests for a few constants of some types only; a slip in one width or in one corner (a carry that overflows twice, a shift count at the width, the signalling bit of one format) shows only in functions that happen to reach it.",
 [LM+"support/float_traits.rs", LM+"support/int_traits.rs", LM+"support/env.rs", LM+"support/mod.rs"],
 [("trait implementations by macro", LM+"support/int_traits.rs"), ("field arithmetic", LM+"support/float_traits.rs"), ("flag register", LM+"support/env.rs")],
 ["libm::support::{Float, Int, MinInt, CastFrom, CastInto, WideFloat, NarrowFloat, Status}"])

LT = "libm-test/src/"
prop("C33", "The test library measures distances, spaces inputs and covers edges correctly",
 "What every accuracy claim of the repository is measured with is itself right for all four float types and all integer types: next_up/next_down and their n-fold forms move exactly that many representable values and saturate at the infinities; a result is accepted exactly if it has the expected sign, finiteness and NaN-ness and lies within the granted ULPs; logspace and linear_ints announce exactly as many items as they produce, evenly spaced, from the start and never beyond the end; the edge cases of a function's argument contain zeros, ones, infinities, extremes, NaNs, the subnormal border, the ends of its domain and its poles, without duplicates; random inputs are reproducible and in range; and the tolerance granted to each function is no looser than the accuracy the library claims.",
 ["inputs"], "all values and step counts of f16, f32, f64, f128; all ranges and numbers of steps; all functions and arguments",
 "A test library that accepts too much or generates too little keeps every test green while the functions it guards go wrong; its own tests use an 8-bit toy float and a few constants.",
 [LT+"num.rs", LT+"test_traits.rs", LT+"generate/edge_cases.rs", LT+"generate/spaced.rs", LT+"generate/random.rs", LT+"domain.rs", LT+"run_cfg.rs", LT+"precision.rs"],
 [("steps through zero and at infinity", LT+"num.rs"), ("acceptance", LT+"test_traits.rs"), ("edge lists", LT+"generate/edge_cases.rs"), ("default tolerances", LT+"precision.rs")],
 ["libm_test::{FloatExt, CheckOutput, CheckCtx, logspace, linear_ints}", "libm_test::generate"])

prop("C34", "The arbitrary-precision reference returns the correctly rounded result",
 "The reference the repository compares libm with (libm_test::mpfloat) returns, for every function it covers and every input, the correctly rounded result of the mathematical function: exact operations, conversions, comparisons, rounding functions, remainders, roots, exponentials, logarithms, trigonometric, hyperbolic, error, gamma and Bessel functions, including subnormal results, overflow, signed zeros, ties and special values.",
 ["inputs"], "all inputs of all functions with an arbitrary-precision reference, f16, f32, f64, f128",
 "The tests take the reference for the truth. A wrong rounding mode, a missing subnormalisation or a wrong special value in the reference hides an equally wrong result of the library, and nothing in the repository checks the reference.",
 [LT+"mpfloat.rs"], [("rounding and subnormalisation of the result", LT+"mpfloat.rs"), ("special-cased functions", LT+"mpfloat.rs")],
 ["libm_test::mpfloat::MpOp"])

prop("C35", "Hexagon routines compute what their names say",
 "The routines written in Hexagon assembly do what their names stand for, under all of their aliases: integer division and remainder (32 and 64 bits, signed and unsigned) deliver the truncated quotient and the remainder with the dividend's sign for every nonzero divisor; addition, subtraction, multiplication, division, square root, fused multiply-add, minimum and maximum of doubles and division and square root of singles deliver the correctly rounded result in the rounding mode in force, also with NaNs, infinities, zeros and subnormal operands or results; the fixed-point helpers (fast2) deliver sums, differences and products within the unit their format has. The copies for short and for likely aligned blocks change exactly the named bytes at every size, alignment and distance of the blocks, the routines that save and restore callee-saved registers store and reload exactly the registers their name gives (restoring ones return to the caller's caller), and clearing the cache treats every line of the given range once and no other. All of them preserve the callee-saved registers and the stack.",
 ["inputs", "histories", "configurations"], "all operands, memory states, sizes and alignments, all four rounding modes, processor state as the ABI allows at entry",
 "Nothing in the repository's tests assembles these files. They are 2400 lines of packed, hand-scheduled assembly, in which instructions of one packet see each other's old values unless marked .new; a slip shows for rare operands and needs the processor, or a model of it, to be seen at all.",
 [CB+"hexagon/", CB+"hexagon.rs"],
 [("double-precision add, multiply, divide, fma, square root", CB+"hexagon/"), ("copies", CB+"hexagon/memcpy_forward_vp4cp4n2.s"), ("register saving", CB+"hexagon/common_entry_exit_abi1.s"), ("cache lines", CB+"hexagon.rs")],
 ["machine words assembled from the files", "symbols of the routines"])

prop("C36", "Each target exports the right symbols, once, weakly and with the right ABI",
 "For every target of the compiler and every choice of crate features the library defines exactly the unmangled symbols it should, each once and weak (strong on Windows with the GNU environment and Cygwin), and none without the feature unmangled-names: the integer routines; arithmetic, comparison, conversion and powi of every float type supported on the target (kf instead of tf in names on PowerPC); functions of <math.h>, of which the basic ones (rounding, remainder, sqrt, fma, minima) of f32 and f64 are left out on Windows and Apple systems and the elementary ones (sin, exp, pow) defined only where no system library is assumed; memcpy and its kin with the feature mem and always on targets without a C library (none in the name, UEFI, Xous, WebAssembly except WASI, NVPTX, SGX). ARM has the routines of its run-time ABI (without the memory ones on Apple) and the __sync routines before ARMv6 on Linux and Android and in Thumb mode of ARMv6K, AArch64 the outlined atomics where asked for, x86 and AArch64 the stack routines of their system. Arguments and results have the ABI the compiler's calls assume: the aapcs convention for the ARM run-time ABI; a word as the result of comparisons, but an int on AArch64 and WebAssembly and a byte on AVR; f16 passed as an integer on Apple's x86 unless the other type is f128; 128-bit integers in two halves for some routines on x86-64 UEFI.",
 ["configurations"], "all targets known to the compiler, features unmangled-names, mem, arch and unstable-public-internals, with and without support of f16 and f128",
 "Tests run on one target, with names mangled, so that no exported symbol is even defined there. A symbol missing, defined twice, strong or with another ABI on another target appears when somebody links a program for it.",
 [CB+"macros.rs", CB+"math/mod.rs", CB+"lib.rs", CB+"arm.rs", CB+"sync/mod.rs", "compiler-builtins/build.rs"],
 [("what a definition expands to", CB+"macros.rs"), ("math symbols", CB+"math/mod.rs"), ("comparison result", CB+"float/cmp.rs"), ("memory symbols", CB+"mem/mod.rs"), ("run-time ABI", CB+"arm.rs")],
 ["symbols, bindings and signatures of the expanded crate on every target", "symbol table of a library built for the host"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
