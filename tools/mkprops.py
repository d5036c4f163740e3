#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["neon_sim.cpp", "neon_sim.h"],
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": observe, "hook_needed": None}})
I = ["inputs"]
prop("C01", "Loads fill every lane with the right memory element",
 "Every implemented vld1/vld2/vld3/vld4 load (64- and 128-bit forms, all element types), vld1q_dup and vld1/2/3/4_lane load returns registers in which lane i of vector j is exactly memory element n*i+j (vldn), the single addressed element (dup), or the addressed element j in the selected lane with every other lane equal to the source register (lane), bit for bit. It holds for every memory content, including NaN and signalling-NaN bit patterns, and every legal lane index.",
 I, "all memory contents, all legal lane numbers, every implemented load",
 "Only vld1q_f32, vld1q_dup_f32 and vld1_u8 are called by tests, with one small buffer each; lane loads and vld2..4 are never executed.",
 [("vld1*/vld2*/vld3*/vld4*", "neon_sim.cpp 'Load' section"), ("vldN_lane_u8", "neon_sim.cpp 'vldX_lane_type'")],
 ["returned vector value"])
prop("C02", "Stores interleave every lane into the right memory element",
 "Every implemented vst1/vst2/vst3/vst4 store (64- and 128-bit forms) and vst4q_lane store leaves memory element n*i+j equal, bit for bit, to lane i of vector j (for the lane store: element j equal to the selected lane of vector j). Storing and then loading with the load of the same arity and type gives back the same registers, and loading then storing gives back the same memory.",
 I, "all register contents, all legal lane numbers, every implemented store",
 "Tests store only vst1q_f32 and vst4q_lane_f32 with one value each; interleaved stores are never executed.",
 [("vst1*/vst2*/vst3*/vst4*", "neon_sim.cpp 'Store' section"), ("vst4q_lane_f32", "neon_sim.cpp")],
 ["memory after the call"])
prop("C03", "Loads and stores touch exactly their own bytes",
 "A load reads only the bytes of the elements it returns and never writes memory; a store writes only the bytes of the elements it stores and reads none of the destination. This holds wherever the buffer lies, including directly before or after an unmapped page and at any element-aligned address, so no neighbouring byte is changed and no access faults.",
 I, "all implemented loads and stores, all element-aligned buffer placements relative to page boundaries, all contents, all legal lanes",
 "Tests use heap vectors with slack and never look at neighbouring bytes.",
 [("loop bounds and index arithmetic of vld*/vst*", "neon_sim.cpp 'Load' and 'Store' sections")],
 ["bytes around the buffer", "memory faults"])
prop("C04", "Integer add and subtract wrap modulo 2^bits in every lane",
 "For every implemented vadd/vaddq/vsub/vsubq on 8/16/32/64-bit signed or unsigned lanes, each result lane is the exact sum or difference of the corresponding lanes reduced modulo 2^bits (two's complement for signed types), for all operand values including those that overflow.",
 I, "all operand vectors",
 "Tests try vadd_s8/u8 and vsub_u8 on one or two vectors; 16/32/64-bit and q forms are never run.",
 [("vadd*/vaddq*/vsub*/vsubq*", "neon_sim.cpp 'vadd', 'vaddq', 'sub', 'vsubq_type'")], ["returned vector value"])
prop("C05", "Widening and pairwise arithmetic is exact in the wide type",
 "Widening adds, subtracts and moves (vaddl, vaddl_high, vaddw, vaddw_high, vsubl, vsubw, vmovl, vpaddl, vpaddlq) extend each narrow operand according to its signedness before computing, so vaddl/vsubl/vmovl/vpaddl results are mathematically exact (mod 2^wide for unsigned subtraction) and vaddw/vsubw wrap only in the wide type. The _high forms use exactly the upper half of their narrow operands, and no carry or sign is lost at the narrow width.",
 I, "all operand vectors of every implemented widening or pairwise intrinsic",
 "Five forms are tested on a single vector each with values that do not overflow the narrow type.",
 [("vaddl*/vaddw*/vsubl*/vsubw*/vmovl*/vpaddl*", "neon_sim.cpp")], ["returned vector value"])
prop("C06", "Narrowing high-half and halving arithmetic keeps the right bits",
 "vaddhn_high and vsubhn return the most significant half of each full-width sum or difference, vrsubhn the same after adding half a unit in the last kept place, all computed modulo 2^wide; vmovn keeps the low half; vhsub returns floor((a-b)/2) of the exact, never overflowing, difference modulo 2^bits. For the _high form the lower half of the result is the first operand unchanged.",
 I, "all operand vectors of every implemented intrinsic of these families",
 "Only the 16-bit forms are tested, with small operands; 32/64-bit widths, overflow and rounding carries are never reached.",
 [("vaddhn_high*/vsubhn*/vrsubhn*/vhsub*/vmovn*", "neon_sim.cpp")], ["returned vector value"])
prop("C07", "Saturating operations clamp the exact result",
 "Every implemented saturating operation (vqadd, vqsub and their q forms, vqdmull, vqmovn, vqmovun, vqshrn_n, vqshrun_n, vqrshrun_n) returns, in each lane, the mathematically exact result (for right shifts: floor, or rounded for the r form) when it is representable in the result type and the nearest representable bound otherwise. It holds for all values including both 64-bit extremes, and for every legal shift.",
 I, "all operand vectors and all legal immediates of every implemented saturating intrinsic",
 "One vqsub test with 8-bit lanes; 64-bit lanes, bounds of the narrow type and the shift forms are never run.",
 [("vqadd*/vqsub*/vqdmull*/vqmovn*/vqmovun*/vqshrn_n*/vqshrun_n*/vqrshrun_n*", "neon_sim.cpp")], ["returned vector value"])
prop("C08", "Integer multiply and multiply-accumulate are exact modulo 2^bits",
 "vmul, vmulq, vmul_n, vmulq_n and vmlaq return in each lane the exact product (plus accumulator) modulo 2^bits; vmull, vmull_n, vmlal and vmlsl form the full double-width product of the narrow operands before adding to or subtracting from the accumulator modulo 2^wide. The scalar (_n) forms use the same scalar in every lane.",
 I, "all operand vectors and scalars of every implemented integer multiply",
 "Tests multiply single small vectors in vmul_s8 and vmul_n_s16; no widening multiply or accumulate on integers is run.",
 [("vmul*/vmull*/vmlal*/vmlsl*/vmlaq*", "neon_sim.cpp")], ["returned vector value"])
prop("C09", "Immediate shifts are exact over their whole legal range",
 "For every legal immediate n and all lane values, the right shifts vshr_n, vshrn_n, vrshrn_n and vsraq_n compute floor(x/2^n) (with 2^(n-1) added first for the rounding form), then keep the low half (narrowing) or add to the unshifted accumulator modulo 2^bits (vsra); the left shifts vshlq_n and vshll_n compute x*2^n modulo 2^bits or in the double-width type. Signed lanes shift arithmetically, unsigned lanes logically, up to and including n equal to the lane width for right shifts.",
 I, "all lane values and all immediates the intrinsic allows",
 "No shift intrinsic is called by any test.",
 [("vshr_n_u16, vshrn_n*, vrshrn_n_u16, vsraq_n_s32, vshlq_n_s32, vshll_n_u8", "neon_sim.cpp")], ["returned vector value"])
prop("C10", "Bitwise logic, comparison masks and selects act on every bit",
 "vand, vorr, veor and vmvn (64- and 128-bit forms, every implemented type) act independently on each bit; vcgtq_u8 and vcltq_f32 return all ones in lanes where the comparison holds (unsigned, respectively IEEE ordered) and zero elsewhere, a comparison with NaN being false; vbslq returns each bit from its first data operand where the mask bit is 1 and from the second where it is 0, whatever the mask.",
 I, "all operand vectors, including masks that are not all-ones/all-zeros per lane",
 "Tests cover vand_u8 and one all-ones/all-zeros select.",
 [("vand*/vorr*/veor*/vmvn*/vcgtq_u8/vcltq_f32/vbslq_*", "neon_sim.cpp")], ["returned vector value"])
prop("C11", "Lane rearrangements are the exact permutation they name",
 "vrev16/32/64, vtrn, vzip, vuzp, vext, vcombine, vget_low, vget_high, vget_lane/vgetq_lane, vdup_n/vdupq_n and vmovq_n place in every result lane exactly the source lane (or scalar) that the NEON definition prescribes, bit for bit, for every legal lane or extraction index, and leave no result lane undefined.",
 I, "all register contents and all legal indices of every implemented rearrangement",
 "Tests use one vector with 8-bit unsigned lanes for most of these; the q forms and 16/32-bit and signed forms are not run.",
 [("vrev*/vtrn*/vzip*/vuzp*/vext*/vcombine*/vget_*/vdup*/vmovq_n*", "neon_sim.cpp")], ["returned vector value"])
prop("C12", "Table lookups return the indexed byte or zero",
 "vtbl1_u8, vtbl2_u8, vtbl4_u8 and vqtbl1_u8 return in each lane the byte of the (concatenated) table selected by the index lane, and zero when the index is not smaller than the table length, for all 256 index values.",
 I, "all tables and all index vectors",
 "vtbl1/vtbl2 are tested with one index vector; vtbl4 and vqtbl1 and large indices never.",
 [("vtbl1_u8/vtbl2_u8/vtbl4_u8/vqtbl1_u8", "neon_sim.cpp")], ["returned vector value"])
prop("C13", "Reinterpret casts preserve every bit in little-endian lane order",
 "Every implemented vreinterpret/vreinterpretq conversion returns a register whose 64 or 128 bits equal those of its argument, lane 0 holding the least significant bits, so that casting there and back is the identity, chains of casts equal the direct cast, and NaN payloads survive.",
 I, "all register contents, every implemented conversion, chains of conversions",
 "No test calls any vreinterpret function.",
 [("vreinterpret*", "neon_sim.cpp")], ["returned vector value"])
prop("C14", "Integer/float conversions round and saturate as NEON does",
 "vcvtq_s32_f32 and vcvtq_u32_f32 round toward zero, vcvtnq_s32_f32 rounds to nearest with ties to even; all three saturate values outside the integer range to the nearest bound and convert NaN to 0. vcvtq_f32_s32 rounds to the nearest float, ties to even.",
 I, "all 2^32 float and integer lane values",
 "No conversion intrinsic is called by any test.",
 [("vcvtq_f32_s32/vcvtq_s32_f32/vcvtq_u32_f32/vcvtnq_s32_f32", "neon_sim.cpp")], ["returned vector value"])
prop("C15", "Floating-point lane arithmetic is IEEE-754 correctly rounded",
 "Float vaddq, vsub/vsubq, vmulq, vmul_n/vmulq_n and vdiv/vdivq return in each lane the correctly rounded (nearest-even) IEEE-754 result in the lane precision, including infinities, signed zeros, subnormals and NaN results; vmlaq and vmlaq_n return the product rounded to lane precision and then added with a second rounding.",
 I, "all operand vectors of finite, subnormal, zero, infinite and NaN lanes",
 "Tests add, multiply and accumulate one vector of small integers; vdiv, f64 forms, rounding and special values are not exercised.",
 [("vaddq_f32, vsub*_f*, vmul*_f*, vmlaq_f32, vmlaq_n_f32, vdiv*", "neon_sim.cpp")], ["returned vector value"])
prop("C16", "Lane-wise and pairwise minimum and maximum follow NEON order",
 "vmaxq/vminq on integer types return the larger/smaller lane in the signedness of the type; vmaxq_f32, vminq_f32, vpmax_f32 and vpmin_f32 return the larger/smaller float with +0 greater than -0 and NaN whenever either operand is NaN, the pairwise forms combining adjacent lanes of the first operand into lane 0 and of the second into lane 1.",
 I, "all operand vectors, including NaN and signed zeros",
 "Only float forms are tested, on one vector of ordinary numbers.",
 [("vmaxq_*/vminq_*/vpmax_f32/vpmin_f32", "neon_sim.cpp")], ["returned vector value"])
prop("C17", "Reciprocal estimate and step match the architecture",
 "vrecpeq_f32 returns bit for bit the Arm architectural reciprocal estimate (AArch64 default FP mode) for every float: the table value for finite operands, subnormal results and operands included, a zero of the operand's sign for infinities, an infinity of the operand's sign for zero and for magnitudes below 2^-128, NaN for NaN. vrecpsq_f32 returns 2-a*b (rounded, fused or with the product rounded first), and exactly 2 for infinity times zero.",
 I, "all 2^32 operands of the estimate; all operand pairs of the step",
 "Tests check four small powers/multiples; no zero, infinity, NaN, subnormal, negative or large operand.",
 [("vrecpeq_f32, FPRecipEstimate, RecipEstimate, float_parts", "neon_sim.cpp"), ("vrecpsq_f32", "neon_sim.cpp")], ["returned vector value"])
prop("C18", "Illegal lane and shift immediates are rejected, legal ones never are",
 "Every implemented intrinsic with a lane index, extraction index or shift immediate terminates the process by abort, with a diagnostic on stderr and before writing any memory, when the immediate lies outside the range the operation can honour (lane outside [0,lanes-1]; right shift outside [1,width of the result lanes for narrowing shifts, else of the source lanes]; left shift outside [0,width-1], or [0,width] for vshll; extraction index negative or larger than the lane count). It never aborts for an immediate inside the architectural range.",
 I, "all int values of the immediate (boundaries, negative, huge), all register contents, every intrinsic that takes one",
 "No test passes an illegal immediate and hardly any test varies a legal one.",
 [("range checks in vldN_lane/vgetq_lane/vext/vshrn_n/vqshr*", "neon_sim.cpp")], ["process termination", "stderr", "memory"])
prop("C19", "Intrinsics are pure, reentrant and thread-safe",
 "The result of a call depends only on its arguments: it is the same whatever calls of the same or other intrinsics came before, however often it is repeated, and whichever other threads are calling intrinsics at the same time on their own data. Concurrent calls have no data races, and calls retain no memory.",
 ["histories", "schedules", "inputs"], "all call histories and all interleavings of threads calling implemented intrinsics on disjoint data",
 "Every test is a fresh process making a handful of single-threaded calls.",
 [("absence of mutable statics in every intrinsic; locals only", "neon_sim.cpp"), ("float_parts temporaries", "neon_sim.cpp")], ["returned values", "happens-before races", "heap in use"])
prop("C20", "No valid call executes undefined behaviour",
 "For every implemented intrinsic and every valid argument (any register contents, any legal immediate, buffers of exactly the required size) the call performs no C/C++ undefined behaviour: no signed overflow, no invalid shift, no out-of-range float-to-int conversion, no access outside an array or object, no misaligned or null access, and no result or branch depending on uninitialised memory.",
 I, "all valid arguments of every implemented intrinsic",
 "The suite is clean under sanitizers only because it runs a small part of the intrinsics on tame values.",
 [("arithmetic and indexing in every intrinsic", "neon_sim.cpp")], ["sanitizer traps", "memcheck definedness of results"])
prop("C21", "Results are the same under every compiler and optimisation level",
 "For all arguments, every implemented intrinsic returns the same bits (any NaN counting as equal where the operation computes a NaN) whether the library is built with gcc or clang, at -O0, -O1, -O2, -O3 or -Os, with or without NDEBUG, under C++11 or later standards, with plain char signed or unsigned, and whatever automatic variables initially contain.",
 ["configurations", "inputs"], "the listed build configurations times all arguments",
 "Tests run in one build configuration.",
 [("portable C++ without SSE or compiler extensions (README 'Real cross-platform')", "neon_sim.cpp")], ["returned vector value per configuration"])
prop("C22", "Every implemented intrinsic is usable from C and C++ as declared",
 "Every implemented intrinsic can be called through the public header from both C99 and C++11 code with the argument and result types of the Arm NEON intrinsics specification, links, and gives the same results from both languages. Vector types are 8 or 16 bytes of contiguous lanes (arrays of vectors contiguous), initialise from a brace list with element i in lane i, and distinct vector types stay distinct to the compiler.",
 ["programs", "inputs"], "every implemented intrinsic, all arguments, C and C++ callers, every vector type",
 "Tests are C++ only and reference few functions, so a definition that does not match its declaration, or C-incompatible header code, goes unnoticed.",
 [("type definitions and extern \"C\" prototypes", "neon_sim.h"), ("definitions matching the prototypes", "neon_sim.cpp")], ["compiler and linker", "returned values", "sizeof/layout"])
prop("C23", "Programs built from intrinsics compute what NEON defines",
 "Any straight-line or looped program composed of implemented intrinsics, with values flowing through registers and memory, leaves the registers and memory that the per-instruction NEON definitions give. In particular typical kernels (interleaved pixel processing, blends, widening filters, fixed-point scaling, transposes, table remaps, threshold selects, Newton-Raphson reciprocal division) equal their scalar reference for every image size and content.",
 ["programs", "inputs"], "all well-typed intrinsic programs; all sizes and contents for the kernels",
 "Tests call one intrinsic at a time on constants.",
 [("composition of all intrinsics through the vector structs", "neon_sim.cpp, neon_sim.h")], ["final registers and memory"])
prop("C24", "Algebraic laws between intrinsics hold",
 "Lane-wise intrinsics treat lanes uniformly and independently (permuting the lanes of all operands permutes the result; changing one lane changes only that lane), a q form equals its 64-bit form on both halves, _high forms equal the base form on the upper half, _n forms equal the vector form on a broadcast, and signed and unsigned forms of wrapping or bitwise operations agree bit for bit. Inverse and composition laws hold: add/subtract, double reversal, zip/unzip, double transpose, combine/split, extract composition, widen/narrow, store/load, De Morgan, commutativity, accumulate = add of product, saturating = wrapping when nothing saturates.",
 I, "all operand vectors for every instance of each law among implemented intrinsics",
 "Tests never relate two intrinsics to each other.",
 [("shared definition of families by type and width", "neon_sim.cpp")], ["returned vector values of several calls"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
