"""What decides each property: obligations, functions under contract, assumptions."""

COMMON_ASSUMPTIONS = [
    "the specification functions in /verif/obl/src/spec (written from the published format documents) state the intended behaviour",
    "rustc/Kani code generation, CBMC 6.11 symbolic execution and the CaDiCaL SAT solver are trusted",
    "little-endian 64-bit target (the sandbox); other targets are not compiled",
    "termination is proved only through the unwinding assertions",
]
BLOCK_ASSUMPTIONS = [
    "the input slice is at least one block long and at most three bytes longer (longer tails are not explored symbolically)",
    "the output buffer has exactly 16 texels, as the frame drivers pass",
]

from .llsymrun import engine as llsym

LLSYM_TRUST = ["/verif/engine/llsym.py (VC generator over LLVM IR, normal forms)", "rustc 1.99.1 / LLVM (IR generation)", "z3 (QF_BV)"]
LLSYM_ASSUME = [
    "the LLVM IR rustc emits (opt-level 2, overflow checks on, panic=abort, one codegen unit) is what is verified; the LLVM optimiser and this VC generator are trusted",
    "loops are executed to their concrete end, there is no bound to exceed; paths over enumerated header fields are all explored",
    "the input is exactly one block of 16 bytes and the output buffer has exactly 16 texels, as the frame drivers pass",
]

P = {}


def prop(id, **k):
    P[id] = k


def blocks(id, kani, functions, extra=(), **k):
    prop(id, kani=kani, functions=functions, assumptions=BLOCK_ASSUMPTIONS + list(extra), **k)


blocks("P04", ["bc1_block", "bc1a_block"],
       ["decode_bc1_block", "decode_bc1a_block", "color", "rgb565_le"])
blocks("P05", ["bc2_block", "bc3_block"],
       ["decode_bc2_block", "decode_bc3_block", "decode_bc3_alpha", "color", "rgb565_le"])
blocks("P06", ["bc4_block", "bc5_block"],
       ["decode_bc4_block", "decode_bc5_block", "decode_bc3_alpha"])
blocks("P10", ["etc1_block"], ["decode_etc1_block", "applicate_color", "clamp"],
       ["differential blocks whose second base colour leaves the 5-bit range are undefined by the format; only the alpha and absence of panics are required there"])
blocks("P11", ["etc2_rgb_individual", "etc2_rgb_differential", "etc2_rgb_t", "etc2_rgb_h", "etc2_rgb_planar"],
       ["decode_etc2_rgb_block", "applicate_color", "applicate_color_raw", "clamp"])
blocks("P12", ["etc2_a1_differential", "etc2_a1_t", "etc2_a1_h", "etc2_a1_planar"],
       ["decode_etc2_rgba1_block", "applicate_color", "applicate_color_raw", "clamp"],
       ["the colour bytes of a fully transparent texel are not constrained"])
blocks("P13", ["etc2_a8_block", "etc2_rgba8_individual", "etc2_rgba8_differential", "etc2_rgba8_t", "etc2_rgba8_h", "etc2_rgba8_planar"],
       ["decode_etc2_rgba8_block", "decode_etc2_a8_block", "decode_etc2_rgb_block", "clamp"])
blocks("P14", ["eac_channel", "eac_signed_channel", "eacr_block", "eacr_signed_block", "eacrg_block", "eacrg_signed_block"],
       ["decode_eac_block", "decode_eac_signed_block", "decode_eacr_block", "decode_eacr_signed_block", "decode_eacrg_block", "decode_eacrg_signed_block"],
       ["the signed base value -128, which the format reserves, is excluded"], timeout=420)
blocks("P15", ["atc_rgb4_block", "atc_rgba8_block"],
       ["decode_atc_rgb4_block", "decode_atc_rgba8_block", "decode_bc3_alpha"])

LLSYM_TECH = "contract obligations on the real functions: verification conditions generated from the LLVM IR of the current source, discharged by normal forms and z3 for all inputs"

prop("P09", technique=LLSYM_TECH, engines=[llsym([("bc7_mode0", 16), ("bc7_mode1", 64), ("bc7_mode2", 64), ("bc7_mode3", 64), ("bc7_mode4", 8),
                           ("bc7_mode5", 4), ("bc7_mode6", None), ("bc7_mode7", 64), ("bc7_reserved", None)])],
     functions=["decode_bc7_block", "expand_quantized", "getbits_raw", "BitReader::read", "BitReader::peek", "color"],
     trusted=LLSYM_TRUST, assumptions=LLSYM_ASSUME)

for _p, _s, _k in (("P07", "bc6u", "unsigned"), ("P08", "bc6s", "signed")):
    prop(_p, technique=LLSYM_TECH, engines=[llsym([(f"{_s}_mode{k}", 32 if k < 10 else None) for k in range(14)] + [(f"{_s}_reserved", 4)])],
         functions=["decode_bc6_block", "decode_bc6_block_" + _k, "unquantize", "finish_unquantize", "sign_extend", "f16_to_u8",
                    "fp16_ieee_to_fp32_value", "BitReader::read", "getbits_raw", "color"],
         trusted=LLSYM_TRUST + ["numpy float32 arithmetic as IEEE-754 single precision"], assumptions=LLSYM_ASSUME)

from . import verus as _v
VERUS_TRUST = ["verus 0.2026.09.13 / z3", "/verif/engine/extract.py: extraction of the functions from rustc's macro expansion (what it rewrites is listed at its top)",
               "library contracts in /verif/verus: usize::div_ceil, u32::from_le_bytes, slice lengths below 2^63 (vstd supplies the rest)"]
VERUS_TECH = "contracts and loop invariants on the real functions, extracted mechanically from the compiler's expansion of the current source, discharged by Verus for all inputs and iterations"
VERUS_ASSUME = ["block decoders enter the image proofs through their contract: the texels are a function of the block's bytes alone (stated and proved per format under P04-P15; for ASTC under P19-P24), and the buffer length is kept",
                "64-bit target (usize is 8 bytes)"]
DRV = list(_v.DRIVERS)
OPAQUE = ["bc1", "bc4", "bc5", "bc6_signed", "bc6_unsigned", "etc1", "etc2_rgb", "eacr", "eacr_signed", "eacrg", "eacrg_signed", "atc_rgb4"]
for _p in ("P01", "P02", "P03"):
    prop(_p, technique=VERUS_TECH,
         engines=[_v.engine([("copy_block_buffer", "helper"), ("color", "helper")] + [(d, _p) for d in DRV + ["decode_astc"]] + [(w, "wrapper") for w in _v.WRAPPERS if "block" not in w and "pvrtc" not in w])],
         functions=["copy_block_buffer", "color"] + DRV + ["decode_astc"] + [w for w in _v.WRAPPERS if "block" not in w and "pvrtc" not in w],
         trusted=VERUS_TRUST, assumptions=VERUS_ASSUME, search=10, standin=40)
prop("P25", technique=VERUS_TECH, engines=[_v.engine([(w, "wrapper") for w in _v.WRAPPERS])], functions=list(_v.WRAPPERS), trusted=VERUS_TRUST,
     assumptions=["the general functions are deterministic (safe Rust without global state, time or randomness): their result is an uninterpreted function of the arguments"], search=10, standin=40)
prop("P31", technique="alpha contracts on the block decoders discharged by Kani and the LLVM-level verifier, lifted to whole images by Verus loop invariants on the drivers",
     kani=["opaque_" + x for x in OPAQUE if not x.startswith("bc6")],
     engines=[llsym([("opaque_bc6u", 328), ("opaque_bc6s", 328)]), _v.engine([("copy_block_buffer", "helper"), ("color", "helper")] + [("decode_" + x, "P31") for x in OPAQUE] + [("decode_bc6", "wrapper")])],
     functions=["decode_%s, decode_%s_block" % (x, x) for x in OPAQUE] + ["decode_bc6", "copy_block_buffer", "color"],
     trusted=VERUS_TRUST + LLSYM_TRUST, assumptions=BLOCK_ASSUMPTIONS + LLSYM_ASSUME[:2] + VERUS_ASSUME[1:])

NOT_APPLICABLE = {}
HOOKS = dict(guard="none", enable="no hooks: the obligations call the public functions of /repo's crate through a path dependency", source_commits=[])
NOTES = "python3 check.py <id> decides one property; VERIF_TIER=thorough lengthens time limits and the replay search."
