"""Source of properties.jsonl (python3 engine/properties_src.py > properties.jsonl)."""
import json

TESTS = "The repository's tests decode a handful of sample images and only write the pictures out for inspection, so "
L = []


def p(id, title, statement, text, why, files, mech, over=("inputs",)):
    L.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


DRV = ["src/macros.rs", "src/color.rs", "src/bcn.rs", "src/etc.rs", "src/atc.rs", "src/astc.rs"]
DRVM = [("frame decoding loop", "src/macros.rs block_decoder!"), ("block copy with cropping", "src/color.rs copy_block_buffer"),
        ("ASTC frame loop", "src/astc.rs decode_astc")]
p("P01", "Every texel of a decoded image comes from the block that covers it",
  "When an image decode succeeds for a tiled format (BCn, ETC/EAC, ATC, ASTC), the texel at column x, row y equals texel (x mod block width, y mod block height) of the decoding of the block that covers it, blocks being stored row by row from the top left. Partial blocks at the right and bottom edges are cropped, and the result depends neither on the previous contents of the image buffer nor on bytes after the last block.",
  "all widths, heights, data and buffers the decoder accepts, for every tiled format and footprint", TESTS + "widths that are not a multiple of the block size, one-texel images and non-square images are hardly reached.", DRV, DRVM)
p("P02", "Decoding writes exactly width*height texels, and nothing when it fails",
  "A successful image decode assigns the first width*height entries of the image buffer and leaves every later entry as it was. A call that returns an error leaves the whole image buffer as it was.",
  "all formats, sizes, data lengths and image buffer lengths", TESTS + "buffers longer than the image and failing calls are not checked at all.", DRV + ["src/pvrtc.rs"], DRVM + [("PVRTC decoding", "src/pvrtc.rs decode_pvrtc")])
p("P03", "Image decoding fails exactly when data or buffer are too small, never panics",
  "For the tiled formats a decode call returns an error if and only if the data holds fewer bytes than the image's blocks need or the image buffer holds fewer than width*height entries, computed in unbounded arithmetic. For no width, height, data or buffer does the call panic, overflow or read out of bounds; an image with zero width or height succeeds.",
  "all pairs of dimensions up to the machine word, all data and buffer lengths", TESTS + "no undersized, empty or huge size is ever passed.", DRV, DRVM)
BC = ["src/bcn/bc1.rs", "src/bcn/consts.rs", "src/color.rs"]
p("P04", "BC1 texels follow the format for every block",
  "Each texel of a decoded BC1 block equals the palette entry its two-bit index selects, the palette being built from the two RGB565 end points (bit-replicated to 8 bits): four colours at thirds when color0 > color1, otherwise three colours and black. The punch-through variant makes that fourth entry of the three-colour case fully transparent; all other texels are opaque, and the output byte order is B,G,R,A.",
  "all 2^64 blocks, all texel positions", TESTS + "they sample a few thousand of 2^64 blocks.", BC, [("block decoder", "src/bcn/bc1.rs decode_bc1_block, decode_bc1a_block")])
p("P05", "BC2 and BC3 texels follow the format for every block",
  "Each texel of a decoded BC2 or BC3 block has the colour of the four-colour BC1 palette whatever the order of the end points. Its alpha is the explicit 4-bit value widened to 8 bits (BC2), or the value interpolated from the two alpha end points in eight- or six-step mode (BC3).",
  "all 2^128 blocks, all texel positions", TESTS + "they sample a few blocks of 2^128.", ["src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc1.rs"], [("block decoders", "src/bcn/bc2.rs, src/bcn/bc3.rs")])
p("P06", "BC4 and BC5 channels follow the format for every block",
  "Each texel of a decoded BC4 block carries in its red channel the value interpolated from the block's two end points (eight-step, or six-step plus 0 and 255), and a BC5 block carries two such channels in red and green. The block decoders leave the remaining channels of the texels alone, and the image decoders deliver blue (and green for BC4) 0 and alpha 255.",
  "all blocks, all texel positions", TESTS + "they sample a few blocks.", ["src/bcn/bc4.rs", "src/bcn/bc5.rs", "src/bcn/bc3.rs"], [("channel decoder", "src/bcn/bc3.rs decode_bc3_alpha")])
p("P07", "Unsigned BC6H texels follow the format for every block",
  "Each texel of a decoded unsigned BC6H block is obtained by the format's mode table, end point delta transform, unquantization, weighting and half-float conversion, clamped to 0..1 and scaled to 8 bits, with opaque alpha. Blocks of a reserved mode decode to opaque black.",
  "all 2^128 blocks, all texel positions", TESTS + "they sample few of the fourteen modes.", ["src/bcn/bc6.rs", "src/bitreader.rs", "src/f16.rs"], [("block decoder", "src/bcn/bc6.rs decode_bc6_block_unsigned")])
p("P08", "Signed BC6H texels follow the format for every block",
  "Each texel of a decoded signed BC6H block is obtained by the format's mode table, sign extension and delta transform, signed unquantization, weighting and half-float conversion, with negative values clamped to 0, values above 1 clamped to 1, scaled to 8 bits, and opaque alpha. Blocks of a reserved mode decode to opaque black.",
  "all 2^128 blocks, all texel positions", TESTS + "they sample one signed image.", ["src/bcn/bc6.rs", "src/bitreader.rs", "src/f16.rs"], [("block decoder", "src/bcn/bc6.rs decode_bc6_block_signed")])
p("P09", "BC7 texels follow the format for every block",
  "Each texel of a decoded BC7 block follows the format in all eight modes: partition, end points with P-bits widened to 8 bits, index decoding with anchor bits, the 64-step interpolation, index selection and channel rotation. A block with no mode bit decodes to transparent black.",
  "all 2^128 blocks, all texel positions", TESTS + "rarely used modes, rotations and partitions are not pinned.", ["src/bcn/bc7.rs", "src/bcn/consts.rs", "src/bitreader.rs"], [("block decoder", "src/bcn/bc7.rs decode_bc7_block")])
ET = ["src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/consts.rs"]
p("P10", "ETC1 texels follow the format for every block",
  "Each texel of a decoded ETC1 block equals the base colour of its half block (individual or differential mode, either split direction) plus the signed modifier its index selects in the half block's table, clamped to 0..255, and is opaque. Differential blocks whose second base colour is out of range still decode without failure to opaque texels.",
  "all 2^64 blocks, all texel positions", TESTS + "they sample a few blocks.", ET, [("block decoder", "src/etc/etc1.rs decode_etc1_block")])
p("P11", "ETC2 RGB texels follow the format in all five modes",
  "Each texel of a decoded ETC2 RGB block follows the mode the block encodes: individual, differential, T, H or planar, the last three being selected by the overflow of red, green or blue in that order. All texels are opaque.",
  "all 2^64 blocks, all texel positions", TESTS + "T, H and planar corner cases (distance tables, colour ordering bit, clamping) are not pinned.", ET, [("block decoder", "src/etc/etc2.rs decode_etc2_rgb_block")])
p("P12", "ETC2 punch-through alpha blocks follow the format",
  "Each texel of a decoded ETC2 RGB8A1 block is fully transparent exactly when the block's opaque bit is clear, its mode is not planar and the texel's index selects the transparent entry. Every other texel is opaque and has the colour of the block's mode, with the modifiers of the non-opaque table when the opaque bit is clear.",
  "all 2^64 blocks, all texel positions", TESTS + "they sample a few blocks.", ET, [("block decoder", "src/etc/etc2.rs decode_etc2_rgba1_block")])
p("P13", "ETC2 RGBA8 blocks carry the RGB colour and the EAC alpha plane",
  "Each texel of a decoded ETC2 RGBA8 block has the colour of the ETC2 RGB block in its second half and the alpha base + modifier*multiplier, clamped to 0..255, of the EAC block in its first half. Decoding the alpha plane alone changes nothing but alpha.",
  "all 2^128 blocks, all texel positions", TESTS + "they sample a few blocks.", ET, [("block decoders", "src/etc/etc2.rs decode_etc2_rgba8_block, decode_etc2_a8_block")])
p("P14", "EAC R11 and RG11 channels follow the format for every block",
  "Each texel of a decoded EAC R11 or RG11 block (unsigned or signed) carries in red (and green) the 11-bit value base*8 + 4 + modifier*multiplier*8 (multiplier 0 counting as one eighth) clamped to its range and reduced to 8 bits, signed values being mapped to 0..255. The other colour channels are 0 and alpha is 255.",
  "all blocks, all texel positions; the reserved signed base -128 is excluded", TESTS + "no test compares an EAC value with a reference.", ["src/etc/eac.rs", "src/etc/consts.rs"], [("block decoders", "src/etc/eac.rs")])
p("P15", "ATC texels follow the format for every block",
  "Each texel of a decoded ATC block equals the palette entry its index selects, the palette being built from a RGB555 and a RGB565 end point either by 5/8-3/8 interpolation or, when the mode bit is set, as black, color0 minus a quarter of color1, color0 and color1. The RGBA variant takes its alpha from an interpolated alpha block; otherwise texels are opaque.",
  "all blocks, all texel positions", TESTS + "they sample a few blocks.", ["src/atc.rs", "src/bcn/bc3.rs"], [("block decoders", "src/atc.rs")])
PV = ["src/pvrtc.rs"]
p("P16", "PVRTC 4bpp texels follow the format",
  "In a decoded PVRTC 4bpp image each texel is the modulation-weighted mix of the two colour planes obtained by upscaling the end point colours of the four nearest blocks bilinearly with wrap-around, where end points are opaque or translucent per block, and the modulation is standard or punch-through per block. A texel with the punch-through value has alpha 0.",
  "all block contents of a neighbourhood, all texel positions", TESTS + "wrap-around, translucent end points and punch-through are not pinned.", PV, [("4bpp block", "src/pvrtc.rs applicate_color_4bpp, get_texel_weights_4bpp, get_texel_colors")])
p("P17", "PVRTC 2bpp texels follow the format",
  "In a decoded PVRTC 2bpp image each texel is the modulation-weighted mix of the two upscaled colour planes, its modulation being one bit per texel, or two bits for every other texel with the ones between averaged from their horizontal, vertical or four neighbours as the block selects. Neighbours are taken with wrap-around across blocks.",
  "all block contents of a neighbourhood, all texel positions", TESTS + "the interpolated modulation modes across block borders are not pinned.", PV, [("2bpp block", "src/pvrtc.rs applicate_color_2bpp, get_texel_weights_2bpp")])
p("P18", "PVRTC images are laid out in Morton order and validated before decoding",
  "A PVRTC image decode takes block (x,y) from the position whose bits interleave y and x, with the excess bits of the longer side on top, and crops to the image size. It returns an error, leaving the image buffer alone, exactly when the block counts per side are not powers of two (or zero), the data holds fewer than eight bytes per block, or the image buffer is too small; it never panics.",
  "all sizes, data lengths and buffer lengths", TESTS + "only square power-of-two samples with complete data are decoded.", PV, [("image decoder", "src/pvrtc.rs decode_pvrtc, morton_index")])
AS = ["src/astc.rs", "src/bitreader.rs", "src/f16.rs"]
p("P19", "Any ASTC block decodes safely for every footprint",
  "Decoding any 16 bytes as an ASTC block of any of the fourteen 2D footprints never panics, overflows or touches a texel outside the footprint, and assigns every texel of it. Unsupported footprints are rejected or handled without a panic.",
  "all 2^128 blocks, all fourteen footprints", TESTS + "only valid LDR blocks of encoder output occur.", AS, [("block decoder", "src/astc.rs decode_astc_block")])
p("P20", "ASTC void-extent and illegal blocks decode as the format prescribes",
  "A void-extent block gives every texel its constant colour (16-bit UNORM, or half floats clamped to 0..1, reduced to 8 bits). A block whose encoding is reserved or illegal gives every texel the error colour, opaque magenta.",
  "all blocks of these kinds, all footprints", TESTS + "no illegal block is decoded.", AS, [("block decoder", "src/astc.rs decode_astc_block")])
p("P21", "ASTC weights are unpacked and upscaled as the format prescribes",
  "For every legal block mode and footprint the weight of each texel and plane is the one the format defines: weights read in reverse bit order through the trit/quint integer sequence, unquantized to 0..64 and bilinearly interpolated from the weight grid.",
  "all legal block modes, footprints and weight bits", TESTS + "only the block modes an encoder picks occur.", AS, [("weight decoding", "src/astc.rs decode_weights")])
p("P22", "ASTC color end points are decoded as the format prescribes",
  "For every color endpoint mode, partition count and end point bits the decoded LDR end points (luminance, base+scale, RGB, with or without alpha, direct or offset, with blue contraction) and HDR end points are those the format defines.",
  "all endpoint modes and values", TESTS + "HDR and the offset modes hardly occur.", AS, [("end point decoding", "src/astc.rs decode_endpoints")])
p("P23", "ASTC partitions are assigned as the format prescribes",
  "For every partition seed, partition count and footprint each texel belongs to the partition given by the format's hash function, small footprints (under 31 texels) being scaled first.",
  "all 1024 seeds, 2 to 4 partitions, all footprints, all texels", TESTS + "few seeds occur.", AS, [("partition selection", "src/astc.rs select_partition")])
p("P24", "ASTC texels interpolate their end points and convert to 8 bits as prescribed",
  "Each texel is, per channel, the weighted mix of its partition's two end points in the 16-bit domain (end points widened by replication), its second-plane channel using the second plane's weight, reduced to the top 8 bits for LDR, and converted through half float with clamping to 0..1 for HDR.",
  "all end points, weights, plane selectors and LDR/HDR kinds", TESTS + "dual-plane and HDR blocks hardly occur.", AS, [("texel mixing", "src/astc.rs applicate_color")])
p("P25", "Equivalent entry points give identical results",
  "A size- or variant-specific entry point returns exactly what the general one returns for the same parameters: each fixed-footprint ASTC decoder equals the general ASTC decoder with that footprint, the signed/unsigned BC6H and 2bpp/4bpp PVRTC decoders equal the general ones with that flag, for images and for blocks.",
  "all data, sizes and buffers, every entry point", TESTS + "each entry point is called at most once, on its own sample.", ["src/astc.rs", "src/bcn.rs", "src/bcn/bc6.rs", "src/pvrtc.rs"], [("wrappers", "src/astc.rs astc_block_fn!, src/bcn.rs decode_bc6, src/pvrtc.rs decode_pvrtc_2bpp/4bpp")])
CR = ["src/crnlib.rs", "src/crunch.rs", "src/unitycrunch.rs", "src/crunch/", "src/unitycrunch/"]
p("P26", "Crunch headers are parsed by the format and rejected when inconsistent",
  "Reading the information of a crunched file reports the big-endian width, height, level count, face count and format of its header, and fails, without panicking, for every byte string that is too short for a header, has the wrong signature, or states sizes inconsistent with the data.",
  "all byte strings", TESTS + "only well-formed files are read.", CR, [("header", "src/crunch/crn_decomp.rs, src/crunch/crn_utils.rs")])
p("P27", "Malformed crunched data never panics",
  "Decoding a crunched texture (plain or Unity flavour) from any byte string, with any requested size and buffer, either succeeds or returns an error; it never panics, overflows or reads outside the data.",
  "all byte strings, including truncated and corrupted files", TESTS + "only well-formed files are decoded.", CR, [("entry points", "src/crunch.rs decode_crunch, src/unitycrunch.rs decode_unity_crunch")])
p("P28", "Crunched textures decode to the blocks their streams describe",
  "Decoding a crunched texture yields the same texels as decoding, with the corresponding block decoder, the blocks assembled from the file's palettes and index streams for the first mip level.",
  "all well-formed files of the supported formats", TESTS + "a few files are decoded and not compared.", CR, [("unpacking", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs")])
p("P29", "The build without allocation offers the same decoders with the same results",
  "With default features off the crate compiles without an allocator, and every decoder it then offers returns for every input what the default build returns.",
  "both feature configurations, all inputs", "The tests only build the default configuration.", ["src/lib.rs", "src/pvrtc.rs", "src/crnlib.rs", "Cargo.toml"], [("feature gates", "src/lib.rs, src/pvrtc.rs")], over=("configurations", "inputs"))
p("P30", "The Python bindings return the Rust result or raise",
  "Each Python decode function returns the bytes of the image the Rust decoder produces for the same data and size, of length width*height*4, and raises an exception when the Rust decoder reports an error.",
  "all functions of the module, all arguments", "Each function is called once on a sample.", ["bindings/python/src/lib.rs"], [("wrapper macro", "bindings/python/src/lib.rs")])
p("P31", "Formats without an alpha channel always decode to opaque texels",
  "Every texel of an image decoded from a format that has no alpha channel (BC1, BC4, BC5, BC6H, ETC1, ETC2 RGB, EAC R11/RG11, ATC RGB) has alpha 255, whatever the data.",
  "all formats without alpha, all blocks, all texels", TESTS + "they sample a few blocks.", ["src/bcn/", "src/etc/", "src/atc.rs", "src/macros.rs"], [("block decoders", "src/bcn, src/etc, src/atc.rs")])

if __name__ == "__main__":
    for x in L:
        assert len(x["title"]) <= 80, x["title"]
        print(json.dumps(x, ensure_ascii=False))
