//! Formats without an alpha channel: alpha is 255 whatever the data (and, for
//! the decoders that own only some channels, alpha is kept).
use crate::nd;
use texture2ddecoder as t;

fn opaque<const N: usize>(f: fn(&[u8], &mut [u32]), keeps: bool) {
    let d = nd::bytes::<N>();
    let n = N - 3 + nd::below(4);
    let mut o = nd::words::<16>();
    let i = nd::below(16);
    if keeps {
        nd::assume(o[i] >> 24 == 255);
    }
    f(&d[..n], &mut o);
    assert!(o[i] >> 24 == 255, "alpha");
}

/// the mode bits and, in the two-subset modes, the partition number are fixed per path
fn bc6(signed: bool) {
    let k = nd::choose(10 * 32 + 4 + 4);
    let (m, part) = if k < 320 {
        (k / 32, Some(k % 32))
    } else {
        (k - 310, None)
    };
    let mut d = nd::bytes::<16>();
    if m < 14 {
        let m = &crate::spec::bc6::MODES[m];
        d[0] = d[0] >> m.mb << m.mb | m.mv as u8;
    } else {
        d[0] = d[0] & 0xe0 | [19u8, 23, 27, 31][m - 14];
    }
    if let Some(part) = part {
        let w = (u16::from_le_bytes([d[9], d[10]]) & !(31 << 5) | (part as u16) << 5).to_le_bytes();
        d[9] = w[0];
        d[10] = w[1];
    }
    let mut o = [0u32; 16];
    if signed {
        t::decode_bc6_block_signed(&d, &mut o);
    } else {
        t::decode_bc6_block_unsigned(&d, &mut o);
    }
    for i in 0..16 {
        assert!(o[i] >> 24 == 255, "alpha");
    }
}

obligations! { "P31";
    #[kani::unwind(18)]
    fn opaque_bc1() { opaque::<11>(t::decode_bc1_block, false) }
    #[kani::unwind(18)]
    fn opaque_bc4() { opaque::<11>(t::decode_bc4_block, true) }
    #[kani::unwind(18)]
    fn opaque_bc5() { opaque::<19>(t::decode_bc5_block, true) }
    #[kani::unwind(18)]
    fn opaque_etc1() { opaque::<11>(t::decode_etc1_block, false) }
    #[kani::unwind(18)]
    fn opaque_etc2_rgb() { opaque::<11>(t::decode_etc2_rgb_block, false) }
    #[kani::unwind(18)]
    fn opaque_eacr() { opaque::<11>(t::decode_eacr_block, false) }
    #[kani::unwind(18)]
    fn opaque_eacr_signed() { opaque::<11>(t::decode_eacr_signed_block, false) }
    #[kani::unwind(18)]
    fn opaque_eacrg() { opaque::<19>(t::decode_eacrg_block, false) }
    #[kani::unwind(18)]
    fn opaque_eacrg_signed() { opaque::<19>(t::decode_eacrg_signed_block, false) }
    #[kani::unwind(18)]
    fn opaque_atc_rgb4() { opaque::<11>(t::decode_atc_rgb4_block, false) }
    fn opaque_bc6u() { bc6(false) }
    fn opaque_bc6s() { bc6(true) }
}
