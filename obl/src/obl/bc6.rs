use crate::nd;
use crate::spec::bc6 as s;
use texture2ddecoder as t;

/// any block of mode `k`: mode bits and partition number are fixed per path,
/// every other bit is symbolic
fn mode(k: usize, signed: bool) {
    let m = &s::MODES[k];
    let mut d = nd::bytes::<16>();
    d[0] = d[0] >> m.mb << m.mb | m.mv as u8;
    let mut part = 0;
    if m.two {
        part = nd::choose(32);
        // the partition number follows the end points, in bits 77..82
        let w = (u16::from_le_bytes([d[9], d[10]]) & !(31 << 5) | (part as u16) << 5).to_le_bytes();
        d[9] = w[0];
        d[10] = w[1];
    }
    let mut o = [0u32; 16];
    if signed {
        t::decode_bc6_block_signed(&d, &mut o);
    } else {
        t::decode_bc6_block_unsigned(&d, &mut o);
    }
    let mut e = s::endpoints(u128::from_le_bytes(d), m, signed);
    for c in 0..3 {
        for p in 0..4 {
            e[c][p] = s::unquantize(e[c][p], m.ep, signed);
        }
    }
    for i in 0..16 {
        assert!(o[i] == s::texel(&d, i, m, &e, part, signed), "BC6H texel");
    }
}

fn reserved(signed: bool) {
    let mut d = nd::bytes::<16>();
    let m = [19u8, 23, 27, 31][nd::choose(4)];
    d[0] = d[0] & 0xe0 | m;
    let mut o = nd::words::<16>();
    if signed {
        t::decode_bc6_block_signed(&d, &mut o);
    } else {
        t::decode_bc6_block_unsigned(&d, &mut o);
    }
    for i in 0..16 {
        assert!(o[i] == 0xff00_0000, "BC6H reserved mode");
    }
}

pub mod unsigned {
    use super::*;
    obligations! { "P07";
        fn bc6u_mode0() { mode(0, false) }
        fn bc6u_mode1() { mode(1, false) }
        fn bc6u_mode2() { mode(2, false) }
        fn bc6u_mode3() { mode(3, false) }
        fn bc6u_mode4() { mode(4, false) }
        fn bc6u_mode5() { mode(5, false) }
        fn bc6u_mode6() { mode(6, false) }
        fn bc6u_mode7() { mode(7, false) }
        fn bc6u_mode8() { mode(8, false) }
        fn bc6u_mode9() { mode(9, false) }
        fn bc6u_mode10() { mode(10, false) }
        fn bc6u_mode11() { mode(11, false) }
        fn bc6u_mode12() { mode(12, false) }
        fn bc6u_mode13() { mode(13, false) }
        fn bc6u_reserved() { reserved(false) }
    }
}
pub mod signed {
    use super::*;
    obligations! { "P08";
        fn bc6s_mode0() { mode(0, true) }
        fn bc6s_mode1() { mode(1, true) }
        fn bc6s_mode2() { mode(2, true) }
        fn bc6s_mode3() { mode(3, true) }
        fn bc6s_mode4() { mode(4, true) }
        fn bc6s_mode5() { mode(5, true) }
        fn bc6s_mode6() { mode(6, true) }
        fn bc6s_mode7() { mode(7, true) }
        fn bc6s_mode8() { mode(8, true) }
        fn bc6s_mode9() { mode(9, true) }
        fn bc6s_mode10() { mode(10, true) }
        fn bc6s_mode11() { mode(11, true) }
        fn bc6s_mode12() { mode(12, true) }
        fn bc6s_mode13() { mode(13, true) }
        fn bc6s_reserved() { reserved(true) }
    }
}
