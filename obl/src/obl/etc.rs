use crate::nd;
use crate::spec::etc as s;
use crate::spec::etc::Mode;
use texture2ddecoder as t;

pub mod etc1 {
    use super::*;
    obligations! { "P10";
        #[kani::unwind(18)]
        fn etc1_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_etc1_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(!s::etc1_defined(&d) || o[i] == s::etc1(&d, i), "ETC1 texel");
            assert!(o[i] >> 24 == 255, "ETC1 alpha");
        }
    }
}

/// any block of the given mode
fn block_of<const N: usize>(at: usize, m: Mode) -> [u8; N] {
    let mut d = nd::bytes::<N>();
    match m {
        Mode::Individual => d[at + 3] &= !2,
        _ => d[at + 3] |= 2,
    }
    nd::assume(s::etc2_rgb_mode(&d[at..]) == m);
    d
}

fn rgb(m: Mode) {
    let d = block_of::<11>(0, m);
    let n = 8 + nd::below(4);
    let mut o = nd::words::<16>();
    t::decode_etc2_rgb_block(&d[..n], &mut o);
    let i = nd::below(16);
    assert!(o[i] == s::etc2_rgb(&d, i, m), "ETC2 RGB texel");
}

pub mod etc2_rgb {
    use super::*;
    obligations! { "P11";
        #[kani::unwind(18)]
        fn etc2_rgb_individual() { rgb(Mode::Individual) }
        #[kani::unwind(18)]
        fn etc2_rgb_differential() { rgb(Mode::Differential) }
        #[kani::unwind(18)]
        fn etc2_rgb_t() { rgb(Mode::T) }
        #[kani::unwind(18)]
        fn etc2_rgb_h() { rgb(Mode::H) }
        #[kani::unwind(18)]
        fn etc2_rgb_planar() { rgb(Mode::Planar) }
    }
}

fn a1(m: Mode) {
    let d = nd::bytes::<11>();
    nd::assume(s::diff_mode(&d) == m);
    let n = 8 + nd::below(4);
    let mut o = nd::words::<16>();
    t::decode_etc2_rgba1_block(&d[..n], &mut o);
    let i = nd::below(16);
    if s::a1_transparent(&d, i, m) {
        assert!(o[i] >> 24 == 0, "ETC2 punch-through alpha");
    } else {
        assert!(o[i] == s::etc2_a1(&d, i, m), "ETC2 punch-through texel");
    }
}

pub mod etc2_a1 {
    use super::*;
    obligations! { "P12";
        #[kani::unwind(18)]
        fn etc2_a1_differential() { a1(Mode::Differential) }
        #[kani::unwind(18)]
        fn etc2_a1_t() { a1(Mode::T) }
        #[kani::unwind(18)]
        fn etc2_a1_h() { a1(Mode::H) }
        #[kani::unwind(18)]
        fn etc2_a1_planar() { a1(Mode::Planar) }
    }
}

fn rgba8(m: Mode) {
    let d = block_of::<19>(8, m);
    let n = 16 + nd::below(4);
    let mut o = nd::words::<16>();
    t::decode_etc2_rgba8_block(&d[..n], &mut o);
    let i = nd::below(16);
    let rgb = s::etc2_rgb(&d[8..], i, m) & 0xff_ffff;
    assert!(o[i] & 0xff_ffff == rgb, "ETC2 RGBA8 colour");
    assert!(o[i] >> 24 == s::eac8(&d, i), "ETC2 RGBA8 alpha");
}

pub mod etc2_rgba8 {
    use super::*;
    obligations! { "P13";
        #[kani::unwind(18)]
        fn etc2_a8_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let before = nd::words::<16>();
            let mut o = before;
            t::decode_etc2_a8_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(o[i] == (before[i] & 0xff_ffff) | s::eac8(&d, i) << 24, "ETC2 alpha plane");
        }
        #[kani::unwind(18)]
        fn etc2_rgba8_individual() { rgba8(Mode::Individual) }
        #[kani::unwind(18)]
        fn etc2_rgba8_differential() { rgba8(Mode::Differential) }
        #[kani::unwind(18)]
        fn etc2_rgba8_t() { rgba8(Mode::T) }
        #[kani::unwind(18)]
        fn etc2_rgba8_h() { rgba8(Mode::H) }
        #[kani::unwind(18)]
        fn etc2_rgba8_planar() { rgba8(Mode::Planar) }
    }
}

pub mod eac {
    use super::*;
    obligations! { "P14";
        // the channel functions add their channel to a buffer where it is zero
        #[kani::unwind(18)]
        fn eac_channel() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let c = nd::below(4);
            let mut before = nd::words::<16>();
            let i = nd::below(16);
            before[i] &= !(255 << (8 * c));
            let mut o = before;
            t::decode_eac_block(&d[..n], c, &mut o);
            assert!(o[i] == before[i] | s::eac11(&d, i) << (8 * c), "EAC channel");
        }
        #[kani::unwind(18)]
        fn eac_signed_channel() {
            let d = nd::bytes::<11>();
            nd::assume(d[0] != 0x80);
            let n = 8 + nd::below(4);
            let c = nd::below(4);
            let mut before = nd::words::<16>();
            let i = nd::below(16);
            before[i] &= !(255 << (8 * c));
            let mut o = before;
            t::decode_eac_signed_block(&d[..n], c, &mut o);
            assert!(o[i] == before[i] | s::eac11_signed(&d, i) << (8 * c), "EAC signed channel");
        }
        #[kani::unwind(18)]
        fn eacr_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_eacr_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(o[i] == 0xff00_0000 | s::eac11(&d, i) << 16, "EAC R texel");
        }
        #[kani::unwind(18)]
        fn eacr_signed_block() {
            let d = nd::bytes::<11>();
            nd::assume(d[0] != 0x80);
            let n = 8 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_eacr_signed_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(o[i] == 0xff00_0000 | s::eac11_signed(&d, i) << 16, "EAC signed R texel");
        }
        #[kani::unwind(18)]
        fn eacrg_block() {
            let d = nd::bytes::<19>();
            let n = 16 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_eacrg_block(&d[..n], &mut o);
            let i = nd::below(16);
            let want = 0xff00_0000 | s::eac11(&d, i) << 16 | s::eac11(&d[8..], i) << 8;
            assert!(o[i] == want, "EAC RG texel");
        }
        #[kani::unwind(18)]
        fn eacrg_signed_block() {
            let d = nd::bytes::<19>();
            nd::assume(d[0] != 0x80 && d[8] != 0x80);
            let n = 16 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_eacrg_signed_block(&d[..n], &mut o);
            let i = nd::below(16);
            let want = 0xff00_0000 | s::eac11_signed(&d, i) << 16 | s::eac11_signed(&d[8..], i) << 8;
            assert!(o[i] == want, "EAC signed RG texel");
        }
    }
}
