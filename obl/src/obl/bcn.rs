use crate::nd;
use crate::spec::bcn as s;
use texture2ddecoder as t;

/// A block inside a longer stream: the first N bytes are the block, up to
/// three further bytes follow it.  Calls `f` with a slice of every admissible
/// length.
pub mod bc1 {
    use super::*;
    obligations! { "P04";
        #[kani::unwind(18)]
        fn bc1_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_bc1_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(o[i] == s::bc1(&d, i, s::Bc1::Opaque), "BC1 texel");
        }
        #[kani::unwind(18)]
        fn bc1a_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_bc1a_block(&d[..n], &mut o);
            let i = nd::below(16);
            assert!(o[i] == s::bc1(&d, i, s::Bc1::PunchThrough), "BC1A texel");
        }
    }
}

pub mod bc23 {
    use super::*;
    obligations! { "P05";
        #[kani::unwind(18)]
        fn bc2_block() {
            let d = nd::bytes::<19>();
            let n = 16 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_bc2_block(&d[..n], &mut o);
            let i = nd::below(16);
            let c = s::bc1(&d[8..], i, s::Bc1::FourColour) & 0xff_ffff;
            assert!(o[i] & 0xff_ffff == c, "BC2 colour");
            assert!(o[i] >> 24 == s::bc2_alpha(&d, i), "BC2 alpha");
        }
        #[kani::unwind(18)]
        fn bc3_block() {
            let d = nd::bytes::<19>();
            let n = 16 + nd::below(4);
            let mut o = nd::words::<16>();
            t::decode_bc3_block(&d[..n], &mut o);
            let i = nd::below(16);
            let c = s::bc1(&d[8..], i, s::Bc1::FourColour) & 0xff_ffff;
            assert!(o[i] & 0xff_ffff == c, "BC3 colour");
            assert!(o[i] >> 24 == s::bc4(&d, i), "BC3 alpha");
        }
    }
}

pub mod bc45 {
    use super::*;
    obligations! { "P06";
        // the block functions own only their channels: the others are kept
        #[kani::unwind(18)]
        fn bc4_block() {
            let d = nd::bytes::<11>();
            let n = 8 + nd::below(4);
            let before = nd::words::<16>();
            let mut o = before;
            t::decode_bc4_block(&d[..n], &mut o);
            let i = nd::below(16);
            let want = (before[i] & 0xff00_ffff) | s::bc4(&d, i) << 16;
            assert!(o[i] == want, "BC4 texel");
        }
        #[kani::unwind(18)]
        fn bc5_block() {
            let d = nd::bytes::<19>();
            let n = 16 + nd::below(4);
            let before = nd::words::<16>();
            let mut o = before;
            t::decode_bc5_block(&d[..n], &mut o);
            let i = nd::below(16);
            let want = (before[i] & 0xff00_00ff) | s::bc4(&d, i) << 16 | s::bc4(&d[8..], i) << 8;
            assert!(o[i] == want, "BC5 texel");
        }
    }
}
