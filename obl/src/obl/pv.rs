//! PVRTC: contracts of the private functions.  The text of /repo/src/pvrtc.rs
//! is included, so that the obligations can call them.
mod real {
    include!(concat!(env!("VP_GEN"), "/pvrtc.rs"));

    pub mod ob {
        use super::*;
        use crate::nd;
        use crate::spec::pvrtc as s;

        /// the neighbourhood of a block, through the real unpacking
        fn neighbours(two: bool) -> ([u64; 9], [PVRTCTexelInfo; 9]) {
            let mut nb = [0u64; 9];
            let mut info = [PVRTCTexelInfo::default(); 9];
            for i in 0..9 {
                let d = nd::bytes::<8>();
                nb[i] = u64::from_le_bytes(d);
                get_texel_colors(&d, &mut info[i]);
                if two {
                    get_texel_weights_2bpp(&d, &mut info[i]);
                } else {
                    get_texel_weights_4bpp(&d, &mut info[i]);
                }
            }
            (nb, info)
        }
        fn block4(lo: usize) {
            let (nb, mut info) = neighbours(false);
            let mut o = [0u32; 32];
            applicate_color_4bpp(&[], &mut info, &mut o);
            for i in lo..lo + 4 {
                assert!(o[i] == s::texel(&nb, false, i % 4, i / 4), "PVRTC 4bpp texel");
            }
        }
        fn block2(lo: usize) {
            let (nb, mut info) = neighbours(true);
            let mut o = [0u32; 32];
            applicate_color_2bpp(&[], &mut info, &mut o);
            for i in lo..lo + 4 {
                assert!(o[i] == s::texel(&nb, true, i % 8, i / 8), "PVRTC 2bpp texel");
            }
        }
        pub mod four {
            use super::*;
            obligations! { "P16";
            #[kani::unwind(34)]
            fn pvrtc4_part0() { block4(0) }
            #[kani::unwind(34)]
            fn pvrtc4_part1() { block4(4) }
            #[kani::unwind(34)]
            fn pvrtc4_part2() { block4(8) }
            #[kani::unwind(34)]
            fn pvrtc4_part3() { block4(12) }
            }
        }
        pub mod two {
            use super::*;
            obligations! { "P17";
            #[kani::unwind(34)]
            fn pvrtc2_part0() { block2(0) }
            #[kani::unwind(34)]
            fn pvrtc2_part1() { block2(4) }
            #[kani::unwind(34)]
            fn pvrtc2_part2() { block2(8) }
            #[kani::unwind(34)]
            fn pvrtc2_part3() { block2(12) }
            #[kani::unwind(34)]
            fn pvrtc2_part4() { block2(16) }
            #[kani::unwind(34)]
            fn pvrtc2_part5() { block2(20) }
            #[kani::unwind(34)]
            fn pvrtc2_part6() { block2(24) }
            #[kani::unwind(34)]
            fn pvrtc2_part7() { block2(28) }
            }
        }
    }
}
pub use real::ob::*;
