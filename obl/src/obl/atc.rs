use crate::nd;
use crate::spec::atc as s;
use crate::spec::bcn;
use texture2ddecoder as t;

obligations! { "P15";
    #[kani::unwind(18)]
    fn atc_rgb4_block() {
        let d = nd::bytes::<11>();
        let n = 8 + nd::below(4);
        let mut o = nd::words::<16>();
        t::decode_atc_rgb4_block(&d[..n], &mut o);
        let i = nd::below(16);
        assert!(o[i] == s::rgb4(&d, i), "ATC RGB texel");
    }
    #[kani::unwind(18)]
    fn atc_rgba8_block() {
        let d = nd::bytes::<19>();
        let n = 16 + nd::below(4);
        let mut o = nd::words::<16>();
        t::decode_atc_rgba8_block(&d[..n], &mut o);
        let i = nd::below(16);
        assert!(o[i] & 0xff_ffff == s::rgb4(&d[8..], i) & 0xff_ffff, "ATC RGBA colour");
        assert!(o[i] >> 24 == bcn::bc4(&d, i), "ATC RGBA alpha");
    }
}
