use crate::nd;
use crate::spec::bc7 as s;
use texture2ddecoder as t;

/// any block of mode `m`: mode prefix, partition number, rotation and index
/// selection are enumerated, every other bit is symbolic
fn mode(m: usize) {
    let n = s::header_bits(m);
    let head = nd::choose(1 << (n - m - 1)) << (m + 1) | 1 << m;
    let mut d = nd::bytes::<16>();
    let keep = (u16::from_le_bytes([d[0], d[1]]) >> n) << n;
    let w = (keep | head as u16).to_le_bytes();
    d[0] = w[0];
    d[1] = w[1];
    let mut o = [0u32; 16];
    t::decode_bc7_block(&d, &mut o);
    for i in 0..16 {
        assert!(o[i] == s::texel(&d, i, m, s::partition(&d, m)), "BC7 texel");
    }
}

obligations! { "P09";
    fn bc7_mode0() { mode(0) }
    fn bc7_mode1() { mode(1) }
    fn bc7_mode2() { mode(2) }
    fn bc7_mode3() { mode(3) }
    fn bc7_mode4() { mode(4) }
    fn bc7_mode5() { mode(5) }
    fn bc7_mode6() { mode(6) }
    fn bc7_mode7() { mode(7) }
    fn bc7_reserved() {
        let mut d = nd::bytes::<16>();
        d[0] = 0;
        let mut o = nd::words::<16>();
        t::decode_bc7_block(&d, &mut o);
        for i in 0..16 {
            assert!(o[i] == 0, "BC7 reserved mode");
        }
    }
}
