//! ATC (AMD_compressed_ATC_texture), integer decoding.
use super::bcn::le16;
use super::px;

fn rep5(v: u32) -> u32 {
    v << 3 | v >> 2
}
/// first colour: X R5 G5 B5
fn c0(v: u32, c: usize) -> u32 {
    rep5((v >> [10, 5, 0][c]) & 31)
}
/// second colour: R5 G6 B5
fn c1(v: u32, c: usize) -> u32 {
    super::bcn::rgb565(v, c)
}

pub fn rgb4(d: &[u8], i: usize) -> u32 {
    let a = le16(d, 0);
    let b = le16(d, 2);
    let idx = (d[4 + i / 4] >> (2 * (i % 4))) & 3;
    let ch = |c: usize| {
        let x = c0(a, c);
        let y = c1(b, c);
        if a & 0x8000 == 0 {
            match idx {
                0 => x,
                1 => (5 * x + 3 * y) / 8,
                2 => (3 * x + 5 * y) / 8,
                _ => y,
            }
        } else {
            match idx {
                0 => 0,
                1 => x.saturating_sub(y / 4),
                2 => x,
                _ => y,
            }
        }
    };
    px(ch(0), ch(1), ch(2), 255)
}
