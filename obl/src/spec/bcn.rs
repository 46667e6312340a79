//! BC1..BC5 (S3TC / RGTC), from the Khronos Data Format Specification.
use super::px;

#[inline(always)]
pub fn le16(d: &[u8], o: usize) -> u32 {
    d[o] as u32 + 256 * d[o + 1] as u32
}

/// RGB 5:6:5 with the channel replicated to 8 bits, c = 0 red, 1 green, 2 blue
#[inline(always)]
pub fn rgb565(v: u32, c: usize) -> u32 {
    let (hi5, g6, lo5) = ((v >> 11) & 31, (v >> 5) & 63, v & 31);
    match c {
        0 => hi5 << 3 | hi5 >> 2,
        1 => g6 << 2 | g6 >> 4,
        _ => lo5 << 3 | lo5 >> 2,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Bc1 {
    /// three-colour blocks have opaque black as their fourth entry
    Opaque,
    /// three-colour blocks have transparent black as their fourth entry
    PunchThrough,
    /// colour part of BC2/BC3: always four colours
    FourColour,
}

/// texel `i` (raster order) of the 8-byte colour block `d`
pub fn bc1(d: &[u8], i: usize, kind: Bc1) -> u32 {
    let c0 = le16(d, 0);
    let c1 = le16(d, 2);
    let idx = (d[4 + i / 4] >> (2 * (i % 4))) & 3;
    let four = c0 > c1 || kind == Bc1::FourColour;
    let mix = |c: usize| {
        let a = rgb565(c0, c);
        let b = rgb565(c1, c);
        match (idx, four) {
            (0, _) => a,
            (1, _) => b,
            (2, true) => (2 * a + b) / 3,
            (_, true) => (a + 2 * b) / 3,
            (2, false) => (a + b) / 2,
            (_, false) => 0,
        }
    };
    let alpha = if !four && idx == 3 && kind == Bc1::PunchThrough { 0 } else { 255 };
    px(mix(0), mix(1), mix(2), alpha)
}

/// explicit 4-bit alpha of BC2
pub fn bc2_alpha(d: &[u8], i: usize) -> u32 {
    let n = (d[i / 2] as u32 >> (4 * (i % 2))) & 15;
    17 * n
}

/// interpolated channel of BC3 alpha / BC4 / BC5
pub fn bc4(d: &[u8], i: usize) -> u32 {
    let a = d[0] as u32;
    let b = d[1] as u32;
    let p = 16 + 3 * i;
    let w = d[p / 8] as u32 | if p / 8 < 7 { (d[p / 8 + 1] as u32) << 8 } else { 0 };
    let k = (w >> (p % 8)) & 7;
    if k == 0 {
        a
    } else if k == 1 {
        b
    } else if a > b {
        ((8 - k) * a + (k - 1) * b) / 7
    } else if k < 6 {
        ((6 - k) * a + (k - 1) * b) / 5
    } else if k == 6 {
        0
    } else {
        255
    }
}
