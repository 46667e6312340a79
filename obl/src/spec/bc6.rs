//! BC6H (BPTC float), from the Khronos Data Format Specification and the
//! Direct3D 11 BC6H format description.
use super::bptc::*;
use super::px;
use crate::nd;

/// number of mode bits, mode value, end point bits, delta bits (r,g,b), transformed, two subsets
pub struct Mode {
    pub mb: usize,
    pub mv: u32,
    pub ep: u32,
    pub db: [u32; 3],
    pub tr: bool,
    pub two: bool,
    /// fields in the order of the block's bits: channel, end point (w,x,y,z = 0..3), first bit, last bit.
    /// first > last: the field is stored with its bits in reverse order.
    pub layout: &'static [(usize, usize, u32, u32)],
}
const R: usize = 0;
const G: usize = 1;
const B: usize = 2;
macro_rules! f {
    ($c:ident $e:literal [$a:literal]) => {
        ($c, $e, $a, $a)
    };
    ($c:ident $e:literal [$a:literal $b:literal]) => {
        ($c, $e, $a, $b)
    };
}
macro_rules! lay { ($($c:ident $e:literal [$($x:literal)+]),* $(,)?) => { &[ $( f!($c $e [$($x)+]) ),* ] } }

pub const MODES: [Mode; 14] = [
    Mode { mb: 2, mv: 0, ep: 10, db: [5, 5, 5], tr: true, two: true, layout: lay!(
        G 2 [4], B 2 [4], B 3 [4], R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 4], G 3 [4], G 2 [0 3], G 1 [0 4], B 3 [0],
        G 3 [0 3], B 1 [0 4], B 3 [1], B 2 [0 3], R 2 [0 4], B 3 [2], R 3 [0 4], B 3 [3]) },
    Mode { mb: 2, mv: 1, ep: 7, db: [6, 6, 6], tr: true, two: true, layout: lay!(
        G 2 [5], G 3 [4], G 3 [5], R 0 [0 6], B 3 [0], B 3 [1], B 2 [4], G 0 [0 6], B 2 [5], B 3 [2], G 2 [4], B 0 [0 6],
        B 3 [3], B 3 [5], B 3 [4], R 1 [0 5], G 2 [0 3], G 1 [0 5], G 3 [0 3], B 1 [0 5], B 2 [0 3], R 2 [0 5], R 3 [0 5]) },
    Mode { mb: 5, mv: 2, ep: 11, db: [5, 4, 4], tr: true, two: true, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 4], R 0 [10], G 2 [0 3], G 1 [0 3], G 0 [10], B 3 [0], G 3 [0 3], B 1 [0 3],
        B 0 [10], B 3 [1], B 2 [0 3], R 2 [0 4], B 3 [2], R 3 [0 4], B 3 [3]) },
    Mode { mb: 5, mv: 6, ep: 11, db: [4, 5, 4], tr: true, two: true, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 3], R 0 [10], G 3 [4], G 2 [0 3], G 1 [0 4], G 0 [10], G 3 [0 3], B 1 [0 3],
        B 0 [10], B 3 [1], B 2 [0 3], R 2 [0 3], B 3 [0], B 3 [2], R 3 [0 3], G 2 [4], B 3 [3]) },
    Mode { mb: 5, mv: 10, ep: 11, db: [4, 4, 5], tr: true, two: true, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 3], R 0 [10], B 2 [4], G 2 [0 3], G 1 [0 3], G 0 [10], B 3 [0], G 3 [0 3],
        B 1 [0 4], B 0 [10], B 2 [0 3], R 2 [0 3], B 3 [1], B 3 [2], R 3 [0 3], B 3 [4], B 3 [3]) },
    Mode { mb: 5, mv: 14, ep: 9, db: [5, 5, 5], tr: true, two: true, layout: lay!(
        R 0 [0 8], B 2 [4], G 0 [0 8], G 2 [4], B 0 [0 8], B 3 [4], R 1 [0 4], G 3 [4], G 2 [0 3], G 1 [0 4], B 3 [0],
        G 3 [0 3], B 1 [0 4], B 3 [1], B 2 [0 3], R 2 [0 4], B 3 [2], R 3 [0 4], B 3 [3]) },
    Mode { mb: 5, mv: 18, ep: 8, db: [6, 5, 5], tr: true, two: true, layout: lay!(
        R 0 [0 7], G 3 [4], B 2 [4], G 0 [0 7], B 3 [2], G 2 [4], B 0 [0 7], B 3 [3], B 3 [4], R 1 [0 5], G 2 [0 3], G 1 [0 4],
        B 3 [0], G 3 [0 3], B 1 [0 4], B 3 [1], B 2 [0 3], R 2 [0 5], R 3 [0 5]) },
    Mode { mb: 5, mv: 22, ep: 8, db: [5, 6, 5], tr: true, two: true, layout: lay!(
        R 0 [0 7], B 3 [0], B 2 [4], G 0 [0 7], G 2 [5], G 2 [4], B 0 [0 7], G 3 [5], B 3 [4], R 1 [0 4], G 3 [4], G 2 [0 3],
        G 1 [0 5], G 3 [0 3], B 1 [0 4], B 3 [1], B 2 [0 3], R 2 [0 4], B 3 [2], R 3 [0 4], B 3 [3]) },
    Mode { mb: 5, mv: 26, ep: 8, db: [5, 5, 6], tr: true, two: true, layout: lay!(
        R 0 [0 7], B 3 [1], B 2 [4], G 0 [0 7], B 2 [5], G 2 [4], B 0 [0 7], B 3 [5], B 3 [4], R 1 [0 4], G 3 [4], G 2 [0 3],
        G 1 [0 4], B 3 [0], G 3 [0 3], B 1 [0 5], B 2 [0 3], R 2 [0 4], B 3 [2], R 3 [0 4], B 3 [3]) },
    Mode { mb: 5, mv: 30, ep: 6, db: [6, 6, 6], tr: false, two: true, layout: lay!(
        R 0 [0 5], G 3 [4], B 3 [0], B 3 [1], B 2 [4], G 0 [0 5], G 2 [5], B 2 [5], B 3 [2], G 2 [4], B 0 [0 5], G 3 [5],
        B 3 [3], B 3 [5], B 3 [4], R 1 [0 5], G 2 [0 3], G 1 [0 5], G 3 [0 3], B 1 [0 5], B 2 [0 3], R 2 [0 5], R 3 [0 5]) },
    Mode { mb: 5, mv: 3, ep: 10, db: [10, 10, 10], tr: false, two: false, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 9], G 1 [0 9], B 1 [0 9]) },
    Mode { mb: 5, mv: 7, ep: 11, db: [9, 9, 9], tr: true, two: false, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 8], R 0 [10], G 1 [0 8], G 0 [10], B 1 [0 8], B 0 [10]) },
    Mode { mb: 5, mv: 11, ep: 12, db: [8, 8, 8], tr: true, two: false, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 7], R 0 [11 10], G 1 [0 7], G 0 [11 10], B 1 [0 7], B 0 [11 10]) },
    Mode { mb: 5, mv: 15, ep: 16, db: [4, 4, 4], tr: true, two: false, layout: lay!(
        R 0 [0 9], G 0 [0 9], B 0 [0 9], R 1 [0 3], R 0 [15 10], G 1 [0 3], G 0 [15 10], B 1 [0 3], B 0 [15 10]) },
];

/// two's complement value of the low `n` bits
fn sx(v: i32, n: u32) -> i32 {
    (v << (32 - n)) >> (32 - n)
}

/// end points per channel (w, x, y, z) before unquantization, as the signed or unsigned integers they stand for
pub fn endpoints(w: u128, m: &Mode, signed: bool) -> [[i32; 4]; 3] {
    let mut e = [[0i32; 4]; 3];
    let mut pos = m.mb;
    for &(c, p, a, b) in m.layout {
        let mut k = a;
        loop {
            e[c][p] |= ((w >> pos) as i32 & 1) << k;
            pos += 1;
            if k == b {
                break;
            }
            k = if a <= b { k + 1 } else { k - 1 };
        }
    }
    let n = if m.two { 4 } else { 2 };
    for c in 0..3 {
        if signed {
            e[c][0] = sx(e[c][0], m.ep);
        }
        for p in 1..n {
            if m.tr {
                let v = (e[c][0] + sx(e[c][p], m.db[c])) & ((1i64 << m.ep) - 1) as i32;
                e[c][p] = if signed { sx(v, m.ep) } else { v };
            } else if signed {
                e[c][p] = sx(e[c][p], m.ep);
            }
        }
    }
    e
}

pub fn unquantize(v: i32, bits: u32, signed: bool) -> i32 {
    if !signed {
        if bits >= 15 {
            v
        } else if v == 0 {
            0
        } else if v == (1 << bits) - 1 {
            0xffff
        } else {
            ((v << 16) + 0x8000) >> bits
        }
    } else if bits >= 16 {
        v
    } else {
        let a = v.abs();
        let u = if a == 0 {
            0
        } else if a >= (1 << (bits - 1)) - 1 {
            0x7fff
        } else {
            ((a << 15) + 0x4000) >> (bits - 1)
        };
        if v < 0 {
            -u
        } else {
            u
        }
    }
}

/// bits of the half float of an interpolated value
pub fn half(v: i32, signed: bool) -> u16 {
    if !signed {
        ((v * 31) >> 6) as u16
    } else {
        // sign and magnitude
        let m = ((v.abs() * 31) >> 5) as u16;
        if v < 0 {
            m | 0x8000
        } else {
            m
        }
    }
}

/// a half float clamped to 0..1, scaled to 0..255, truncated
pub extern "C" fn unorm8(h: u16) -> u32 {
    let h = h as u32;
    let e = h >> 10 & 31;
    let m = h & 1023;
    if h & 0x8000 != 0 || e == 0 {
        0
    } else if e == 31 && m != 0 {
        0
    } else if e >= 15 {
        255
    } else {
        (1024 + m) * 255 >> (25 - e)
    }
}

/// texel `i` of a block of mode `m`; `part`: partition number
pub fn texel(d: &[u8; 16], i: usize, m: &Mode, e: &[[i32; 4]; 3], part: usize, signed: bool) -> u32 {
    let w = u128::from_le_bytes(*d);
    // e: unquantized end points
    let (sub, anchor2) = if m.two { ((P2[part][i] - b'0') as usize, A2[part] as usize) } else { (0, 16) };
    let ib = if m.two { 3 } else { 4 };
    // index bits are stored at the top of the block, anchors lose their top bit
    let mut pos = if m.two { 82 } else { 65 };
    let mut k = 0;
    while k < i {
        pos += ib - (k == 0 || k == anchor2) as usize;
        k += 1;
    }
    let n = ib - (i == 0 || i == anchor2) as usize;
    let idx = (w >> pos) as u32 & ((1 << n) - 1);
    let f = super::bc7::weight(ib, idx) as i32;
    let mut c = [0u32; 3];
    for ch in 0..3 {
        let v = (e[ch][2 * sub] * (64 - f) + e[ch][2 * sub + 1] * f + 32) >> 6;
        c[ch] = nd::tab(half(v, signed), unorm8);
    }
    px(c[0], c[1], c[2], 255)
}
