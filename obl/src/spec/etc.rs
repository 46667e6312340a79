//! ETC1, ETC2 and EAC, from the Khronos Data Format Specification.
//! Texels are numbered in raster order: i = 4*y + x.
use super::px;

fn rep4(v: u32) -> u32 {
    v << 4 | v
}
fn rep5(v: u32) -> u32 {
    v << 3 | v >> 2
}
fn rep6(v: u32) -> u32 {
    v << 2 | v >> 4
}
fn rep7(v: u32) -> u32 {
    v << 1 | v >> 6
}
fn clamp255(v: i32) -> u32 {
    if v < 0 {
        0
    } else if v > 255 {
        255
    } else {
        v as u32
    }
}

/// field hi..=lo of the 64-bit big-endian block word
pub fn f(d: &[u8], hi: u32, lo: u32) -> u32 {
    let w = u64::from_be_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
    ((w >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u32
}

/// two-bit pixel index of texel (x,y); texels are stored column by column
fn index(d: &[u8], x: u32, y: u32) -> u32 {
    let k = 4 * x + y;
    let lsb = (f(d, 15, 0) >> k) & 1;
    let msb = (f(d, 31, 16) >> k) & 1;
    2 * msb + lsb
}

const SMALL: [i32; 8] = [2, 5, 9, 13, 18, 24, 33, 47];
const LARGE: [i32; 8] = [8, 17, 29, 42, 60, 80, 106, 183];
const DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];

fn signed3(v: u32) -> i32 {
    if v >= 4 {
        v as i32 - 8
    } else {
        v as i32
    }
}

/// second 5-bit base colour of a differential block, may be out of range
pub fn second(d: &[u8], c: u32) -> i32 {
    let hi = 63 - 8 * c;
    f(d, hi, hi - 4) as i32 + signed3(f(d, hi - 5, hi - 7))
}
fn in5(v: i32) -> bool {
    v >= 0 && v <= 31
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Individual,
    Differential,
    T,
    H,
    Planar,
}

pub fn diff_bit(d: &[u8]) -> bool {
    f(d, 33, 33) == 1
}

/// the mode of a block whose base colours are differentially coded
pub fn diff_mode(d: &[u8]) -> Mode {
    if !in5(second(d, 0)) {
        Mode::T
    } else if !in5(second(d, 1)) {
        Mode::H
    } else if !in5(second(d, 2)) {
        Mode::Planar
    } else {
        Mode::Differential
    }
}

/// sub-block of texel (x,y)
fn sub(d: &[u8], x: u32, y: u32) -> u32 {
    if f(d, 32, 32) == 1 {
        (y >= 2) as u32
    } else {
        (x >= 2) as u32
    }
}

fn base_individual(d: &[u8], s: u32, c: u32) -> u32 {
    let hi = 63 - 8 * c - 4 * s;
    rep4(f(d, hi, hi - 3))
}
fn base_differential(d: &[u8], s: u32, c: u32) -> u32 {
    let hi = 63 - 8 * c;
    rep5(if s == 0 { f(d, hi, hi - 4) } else { second(d, c) as u32 & 31 })
}

/// intensity modifier of ETC1 and the opaque ETC2 modes
fn modifier(cw: u32, idx: u32) -> i32 {
    let m = if idx & 1 == 1 { LARGE[cw as usize] } else { SMALL[cw as usize] };
    if idx & 2 == 2 {
        -m
    } else {
        m
    }
}
fn codeword(d: &[u8], s: u32) -> u32 {
    if s == 0 {
        f(d, 39, 37)
    } else {
        f(d, 36, 34)
    }
}

fn subblocks(d: &[u8], i: usize, differential: bool) -> u32 {
    let (x, y) = (i as u32 % 4, i as u32 / 4);
    let s = sub(d, x, y);
    let m = modifier(codeword(d, s), index(d, x, y));
    let ch = |c: u32| {
        let b = if differential { base_differential(d, s, c) } else { base_individual(d, s, c) };
        clamp255(b as i32 + m)
    };
    px(ch(0), ch(1), ch(2), 255)
}

/// ETC1; `None` where the format leaves the block undefined
pub fn etc1_defined(d: &[u8]) -> bool {
    !diff_bit(d) || diff_mode(d) == Mode::Differential
}
pub fn etc1(d: &[u8], i: usize) -> u32 {
    subblocks(d, i, diff_bit(d))
}

fn paint_add(c: [u32; 3], m: i32) -> u32 {
    px(clamp255(c[0] as i32 + m), clamp255(c[1] as i32 + m), clamp255(c[2] as i32 + m), 255)
}

fn t_mode(d: &[u8], idx: u32) -> u32 {
    let r1 = f(d, 60, 59) << 2 | f(d, 57, 56);
    let c1 = [rep4(r1), rep4(f(d, 55, 52)), rep4(f(d, 51, 48))];
    let c2 = [rep4(f(d, 47, 44)), rep4(f(d, 43, 40)), rep4(f(d, 39, 36))];
    let dist = DIST[(f(d, 35, 34) << 1 | f(d, 32, 32)) as usize];
    match idx {
        0 => paint_add(c1, 0),
        1 => paint_add(c2, dist),
        2 => paint_add(c2, 0),
        _ => paint_add(c2, -dist),
    }
}

fn h_mode(d: &[u8], idx: u32) -> u32 {
    let q1 = [
        f(d, 62, 59),
        f(d, 58, 56) << 1 | f(d, 52, 52),
        f(d, 51, 51) << 3 | f(d, 49, 47),
    ];
    let q2 = [f(d, 46, 43), f(d, 42, 39), f(d, 38, 35)];
    let v1 = q1[0] << 8 | q1[1] << 4 | q1[2];
    let v2 = q2[0] << 8 | q2[1] << 4 | q2[2];
    let dist = DIST[(f(d, 34, 34) << 2 | f(d, 32, 32) << 1 | (v1 >= v2) as u32) as usize];
    let c1 = [rep4(q1[0]), rep4(q1[1]), rep4(q1[2])];
    let c2 = [rep4(q2[0]), rep4(q2[1]), rep4(q2[2])];
    match idx {
        0 => paint_add(c1, dist),
        1 => paint_add(c1, -dist),
        2 => paint_add(c2, dist),
        _ => paint_add(c2, -dist),
    }
}

fn planar(d: &[u8], x: u32, y: u32) -> u32 {
    let o = [
        rep6(f(d, 62, 57)),
        rep7(f(d, 56, 56) << 6 | f(d, 54, 49)),
        rep6(f(d, 48, 48) << 5 | f(d, 44, 43) << 3 | f(d, 41, 39)),
    ];
    let h = [rep6(f(d, 38, 34) << 1 | f(d, 32, 32)), rep7(f(d, 31, 25)), rep6(f(d, 24, 19))];
    let v = [rep6(f(d, 18, 13)), rep7(f(d, 12, 6)), rep6(f(d, 5, 0))];
    let ch = |c: usize| {
        let (o, h, v) = (o[c] as i32, h[c] as i32, v[c] as i32);
        clamp255((x as i32 * (h - o) + y as i32 * (v - o) + 4 * o + 2) >> 2)
    };
    px(ch(0), ch(1), ch(2), 255)
}

pub fn etc2_rgb_mode(d: &[u8]) -> Mode {
    if diff_bit(d) {
        diff_mode(d)
    } else {
        Mode::Individual
    }
}

/// ETC2 RGB texel, given the mode of the block
pub fn etc2_rgb(d: &[u8], i: usize, m: Mode) -> u32 {
    let (x, y) = (i as u32 % 4, i as u32 / 4);
    match m {
        Mode::Individual => subblocks(d, i, false),
        Mode::Differential => subblocks(d, i, true),
        Mode::T => t_mode(d, index(d, x, y)),
        Mode::H => h_mode(d, index(d, x, y)),
        Mode::Planar => planar(d, x, y),
    }
}

/// punch-through ETC2: the texel is transparent
pub fn a1_transparent(d: &[u8], i: usize, m: Mode) -> bool {
    let (x, y) = (i as u32 % 4, i as u32 / 4);
    m != Mode::Planar && !diff_bit(d) && index(d, x, y) == 2
}

/// ETC2 RGB + punch-through alpha, for texels which are not transparent
pub fn etc2_a1(d: &[u8], i: usize, m: Mode) -> u32 {
    let (x, y) = (i as u32 % 4, i as u32 / 4);
    if m == Mode::Differential && !diff_bit(d) {
        let s = sub(d, x, y);
        let idx = index(d, x, y);
        // without the opaque bit the small modifiers are zero
        let md = if idx & 1 == 0 { 0 } else { modifier(codeword(d, s), idx) };
        let ch = |c: u32| clamp255(base_differential(d, s, c) as i32 + md);
        return px(ch(0), ch(1), ch(2), 255);
    }
    etc2_rgb(d, i, m)
}

const EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];

fn eac_modifier(d: &[u8], i: usize) -> i32 {
    let k = 4 * (i as u32 % 4) + i as u32 / 4;
    // texel 0 occupies bits 47..45
    let idx = f(d, 47 - 3 * k, 45 - 3 * k);
    EAC[f(d, 51, 48) as usize][idx as usize]
}

/// 8-bit alpha of ETC2 RGBA8
pub fn eac8(d: &[u8], i: usize) -> u32 {
    clamp255(f(d, 63, 56) as i32 + f(d, 55, 52) as i32 * eac_modifier(d, i))
}

fn scaled(d: &[u8], i: usize) -> i32 {
    let mult = f(d, 55, 52) as i32;
    if mult == 0 {
        eac_modifier(d, i)
    } else {
        8 * mult * eac_modifier(d, i)
    }
}
fn clamp(v: i32, lo: i32, hi: i32) -> i32 {
    if v < lo {
        lo
    } else if v > hi {
        hi
    } else {
        v
    }
}

/// R11 unsigned, the 11-bit value reduced to 8 bits
pub fn eac11(d: &[u8], i: usize) -> u32 {
    clamp(8 * f(d, 63, 56) as i32 + 4 + scaled(d, i), 0, 2047) as u32 >> 3
}

/// R11 signed: -1023..1023 mapped to 0..255
pub fn eac11_signed(d: &[u8], i: usize) -> u32 {
    let base = f(d, 63, 56) as u8 as i8 as i32;
    (clamp(8 * base + scaled(d, i), -1023, 1023) + 1023) as u32 >> 3
}
