//! BC7 (BPTC UNORM), from the Khronos Data Format Specification.
use super::bptc::*;
use super::px;

/// subsets, partition bits, rotation bits, index selection bits, colour bits,
/// alpha bits, P-bits per endpoint, P-bits per subset, index bits, second index bits
struct M {
    ns: usize,
    pb: usize,
    rb: usize,
    isb: usize,
    cb: usize,
    ab: usize,
    epb: usize,
    spb: usize,
    ib: usize,
    ib2: usize,
}
const fn m(ns: usize, pb: usize, rb: usize, isb: usize, cb: usize, ab: usize, epb: usize, spb: usize, ib: usize, ib2: usize) -> M {
    M { ns, pb, rb, isb, cb, ab, epb, spb, ib, ib2 }
}
const MODES: [M; 8] = [
    m(3, 4, 0, 0, 4, 0, 1, 0, 3, 0),
    m(2, 6, 0, 0, 6, 0, 0, 1, 3, 0),
    m(3, 6, 0, 0, 5, 0, 0, 0, 2, 0),
    m(2, 6, 0, 0, 7, 0, 1, 0, 2, 0),
    m(1, 0, 2, 1, 5, 6, 0, 0, 2, 3),
    m(1, 0, 2, 0, 7, 8, 0, 0, 2, 2),
    m(1, 0, 0, 0, 7, 7, 1, 0, 4, 0),
    m(2, 6, 0, 0, 5, 5, 1, 0, 2, 0),
];

/// `n` bits at `pos` of the block, least significant first
fn b(w: u128, pos: usize, n: usize) -> u32 {
    if n == 0 {
        0
    } else {
        (w >> pos) as u32 & ((1 << n) - 1)
    }
}
pub fn weight(bits: usize, i: u32) -> u32 {
    const W2: [u32; 4] = [0, 21, 43, 64];
    const W3: [u32; 8] = [0, 9, 18, 27, 37, 46, 55, 64];
    const W4: [u32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
    match bits {
        2 => W2[i as usize],
        3 => W3[i as usize],
        _ => W4[i as usize],
    }
}
fn to8(v: u32, bits: usize) -> u32 {
    let v = v << (8 - bits);
    v | v >> bits
}

/// texel `i` of a block of mode `md` with partition `p`
pub fn texel(d: &[u8], i: usize, md: usize, p: usize) -> u32 {
    let mut w = 0u128;
    for k in 0..16 {
        w |= (d[k] as u128) << (8 * k);
    }
    let m = &MODES[md];
    let rot = b(w, md + 1 + m.pb, m.rb);
    let isel = b(w, md + 1 + m.pb + m.rb, m.isb);
    let ep0 = md + 1 + m.pb + m.rb + m.isb;
    let al0 = ep0 + 6 * m.ns * m.cb;
    let pb0 = al0 + 2 * m.ns * m.ab;
    let ix0 = pb0 + 2 * m.ns * m.epb + m.ns * m.spb;
    let ix1 = ix0 + m.ib * 16 - m.ns;

    let (s, a1, a2) = match m.ns {
        1 => (0, 16, 16),
        2 => (P2[p][i] - b'0', A2[p] as usize, 16),
        _ => (P3[p][i] - b'0', A3_1[p] as usize, A3_2[p] as usize),
    };
    let s = s as usize;
    // anchors have one bit less; texel 0 is always an anchor
    let before = (i > 0) as usize + (i > a1) as usize + (i > a2) as usize;
    let anchor = (i == 0 || i == a1 || i == a2) as usize;
    let k1 = b(w, ix0 + i * m.ib - before, m.ib - anchor);
    let (w1, w2) = if m.ib2 == 0 {
        let x = weight(m.ib, k1);
        (x, x)
    } else {
        let k2 = b(w, ix1 + i * m.ib2 - (i > 0) as usize, m.ib2 - (i == 0) as usize);
        let (x, y) = (weight(m.ib, k1), weight(m.ib2, k2));
        if isel == 0 {
            (x, y)
        } else {
            (y, x)
        }
    };

    let ep = |c: usize, e: usize| {
        let (n, at) = if c < 3 {
            (m.cb, ep0 + (c * 2 * m.ns + 2 * s + e) * m.cb)
        } else {
            (m.ab, al0 + (2 * s + e) * m.ab)
        };
        if n == 0 {
            return 255;
        }
        let v = b(w, at, n);
        if m.epb == 1 {
            to8(v << 1 | b(w, pb0 + 2 * s + e, 1), n + 1)
        } else if m.spb == 1 {
            to8(v << 1 | b(w, pb0 + s, 1), n + 1)
        } else {
            to8(v, n)
        }
    };
    let mix = |c: usize| {
        let f = if c < 3 { w1 } else { w2 };
        (ep(c, 0) * (64 - f) + ep(c, 1) * f + 32) >> 6
    };
    let (mut r, mut g, mut bl, mut a) = (mix(0), mix(1), mix(2), mix(3));
    match rot {
        1 => core::mem::swap(&mut a, &mut r),
        2 => core::mem::swap(&mut a, &mut g),
        3 => core::mem::swap(&mut a, &mut bl),
        _ => {}
    }
    px(r, g, bl, a)
}

pub fn partition(d: &[u8], md: usize) -> usize {
    let n = MODES[md].pb;
    ((d[0] as usize | (d[1] as usize) << 8) >> (md + 1)) & ((1 << n) - 1)
}

/// length of the block header: mode, partition, rotation, index selection
pub fn header_bits(md: usize) -> usize {
    let m = &MODES[md];
    md + 1 + m.pb + m.rb + m.isb
}
