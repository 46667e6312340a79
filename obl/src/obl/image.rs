//! Native obligations of the image decoders (replay and bounded search; the
//! unbounded statements are the contracts the deductive verifier discharges).
use crate::nd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use texture2ddecoder as t;

pub type Img = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
pub type Blk = fn(&[u8], &mut [u32]);
pub struct Fmt {
    pub name: &'static str,
    pub bw: usize,
    pub bh: usize,
    pub size: usize,
    pub img: Img,
    pub blk: Blk,
}
macro_rules! fmts {
    ($($n:literal $bw:literal $bh:literal $s:literal $i:expr, $b:expr;)*) => {
        pub static FMTS: &[Fmt] = &[ $(Fmt { name: $n, bw: $bw, bh: $bh, size: $s, img: $i, blk: $b }),* ];
    };
}
macro_rules! astc {
    ($w:literal, $h:literal) => { |d, o| t::decode_astc_block(d, $w, $h, o) };
}
fmts! {
    "bc1" 4 4 8 t::decode_bc1, t::decode_bc1_block;
    "bc1a" 4 4 8 t::decode_bc1a, t::decode_bc1a_block;
    "bc2" 4 4 16 t::decode_bc2, t::decode_bc2_block;
    "bc3" 4 4 16 t::decode_bc3, t::decode_bc3_block;
    "bc4" 4 4 8 t::decode_bc4, t::decode_bc4_block;
    "bc5" 4 4 16 t::decode_bc5, t::decode_bc5_block;
    "bc6_signed" 4 4 16 t::decode_bc6_signed, t::decode_bc6_block_signed;
    "bc6_unsigned" 4 4 16 t::decode_bc6_unsigned, t::decode_bc6_block_unsigned;
    "bc6 true" 4 4 16 |d, w, h, i| t::decode_bc6(d, w, h, i, true), t::decode_bc6_block_signed;
    "bc6 false" 4 4 16 |d, w, h, i| t::decode_bc6(d, w, h, i, false), t::decode_bc6_block_unsigned;
    "bc7" 4 4 16 t::decode_bc7, t::decode_bc7_block;
    "etc1" 4 4 8 t::decode_etc1, t::decode_etc1_block;
    "etc2_rgb" 4 4 8 t::decode_etc2_rgb, t::decode_etc2_rgb_block;
    "etc2_rgba1" 4 4 8 t::decode_etc2_rgba1, t::decode_etc2_rgba1_block;
    "etc2_rgba8" 4 4 16 t::decode_etc2_rgba8, t::decode_etc2_rgba8_block;
    "eacr" 4 4 8 t::decode_eacr, t::decode_eacr_block;
    "eacr_signed" 4 4 8 t::decode_eacr_signed, t::decode_eacr_signed_block;
    "eacrg" 4 4 16 t::decode_eacrg, t::decode_eacrg_block;
    "eacrg_signed" 4 4 16 t::decode_eacrg_signed, t::decode_eacrg_signed_block;
    "atc_rgb4" 4 4 8 t::decode_atc_rgb4, t::decode_atc_rgb4_block;
    "atc_rgba8" 4 4 16 t::decode_atc_rgba8, t::decode_atc_rgba8_block;
    "astc_4_4" 4 4 16 t::decode_astc_4_4, astc!(4, 4);
    "astc_5_4" 5 4 16 t::decode_astc_5_4, astc!(5, 4);
    "astc_5_5" 5 5 16 t::decode_astc_5_5, astc!(5, 5);
    "astc_6_5" 6 5 16 t::decode_astc_6_5, astc!(6, 5);
    "astc_6_6" 6 6 16 t::decode_astc_6_6, astc!(6, 6);
    "astc_8_5" 8 5 16 t::decode_astc_8_5, astc!(8, 5);
    "astc_8_6" 8 6 16 t::decode_astc_8_6, astc!(8, 6);
    "astc_8_8" 8 8 16 t::decode_astc_8_8, astc!(8, 8);
    "astc_10_5" 10 5 16 t::decode_astc_10_5, astc!(10, 5);
    "astc_10_6" 10 6 16 t::decode_astc_10_6, astc!(10, 6);
    "astc_10_8" 10 8 16 t::decode_astc_10_8, astc!(10, 8);
    "astc_10_10" 10 10 16 t::decode_astc_10_10, astc!(10, 10);
    "astc_12_10" 12 10 16 t::decode_astc_12_10, astc!(12, 10);
    "astc_12_12" 12 12 16 t::decode_astc_12_12, astc!(12, 12);
    "astc 6x6" 6 6 16 |d, w, h, i| t::decode_astc(d, w, h, 6, 6, i), astc!(6, 6);
    "astc 12x10" 12 10 16 |d, w, h, i| t::decode_astc(d, w, h, 12, 10, i), astc!(12, 10);
}

pub struct Case {
    pub data: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub before: Vec<u32>,
    pub image: Vec<u32>,
    pub res: Option<Result<(), &'static str>>,
    pub need: u128,
    pub area: u128,
}

pub fn side(b: usize) -> usize {
    match nd::u8() % 8 {
        0 => 1 + nd::u8() as usize % (3 * b),
        1 => b * (1 + nd::u8() as usize % 4),
        2 => b * (1 + nd::u8() as usize % 8) + 1,
        3 => b * (1 + nd::u8() as usize % 8) - 1,
        4 => nd::u8() as usize % 4,
        5 => 1 + nd::u8() as usize % 80,
        6 => {
            if nd::u8() % 8 == 0 {
                1 + nd::u16() as usize % 1200
            } else {
                2 * b
            }
        }
        _ => 1 + nd::u8() as usize % (2 * b),
    }
}

/// sides whose products overflow
fn huge() -> usize {
    let k = nd::u8();
    match k % 6 {
        0 => usize::MAX - (nd::u8() & 15) as usize,
        1 => 1usize << (28 + nd::u8() % 36),
        2 => (1usize << (28 + nd::u8() % 36)) - (1 + nd::u8() as usize % 16),
        3 => 1 + nd::u8() as usize % 300,
        4 => (1usize << 32) + nd::u8() as usize,
        _ => usize::MAX / (1 + nd::u8() as usize % 64),
    }
}

pub fn rand_data(n: usize) -> Vec<u8> {
    let mut r = u64::from_le_bytes(nd::bytes::<8>()) | 1;
    let mode = nd::u8() % 4;
    (0..n)
        .map(|_| {
            r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = (r >> 40) as u8;
            if mode == 0 && (r >> 50) & 3 != 0 {
                [0, 0xff, 1, 0x80][(r >> 52) as usize & 3]
            } else {
                x
            }
        })
        .collect()
}

/// decode with a random size, data length, buffer length and previous contents
pub fn case(bw: usize, bh: usize, size: usize, img: Img) -> Case {
    let big = nd::u8() % 16 == 0;
    let (w, h) = if big {
        let (w, h) = (huge(), huge());
        // a decode of this size cannot be run: it has to be refused
        nd::assume((w as u128) * (h as u128) > 1 << 24);
        (w, h)
    } else {
        (side(bw), side(bh))
    };
    let need = (w as u128).div_ceil(bw as u128).saturating_mul((h as u128).div_ceil(bh as u128)).saturating_mul(size as u128);
    let area = (w as u128) * (h as u128);
    let (dl, il) = if big {
        (nd::u8() as usize, nd::u8() as usize)
    } else {
        let k = nd::u8();
        let d = match k % 8 {
            0 => (need as usize).saturating_sub(1 + nd::u8() as usize % 17),
            1 => need as usize + nd::u8() as usize,
            2 => need as usize / 2,
            _ => need as usize,
        };
        let i = match (k / 8) % 8 {
            0 => (area as usize).saturating_sub(1 + nd::u8() as usize % 9),
            1 | 2 => area as usize + nd::u8() as usize,
            3 => area as usize / 2,
            _ => area as usize,
        };
        (d, i)
    };
    let data = rand_data(dl);
    let s = nd::u8() as u32;
    let before: Vec<u32> = (0..il as u32).map(|i| i.wrapping_mul(0x9e3779b9) ^ s).collect();
    let mut image = before.clone();
    let res = catch_unwind(AssertUnwindSafe(|| img(&data, w, h, &mut image))).ok();
    Case { data, w, h, before, image, res, need, area }
}

fn fmt() -> &'static Fmt {
    let i = nd::u16() as usize;
    &FMTS[i % FMTS.len()]
}

native_obligations! {
    "P01" fn image_texels() {
        let f = fmt();
        let c = case(f.bw, f.bh, f.size, f.img);
        nd::assume(matches!(c.res, Some(Ok(()))) && c.need <= c.data.len() as u128 && c.area <= c.image.len() as u128);
        let nx = c.w.div_ceil(f.bw);
        let mut blk = vec![0xff000000u32; f.bw * f.bh];
        let mut one = vec![0u8; f.size];
        for y in 0..c.h {
            for x in 0..c.w {
                if x % f.bw == 0 {
                    let o = (y / f.bh * nx + x / f.bw) * f.size;
                    one.copy_from_slice(&c.data[o..o + f.size]);
                    blk.fill(0xff000000);
                    (f.blk)(&one, &mut blk);
                }
                let (got, want) = (c.image[y * c.w + x], blk[y % f.bh * f.bw + x % f.bw]);
                assert!(got == want, "{} {}x{}: texel ({x},{y}) is {got:08x}, its block gives {want:08x}", f.name, c.w, c.h);
            }
        }
    }
    "P02" fn image_frame() {
        let f = fmt();
        let c = case(f.bw, f.bh, f.size, f.img);
        let r = c.res;
        nd::assume(r.is_some());
        if r.unwrap().is_err() {
            assert!(c.image == c.before, "{} {}x{}: an error, but the image buffer changed", f.name, c.w, c.h);
        } else {
            nd::assume(c.area <= c.image.len() as u128);
            let a = c.area as usize;
            assert!(c.image[a..] == c.before[a..], "{} {}x{}: entries after the image changed", f.name, c.w, c.h);
            // every entry is assigned: the result does not depend on what was there
            let mut other: Vec<u32> = c.before.iter().map(|x| !x).collect();
            (f.img)(&c.data, c.w, c.h, &mut other).unwrap();
            assert!(c.image[..a] == other[..a], "{} {}x{}: an entry was not assigned", f.name, c.w, c.h);
        }
    }
    "P03" fn image_errors() {
        let f = fmt();
        let c = case(f.bw, f.bh, f.size, f.img);
        let ok = c.need <= c.data.len() as u128 && c.area <= c.before.len() as u128;
        match c.res {
            None => panic!("{} {}x{} with {} bytes, {} entries: panics", f.name, c.w, c.h, c.data.len(), c.before.len()),
            Some(r) => assert!(r.is_ok() == ok, "{} {}x{} with {} bytes, {} entries: {r:?}", f.name, c.w, c.h, c.data.len(), c.before.len()),
        }
    }
    "P31" fn image_opaque() {
        const OPAQUE: [&str; 15] = ["bc1", "bc4", "bc5", "bc6_signed", "bc6_unsigned", "bc6 true", "bc6 false", "etc1", "etc2_rgb", "eacr", "eacr_signed", "eacrg", "eacrg_signed", "atc_rgb4", "bc1"];
        let n = OPAQUE[nd::u8() as usize % 15];
        let f = FMTS.iter().find(|f| f.name == n).unwrap();
        let c = case(f.bw, f.bh, f.size, f.img);
        nd::assume(matches!(c.res, Some(Ok(()))) && c.area <= c.image.len() as u128);
        for (i, p) in c.image[..c.area as usize].iter().enumerate() {
            assert!(p >> 24 == 255, "{} {}x{}: entry {i} is {p:08x}", f.name, c.w, c.h);
        }
    }
}

type Gen = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
macro_rules! pairs {
    ($($n:literal $w:literal $h:literal $a:expr, $b:expr;)*) => {
        /// entry points that have to agree
        pub static PAIRS: &[(&str, usize, usize, Gen, Gen)] = &[ $(($n, $w, $h, $a, $b)),* ];
    };
}
pairs! {
    "decode_astc_4_4" 4 4 t::decode_astc_4_4, |d, w, h, i| t::decode_astc(d, w, h, 4, 4, i);
    "decode_astc_5_4" 5 4 t::decode_astc_5_4, |d, w, h, i| t::decode_astc(d, w, h, 5, 4, i);
    "decode_astc_5_5" 5 5 t::decode_astc_5_5, |d, w, h, i| t::decode_astc(d, w, h, 5, 5, i);
    "decode_astc_6_5" 6 5 t::decode_astc_6_5, |d, w, h, i| t::decode_astc(d, w, h, 6, 5, i);
    "decode_astc_6_6" 6 6 t::decode_astc_6_6, |d, w, h, i| t::decode_astc(d, w, h, 6, 6, i);
    "decode_astc_8_5" 8 5 t::decode_astc_8_5, |d, w, h, i| t::decode_astc(d, w, h, 8, 5, i);
    "decode_astc_8_6" 8 6 t::decode_astc_8_6, |d, w, h, i| t::decode_astc(d, w, h, 8, 6, i);
    "decode_astc_8_8" 8 8 t::decode_astc_8_8, |d, w, h, i| t::decode_astc(d, w, h, 8, 8, i);
    "decode_astc_10_5" 10 5 t::decode_astc_10_5, |d, w, h, i| t::decode_astc(d, w, h, 10, 5, i);
    "decode_astc_10_6" 10 6 t::decode_astc_10_6, |d, w, h, i| t::decode_astc(d, w, h, 10, 6, i);
    "decode_astc_10_8" 10 8 t::decode_astc_10_8, |d, w, h, i| t::decode_astc(d, w, h, 10, 8, i);
    "decode_astc_10_10" 10 10 t::decode_astc_10_10, |d, w, h, i| t::decode_astc(d, w, h, 10, 10, i);
    "decode_astc_12_10" 12 10 t::decode_astc_12_10, |d, w, h, i| t::decode_astc(d, w, h, 12, 10, i);
    "decode_astc_12_12" 12 12 t::decode_astc_12_12, |d, w, h, i| t::decode_astc(d, w, h, 12, 12, i);
    "decode_bc6 signed" 4 4 t::decode_bc6_signed, |d, w, h, i| t::decode_bc6(d, w, h, i, true);
    "decode_bc6 unsigned" 4 4 t::decode_bc6_unsigned, |d, w, h, i| t::decode_bc6(d, w, h, i, false);
    "decode_pvrtc_2bpp" 8 4 t::decode_pvrtc_2bpp, |d, w, h, i| t::decode_pvrtc(d, w, h, i, true);
    "decode_pvrtc_4bpp" 4 4 t::decode_pvrtc_4bpp, |d, w, h, i| t::decode_pvrtc(d, w, h, i, false);
}

pub mod equal {
    use super::*;
    native_obligations! {
        "P25" fn entry_points() {
            let k = nd::u16() as usize;
            let (n, bw, bh, a, b) = PAIRS[k % PAIRS.len()];
            let size = if n.contains("pvrtc") { 8 } else { 16 };
            let (w, h) = if n.contains("pvrtc") {
                // square power-of-two block counts most of the time
                (bw << (nd::u8() % 5), bh << (nd::u8() % 5))
            } else {
                (side(bw), side(bh))
            };
            let need = w.div_ceil(bw) * h.div_ceil(bh) * size;
            let data = rand_data(match nd::u8() % 8 { 0 => need.saturating_sub(1 + nd::u8() as usize), 1 => need + nd::u8() as usize, _ => need });
            let il = match nd::u8() % 8 { 0 => (w * h).saturating_sub(1 + nd::u8() as usize % 9), 1 => w * h + nd::u8() as usize, _ => w * h };
            let s = nd::u32();
            let mut x: Vec<u32> = (0..il as u32).map(|i| i.wrapping_mul(0x9e3779b9) ^ s).collect();
            let mut y = x.clone();
            let ra = catch_unwind(AssertUnwindSafe(|| a(&data, w, h, &mut x))).ok();
            let rb = catch_unwind(AssertUnwindSafe(|| b(&data, w, h, &mut y))).ok();
            assert!(ra == rb, "{n} {w}x{h}: {ra:?}, the general function {rb:?}");
            assert!(x == y, "{n} {w}x{h}: images differ");
        }
        "P25" fn entry_blocks() {
            let d = nd::bytes::<16>();
            let mut x = nd::words::<16>();
            let mut y = x;
            let s = nd::bool();
            if s { t::decode_bc6_block_signed(&d, &mut x) } else { t::decode_bc6_block_unsigned(&d, &mut x) };
            t::decode_bc6_block(&d, &mut y, s);
            assert!(x == y, "decode_bc6_block {s}");
        }
    }
}
