//! PVRTC: native obligations on whole images.
use super::image::rand_data;
use crate::nd;
use crate::spec::pvrtc as s;
use std::panic::{catch_unwind, AssertUnwindSafe};
use texture2ddecoder as t;

fn image(two: bool) {
    let bw = if two { 8 } else { 4 };
    let (mut ex, mut ey) = (nd::u8() % 5, nd::u8() % 5);
    if nd::u8() % 4 == 0 {
        ex = 0;
    }
    if nd::u8() % 4 == 0 {
        ey = 0;
    }
    let (nx, ny) = (1usize << ex, 1usize << ey);
    // cropped images too
    let (w, h) = (bw * nx - nd::u8() as usize % bw * (nd::u8() % 2) as usize, 4 * ny - nd::u8() as usize % 4 * (nd::u8() % 2) as usize);
    let data = rand_data(8 * nx * ny);
    let mut img = vec![0x1234_5678u32; w * h];
    let r = t::decode_pvrtc(&data, w, h, &mut img, two);
    assert!(r.is_ok(), "{w}x{h}: {r:?}");
    let blk = |x: usize, y: usize| {
        let p = 8 * s::position(x % nx, y % ny, nx, ny);
        u64::from_le_bytes(data[p..p + 8].try_into().unwrap())
    };
    for by in 0..ny {
        for bx in 0..nx {
            let nb: [u64; 9] = core::array::from_fn(|i| blk(bx + nx + i % 3 - 1, by + ny + i / 3 - 1));
            for y in 4 * by..(4 * by + 4).min(h) {
                for x in bw * bx..(bw * bx + bw).min(w) {
                    let want = s::texel(&nb, two, x - bw * bx, y - 4 * by);
                    let got = img[y * w + x];
                    assert!(got == want, "{w}x{h}: texel ({x},{y}) is {got:08x}, the format gives {want:08x}");
                }
            }
        }
    }
}

native_obligations! {
    "P16" fn pvrtc4_image() { image(false) }
    "P17" fn pvrtc2_image() { image(true) }
    "P18" fn pvrtc_layout() {
        let two = nd::bool();
        let bw = if two { 8usize } else { 4 };
        // every block has its own colour: only the layout matters
        let (nx, ny) = (1usize << (nd::u8() % 8), 1usize << (nd::u8() % 8));
        nd::assume(nx * ny <= 4096);
        let (w, h) = (bw * nx - nd::u8() as usize % bw * (nd::u8() % 2) as usize, 4 * ny - nd::u8() as usize % 4 * (nd::u8() % 2) as usize);
        let data = rand_data(8 * nx * ny + (nd::u8() & 3) as usize);
        let mut img = vec![0x1234_5678u32; w * h + 3];
        t::decode_pvrtc(&data, w, h, &mut img, two).unwrap();
        assert!(img[w * h..] == [0x1234_5678; 3], "entries after the image changed");
        let blk = |x: usize, y: usize| {
            let p = 8 * s::position(x % nx, y % ny, nx, ny);
            u64::from_le_bytes(data[p..p + 8].try_into().unwrap())
        };
        for _ in 0..8 {
            let (bx, by) = (nd::u16() as usize % nx, nd::u16() as usize % ny);
            let nb: [u64; 9] = core::array::from_fn(|i| blk(bx + nx + i % 3 - 1, by + ny + i / 3 - 1));
            for y in 4 * by..(4 * by + 4).min(h) {
                for x in bw * bx..(bw * bx + bw).min(w) {
                    assert!(img[y * w + x] == s::texel(&nb, two, x - bw * bx, y - 4 * by), "{w}x{h}: texel ({x},{y}) is not from its block");
                }
            }
        }
    }
    "P18" fn pvrtc_errors() {
        let two = nd::bool();
        let bw = if two { 8usize } else { 4 };
        let c = super::image::case(bw, 4, 8, if two { |d, w, h, i| t::decode_pvrtc(d, w, h, i, true) } else { |d, w, h, i| t::decode_pvrtc(d, w, h, i, false) });
        let (nx, ny) = (c.w.div_ceil(bw), c.h.div_ceil(4));
        let ok = c.need <= c.data.len() as u128 && c.area <= c.before.len() as u128 && nx.count_ones() == 1 && ny.count_ones() == 1;
        match c.res {
            None => panic!("{}x{} with {} bytes, {} entries: panics", c.w, c.h, c.data.len(), c.before.len()),
            Some(r) => {
                assert!(r.is_ok() == ok, "{}x{} with {} bytes, {} entries: {r:?}", c.w, c.h, c.data.len(), c.before.len());
                assert!(r.is_ok() || c.image == c.before, "{}x{}: an error, but the image buffer changed", c.w, c.h);
            }
        }
        let a = c.area.min(c.image.len() as u128) as usize;
        assert!(c.image[a..] == c.before[a..], "{}x{}: entries after the image changed", c.w, c.h);
    }
}
