//! Specification functions, written from the published format descriptions.
//! Nothing here calls the crate under verification.
pub mod atc;
pub mod bc6;
pub mod bc7;
pub mod bcn;
pub mod bptc;
pub mod etc;
pub mod pvrtc;

/// Pixel layout promised by the crate: little-endian bytes B, G, R, A.
#[inline(always)]
pub fn px(r: u32, g: u32, b: u32, a: u32) -> u32 {
    a << 24 | r << 16 | g << 8 | b
}

/// `n` bits of the little-endian bit string `d`, starting at bit `pos`.
#[inline(always)]
pub fn bits(d: &[u8], pos: usize, n: usize) -> u32 {
    let mut v = 0u32;
    let mut i = 0;
    while i < n {
        let p = pos + i;
        v |= ((d[p >> 3] >> (p & 7)) as u32 & 1) << i;
        i += 1;
    }
    v
}
