//! PVRTC (first generation), after the published format description: two colour
//! planes at a quarter (4bpp) or an eighth by a quarter (2bpp) of the
//! resolution, upscaled bilinearly with the block centre at (2,2) or (4,2), and
//! a modulation value per texel.  A block is a 64-bit little-endian word.

/// colour plane entry: 5:5:5:4, channel order r, g, b, a
pub fn plane(b: u64, second: bool) -> [u32; 4] {
    let c = (if second { b >> 48 } else { b >> 32 }) as u32 & 0xffff;
    let blue_bits = if second { 5 } else { 4 };
    if c >> 15 == 1 {
        let blue = if blue_bits == 5 { c & 31 } else { let v = c >> 1 & 15; v << 1 | v >> 3 };
        [c >> 10 & 31, c >> 5 & 31, blue, 15]
    } else {
        let four = |v: u32| v << 1 | v >> 3;
        let blue = if second { four(c & 15) } else { let v = c >> 1 & 7; v << 2 | v >> 1 };
        [four(c >> 8 & 15), four(c >> 4 & 15), blue, (c >> 12 & 7) << 1]
    }
}

/// the modulation a block stores for a texel: eighths of the second colour.
/// In the interpolating 2bpp mode only texels with even x+y are stored.
pub fn stored(b: u64, two: bool, x: usize, y: usize) -> u32 {
    let m = b as u32;
    let mode = b >> 32 & 1 == 1;
    if !two {
        let v = (m >> (2 * (4 * y + x)) & 3) as usize;
        return if mode { [0, 4, 4, 8][v] } else { [0, 3, 5, 8][v] };
    }
    if !mode {
        return if m >> (8 * y + x) & 1 == 1 { 8 } else { 0 };
    }
    let k = 2 * (4 * y + x / 2);
    let mut v = m >> k & 3;
    // the low bits of the first texel, and of the centre texel when the first
    // one's is set, are flags; the high bit then stands for both
    let flag = k == 0 || (k == 20 && m & 1 == 1);
    if flag {
        v = if v & 2 != 0 { 3 } else { 0 };
    }
    [0, 3, 5, 8][v as usize]
}

/// modulation of texel (x, y) of the centre block of nb (row by row)
pub fn modulation(nb: &[u64; 9], two: bool, x: usize, y: usize) -> u32 {
    let b = nb[4];
    if !two || b >> 32 & 1 == 0 || (x + y) % 2 == 0 {
        return stored(b, two, x, y);
    }
    let at = |dx: isize, dy: isize| {
        let (px, py) = (x as isize + dx, y as isize + dy);
        let bx = (px + 8) / 8;
        let by = (py + 4) / 4;
        stored(nb[(by * 3 + bx) as usize], true, (px + 8) as usize % 8, (py + 4) as usize % 4)
    };
    let m = b as u32;
    if m & 1 == 0 {
        (at(-1, 0) + at(1, 0) + at(0, -1) + at(0, 1) + 2) / 4
    } else if m >> 20 & 1 == 1 {
        (at(0, -1) + at(0, 1) + 1) / 2
    } else {
        (at(-1, 0) + at(1, 0) + 1) / 2
    }
}

/// channel c of a colour plane at texel (x, y) of the centre block, 8 bits
pub fn upscaled(nb: &[u64; 9], two: bool, second: bool, c: usize, x: usize, y: usize) -> u32 {
    let w = if two { 8 } else { 4 };
    // the four nearest block centres: column/row cx, cy and the next
    let (cx, fx) = if x < w / 2 { (0, x + w / 2) } else { (1, x - w / 2) };
    let (cy, fy) = if y < 2 { (0, y + 2) } else { (1, y - 2) };
    let (fx, fy) = (fx as u32, fy as u32);
    let e = |i: usize, j: usize| plane(nb[(cy + j) * 3 + cx + i], second)[c];
    let w = w as u32;
    let v = (e(0, 0) * (w - fx) + e(1, 0) * fx) * (4 - fy) + (e(0, 1) * (w - fx) + e(1, 1) * fx) * fy;
    // v is the value times 16 (4bpp) or 32 (2bpp): widen to 8 bits
    let k = if two { 5 } else { 4 };
    if c == 3 {
        // four bits
        let s = k - 4;
        (v >> s) + (v >> (s + 4))
    } else {
        let s = k - 3;
        (v >> s) + (v >> (s + 5))
    }
}

pub fn texel(nb: &[u64; 9], two: bool, x: usize, y: usize) -> u32 {
    let m = modulation(nb, two, x, y);
    let punch = !two && nb[4] >> 32 & 1 == 1 && nb[4] as u32 >> (2 * (4 * y + x)) & 3 == 2;
    let mut p = [0u32; 4];
    for c in 0..4 {
        let a = upscaled(nb, two, false, c, x, y);
        let b = upscaled(nb, two, true, c, x, y);
        p[c] = (a * (8 - m) + b * m) / 8;
    }
    if punch {
        p[3] = 0;
    }
    p[2] | p[1] << 8 | p[0] << 16 | p[3] << 24
}

/// position of block (x, y) in the data: the bits of y and x interleaved, the
/// excess bits of the longer side on top
pub fn position(x: usize, y: usize, nx: usize, ny: usize) -> usize {
    let n = nx.min(ny).trailing_zeros();
    let mut p = 0;
    for k in 0..n {
        p |= (y >> k & 1) << (2 * k) | (x >> k & 1) << (2 * k + 1);
    }
    p | (x >> n | y >> n) << (2 * n)
}
