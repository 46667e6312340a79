// Shared specification of the image drivers.
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::arithmetic::div_mod::{lemma_fundamental_div_mod, lemma_fundamental_div_mod_converse};
verus! {
global size_of usize == 8;

// --- contracts of library functions (trusted; documented behaviour of core) ---
pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == nblocks(a as int, b as int);

/// A slice of a non-zero-sized type holds fewer than 2^63 entries.
pub axiom fn slice_limit<T>(s: &[T])
    ensures s@.len() < 0x8000_0000_0000_0000;
pub axiom fn seq_limit<T>(s: Seq<T>)
    ensures s.len() < 0x8000_0000_0000_0000;

/// number of blocks that cover `n` texels
pub open spec fn nblocks(n: int, b: int) -> int { (n + b - 1) / b }

/// position of texel (x, y) in an image of width w
pub open spec fn ix(w: int, x: int, y: int) -> int { y * w + x }

/// texel (x, y) of the image the blocks describe.  `blk(d)` are the texels of block d.
pub open spec fn texel(blk: spec_fn(Seq<u8>) -> Seq<u32>, data: Seq<u8>, w: int, bw: int, bh: int, size: int, x: int, y: int) -> u32 {
    let o = (y / bh * nblocks(w, bw) + x / bw) * size;
    blk(data.subrange(o, o + size))[(y % bh) * bw + x % bw]
}

pub proof fn nblocks_facts(n: int, b: int)
    requires n >= 0, b >= 1
    ensures
        nblocks(n, b) >= 0,
        nblocks(n, b) * b >= n,
        forall|k: int| 0 <= k < nblocks(n, b) ==> #[trigger] (k * b) < n,
        nblocks(n, b) <= n,
{
    let q = nblocks(n, b);
    lemma_fundamental_div_mod(n + b - 1, b);
    assert(0 <= (n + b - 1) % b < b);
    assert(b * q == q * b) by (nonlinear_arith);
    assert(q * b <= n + b - 1 && n + b - 1 < q * b + b);
    assert(q >= 0) by (nonlinear_arith) requires n + b - 1 < q * b + b, n >= 0, b >= 1;
    assert(q <= n) by (nonlinear_arith) requires q * b <= n + b - 1, n >= 0, b >= 1;
    assert forall|k: int| 0 <= k < q implies #[trigger] (k * b) < n by {
        assert(k * b < n) by (nonlinear_arith) requires k + 1 <= q, q * b <= n + b - 1, b >= 1;
    }
}

pub proof fn mul_le(a: int, b: int, c: int)
    requires 0 <= a <= b, 0 <= c
    ensures 0 <= a * c <= b * c
{
    assert(0 <= a * c <= b * c) by (nonlinear_arith) requires 0 <= a <= b, 0 <= c;
}

/// rows do not overlap
pub proof fn rows(w: int, x: int, y: int, y2: int)
    requires 0 <= x < w
    ensures
        y < y2 ==> ix(w, x, y) < y2 * w,
        y > y2 ==> ix(w, x, y) >= (y2 + 1) * w,
        (y2 + 1) * w == y2 * w + w,
{
    assert((y2 + 1) * w == y2 * w + w) by (nonlinear_arith);
    if y < y2 {
        assert(y * w + x < y2 * w) by (nonlinear_arith) requires y + 1 <= y2, 0 <= x < w;
    }
    if y > y2 {
        assert(y * w + x >= (y2 + 1) * w) by (nonlinear_arith) requires y >= y2 + 1, 0 <= x < w;
    }
}

/// texels lie inside the image
pub proof fn inside(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h
    ensures 0 <= ix(w, x, y) < w * h
{
    assert(0 <= y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y, y + 1 <= h;
}

/// the block and the position in it of a texel of block (bx, by)
pub proof fn locate(b: int, k: int, x: int)
    requires b >= 1, k * b <= x < (k + 1) * b
    ensures x / b == k, x % b == x - k * b
{
    assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(x, b, k, x - k * b);
}

} // verus!
verus! {
/// a pixel word: bytes B, G, R, A in little-endian order
pub open spec fn color_of(r: u8, g: u8, b: u8, a: u8) -> u32 { ((b as int) + 256 * (g as int) + 65536 * (r as int) + 16777216 * (a as int)) as u32 }
}
