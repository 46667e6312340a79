//@top
#[derive(Clone, Copy)]
pub struct PVRTCTexelInfo { pub p: u8 }
/// what the block functions store: the colours and the modulation of one block
pub uninterp spec fn cols(i: PVRTCTexelInfo) -> int;
pub uninterp spec fn wts(i: PVRTCTexelInfo) -> int;
pub uninterp spec fn colspec(d: Seq<u8>) -> int;
pub uninterp spec fn wspec(d: Seq<u8>, two: bool) -> int;
/// texels of a block from the colours and modulations of its 3x3 neighbourhood
pub uninterp spec fn apix(two: bool, c: Seq<int>, w: Seq<int>) -> Seq<u32>;
/// position of block (x, y) in the data
pub uninterp spec fn mort(x: int, y: int, m: int) -> int;
pub uninterp spec fn pow2(n: int) -> bool;
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub axiom fn mort_bound(x: int, y: int, nx: int, ny: int)
    requires pow2(nx), pow2(ny), 0 <= x < nx, 0 <= y < ny, nx * ny < 0x1000_0000_0000_0000
    ensures 0 <= mort(x, y, imin(nx, ny)) < nx * ny;
pub axiom fn pow2_pos(n: int) ensures pow2(n) ==> n >= 1;
#[verifier::external_body]
fn morton_index(x: usize, y: usize, min_dim: usize) -> (r: usize)
    requires pow2(min_dim as int)
    ensures r == mort(x as int, y as int, min_dim as int)
{ unimplemented!() }
impl PVRTCTexelInfo { #[verifier::external_body] const fn default() -> Self { unimplemented!() } }
pub assume_specification [ usize::is_power_of_two ] (n: usize) -> (r: bool) ensures r == pow2(n as int);
#[verifier::external_body]
fn get_texel_colors(data: &[u8], info: &mut PVRTCTexelInfo)
    requires data@.len() >= 8
    ensures cols(*final(info)) == colspec(data@.subrange(0, 8)), wts(*final(info)) == wts(*old(info))
{ unimplemented!() }
#[verifier::external_body]
fn get_texel_weights_2bpp(data: &[u8], info: &mut PVRTCTexelInfo)
    requires data@.len() >= 8
    ensures wts(*final(info)) == wspec(data@.subrange(0, 8), true), cols(*final(info)) == cols(*old(info))
{ unimplemented!() }
#[verifier::external_body]
fn get_texel_weights_4bpp(data: &[u8], info: &mut PVRTCTexelInfo)
    requires data@.len() >= 8
    ensures wts(*final(info)) == wspec(data@.subrange(0, 8), false), cols(*final(info)) == cols(*old(info))
{ unimplemented!() }
#[verifier::external_body]
fn applicate_color_2bpp(_data: &[u8], info: &mut [PVRTCTexelInfo; 9], buf: &mut [u32; 32])
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] final(buf)@[i] == apix(true, Seq::new(9, |k: int| cols(old(info)@[k])), Seq::new(9, |k: int| wts(old(info)@[k])))[i]
{ unimplemented!() }
#[verifier::external_body]
fn applicate_color_4bpp(_data: &[u8], info: &mut [PVRTCTexelInfo; 9], buf: &mut [u32; 32])
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] final(buf)@[i] == apix(false, Seq::new(9, |k: int| cols(old(info)@[k])), Seq::new(9, |k: int| wts(old(info)@[k])))[i]
{ unimplemented!() }
pub open spec fn wrap(b: int, d: int, n: int) -> int { if b + d < 0 { n - 1 } else if b + d >= n { 0 } else { b + d } }
pub open spec fn at(data: Seq<u8>, p: int) -> Seq<u8> { data.subrange(p * 8, p * 8 + 8) }
/// the block at neighbour k (row by row) of block (bx, by)
pub open spec fn nb(data: Seq<u8>, bx: int, by: int, nx: int, ny: int, k: int) -> Seq<u8> {
    at(data, mort(wrap(bx, k % 3 - 1, nx), wrap(by, k / 3 - 1, ny), imin(nx, ny)))
}
pub open spec fn block(data: Seq<u8>, two: bool, bx: int, by: int, nx: int, ny: int) -> Seq<u32> {
    apix(two, Seq::new(9, |k: int| colspec(nb(data, bx, by, nx, ny, k))), Seq::new(9, |k: int| wspec(nb(data, bx, by, nx, ny, k), two)))
}
pub open spec fn tx(data: Seq<u8>, two: bool, bw: int, nx: int, ny: int, x: int, y: int) -> u32 {
    block(data, two, x / bw, y / 4, nx, ny)[(y % 4) * bw + x % bw]
}
pub open spec fn filled(data: Seq<u8>, two: bool, t: Seq<PVRTCTexelInfo>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> cols(#[trigger] t[i]) == colspec(at(data, i)) && wts(t[i]) == wspec(at(data, i), two)
}
//@contract
    ensures
        final(image)@.len() == old(image)@.len(),
        r is Ok <==> data@.len() >= nblocks(width as int, if is2bpp { 8 } else { 4 }) * nblocks(height as int, 4) * 8 && old(image)@.len() >= width * height && pow2(nblocks(width as int, if is2bpp { 8 } else { 4 })) && pow2(nblocks(height as int, 4)), // P18
        r is Err ==> final(image)@ == old(image)@, // P18
        r is Ok ==> forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] final(image)@[i] == old(image)@[i], // P18
        r is Ok ==> forall|x: int, y: int| 0 <= x < width && 0 <= y < height ==> #[trigger] final(image)@[ix(width as int, x, y)] == tx(data@, is2bpp, if is2bpp { 8 } else { 4 }, nblocks(width as int, if is2bpp { 8 } else { 4 }), nblocks(height as int, 4), x, y), // P16 P17 P18
//@start
    proof {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, 4);
        nblocks_facts(width as int, 8);
        nblocks_facts(height as int, 4);
        let a = nblocks(width as int, if is2bpp { 8 } else { 4 });
        let b = nblocks(height as int, 4);
        assert(0 <= a * b) by (nonlinear_arith) requires a >= 0, b >= 0;
        pow2_pos(a);
        pow2_pos(b);
        assert(0 * a == 0) by (nonlinear_arith);
    }
//@loop
    invariant
        num_blocks == num_blocks_x * num_blocks_y, num_blocks * 8 <= data@.len(), texel_info@.len() == num_blocks,
        data_offset == texel_info_i * 8, texel_info_n == num_blocks,
        filled(data@, is2bpp, texel_info@, texel_info_i as int),
//@begin
    let ghost prev = texel_info@;
    proof {
        slice_limit(data);
        assert(data@.subrange(data_offset as int, data@.len() as int).subrange(0, 8) =~= at(data@, texel_info_i as int));
    }
//@loop
    invariant
        block_width == (if is2bpp { 8int } else { 4int }),
        num_blocks_x == nblocks(width as int, block_width as int), num_blocks_y == nblocks(height as int, 4), num_blocks == num_blocks_x * num_blocks_y,
        pow2(num_blocks_x as int), pow2(num_blocks_y as int), min_num_blocks == imin(num_blocks_x as int, num_blocks_y as int),
        num_blocks * 8 <= data@.len(), texel_info@.len() == num_blocks, filled(data@, is2bpp, texel_info@, num_blocks as int),
        width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        forall|x: int, y: int| 0 <= x < width && 0 <= y < height && y < by * 4 ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, is2bpp, block_width as int, num_blocks_x as int, num_blocks_y as int, x, y), // P16 P17 P18
        forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i], // P18
//@begin
    proof {
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, 4);
        assert(by * 4 < height);
        assert(0 * block_width == 0);
    }
//@end
    proof {
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, 4);
    }
//@loop
    invariant
        block_width == (if is2bpp { 8int } else { 4int }), by < num_blocks_y, by * 4 < height,
        num_blocks_x == nblocks(width as int, block_width as int), num_blocks_y == nblocks(height as int, 4), num_blocks == num_blocks_x * num_blocks_y,
        pow2(num_blocks_x as int), pow2(num_blocks_y as int), min_num_blocks == imin(num_blocks_x as int, num_blocks_y as int),
        num_blocks * 8 <= data@.len(), texel_info@.len() == num_blocks, filled(data@, is2bpp, texel_info@, num_blocks as int),
        width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        forall|k: int| 0 <= k < 3 ==> #[trigger] pos_y@[k] == wrap(by as int, k - 1, num_blocks_y as int),
        forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * 4 || y < (by + 1) * 4 && x < bx * block_width) ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, is2bpp, block_width as int, num_blocks_x as int, num_blocks_y as int, x, y), // P16 P17 P18
        forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i], // P18
//@begin
    let ghost before = image@;
    proof {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, 4);
        assert(bx * block_width < width);
        assert(width <= width * height) by (nonlinear_arith) requires height >= 1, width >= 0;
        assert(height <= width * height) by (nonlinear_arith) requires width >= 1, height >= 0;
    }
//@end
    proof {
        assert((bx + 1) * block_width == bx * block_width + block_width) by (nonlinear_arith);
        let lc = Seq::new(9, |k: int| cols(used[k]));
        let lw = Seq::new(9, |k: int| wts(used[k]));
        assert(lc =~= Seq::new(9, |k: int| colspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k))));
        assert(lw =~= Seq::new(9, |k: int| wspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k), is2bpp)));
        assert(forall|i: int| 0 <= i < block_width * 4 ==> #[trigger] buffer@[i] == block(data@, is2bpp, bx as int, by as int, num_blocks_x as int, num_blocks_y as int)[i]); // P16 P17 P18
        assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * 4 || y < (by + 1) * 4 && x < (bx + 1) * block_width) implies #[trigger] image@[ix(width as int, x, y)] == tx(data@, is2bpp, block_width as int, num_blocks_x as int, num_blocks_y as int, x, y) by { // P16 P17 P18
            if bx * block_width <= x < (bx + 1) * block_width && by * 4 <= y < (by + 1) * 4 {
                locate(block_width as int, bx as int, x); locate(4, by as int, y);
                assert(0 <= (y - by * 4) * block_width + (x - bx * block_width) < block_width * 4) by (nonlinear_arith) requires bx * block_width <= x < bx * block_width + block_width, by * 4 <= y < (by + 1) * 4, block_width >= 1;
            } else {
                assert(before[ix(width as int, x, y)] == tx(data@, is2bpp, block_width as int, num_blocks_x as int, num_blocks_y as int, x, y)); // P16 P17 P18
            }
        }
    }
//@loop for:usize
    invariant
        c == cy * 3, by < num_blocks_y, bx < num_blocks_x,
        num_blocks == num_blocks_x * num_blocks_y, num_blocks * 8 <= data@.len(),
        pow2(num_blocks_x as int), pow2(num_blocks_y as int), min_num_blocks == imin(num_blocks_x as int, num_blocks_y as int),
        texel_info@.len() == num_blocks, filled(data@, is2bpp, texel_info@, num_blocks as int),
        forall|k: int| 0 <= k < 3 ==> #[trigger] pos_y@[k] == wrap(by as int, k - 1, num_blocks_y as int),
        forall|k: int| 0 <= k < 3 ==> #[trigger] pos_x@[k] == wrap(bx as int, k - 1, num_blocks_x as int),
        forall|k: int| 0 <= k < cy * 3 ==> cols(#[trigger] local_info@[k]) == colspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k))
            && wts(local_info@[k]) == wspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k), is2bpp), // P16 P17 P18
//@after
    let ghost used = local_info@;
    proof {
        slice_limit(data);
        mort_bound(bx as int, by as int, num_blocks_x as int, num_blocks_y as int);
    }
//@loop for:usize
    invariant
        cy < 3, c == cy * 3 + cx, by < num_blocks_y, bx < num_blocks_x,
        num_blocks == num_blocks_x * num_blocks_y, num_blocks * 8 <= data@.len(),
        pow2(num_blocks_x as int), pow2(num_blocks_y as int), min_num_blocks == imin(num_blocks_x as int, num_blocks_y as int),
        texel_info@.len() == num_blocks, filled(data@, is2bpp, texel_info@, num_blocks as int),
        forall|k: int| 0 <= k < 3 ==> #[trigger] pos_y@[k] == wrap(by as int, k - 1, num_blocks_y as int),
        forall|k: int| 0 <= k < 3 ==> #[trigger] pos_x@[k] == wrap(bx as int, k - 1, num_blocks_x as int),
        forall|k: int| 0 <= k < c ==> cols(#[trigger] local_info@[k]) == colspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k))
            && wts(local_info@[k]) == wspec(nb(data@, bx as int, by as int, num_blocks_x as int, num_blocks_y as int, k), is2bpp), // P16 P17 P18
//@begin
    proof {
        slice_limit(data);
        assert(c % 3 == cx && c / 3 == cy);
        mort_bound(pos_x@[cx as int] as int, pos_y@[cy as int] as int, num_blocks_x as int, num_blocks_y as int);
    }
