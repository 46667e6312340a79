//@top
pub uninterp spec fn ablk(d: Seq<u8>, bw: int, bh: int) -> Seq<u32>;
pub open spec fn tx(data: Seq<u8>, w: int, bw: int, bh: int, x: int, y: int) -> u32 { texel(|d: Seq<u8>| ablk(d, bw, bh), data, w, bw, bh, 16, x, y) }
#[verifier::external_body]
fn decode_astc_block(data: &[u8], block_width: usize, block_height: usize, outbuf: &mut [u32])
    requires data@.len() >= 16, block_width >= 1, block_height >= 1, block_width * block_height <= old(outbuf)@.len(), block_width * block_height <= 144
    ensures final(outbuf)@.len() == old(outbuf)@.len(),
        forall|i: int| 0 <= i < block_width * block_height ==> #[trigger] final(outbuf)@[i] == ablk(data@.subrange(0, 16), block_width as int, block_height as int)[i]
{ unimplemented!() }
//@contract
    ensures
        [P01][P02][P31] final(image)@.len() == old(image)@.len(),
        [P03] r is Ok <==> block_width >= 1 && block_height >= 1 && block_width * block_height <= 144 && data@.len() >= nblocks(width as int, block_width as int) * nblocks(height as int, block_height as int) * 16 && old(image)@.len() >= width * height,
        [P02] r is Err ==> final(image)@ == old(image)@,
        [P02] r is Ok ==> forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] final(image)@[i] == old(image)@[i],
        [P01] r is Ok ==> forall|x: int, y: int| 0 <= x < width && 0 <= y < height ==> #[trigger] final(image)@[ix(width as int, x, y)] == tx(data@, width as int, block_width as int, block_height as int, x, y),
//@start
    proof { if block_width >= 1 && block_height >= 1 {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, block_height as int);
        let a = nblocks(width as int, block_width as int);
        let b = nblocks(height as int, block_height as int);
        assert(0 <= a * b) by (nonlinear_arith) requires a >= 0, b >= 0;
        assert(0 * a == 0) by (nonlinear_arith);
        assert(0 * block_height == 0 && 0 * block_width == 0) by (nonlinear_arith);
    } }
//@loop
    invariant
        num_blocks_x == nblocks(width as int, block_width as int), num_blocks_y == nblocks(height as int, block_height as int),
        num_blocks_x * num_blocks_y * 16 <= data@.len(), width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        data_offset == by * num_blocks_x * 16, buffer@.len() == 144, block_width >= 1, block_height >= 1, block_width * block_height <= 144,
        [P01] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && y < by * block_height ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, block_width as int, block_height as int, x, y),
        [P02] forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i],
//@begin
    proof {
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, block_height as int);
        assert(by * block_height < height);
        assert(by * num_blocks_x * 16 == (by * num_blocks_x + 0) * 16);
        assert(0 * block_width == 0);
    }
//@end
    proof {
        assert(by * num_blocks_x + num_blocks_x == (by + 1) * num_blocks_x) by (nonlinear_arith);
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, block_height as int);
    }
//@loop
    invariant
        by < num_blocks_y, by * block_height < height,
        num_blocks_x == nblocks(width as int, block_width as int), num_blocks_y == nblocks(height as int, block_height as int),
        num_blocks_x * num_blocks_y * 16 <= data@.len(), width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        data_offset == (by * num_blocks_x + bx) * 16, buffer@.len() == 144, block_width >= 1, block_height >= 1, block_width * block_height <= 144,
        [P01] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * block_height || y < (by + 1) * block_height && x < bx * block_width) ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, block_width as int, block_height as int, x, y),
        [P02] forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i],
//@begin
    let ghost off = data_offset as int;
    let ghost before = image@;
    proof {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, block_width as int);
        nblocks_facts(height as int, block_height as int);
        assert(bx * block_width < width);
        mul_le(1, block_height as int, block_width as int);
        mul_le(1, block_width as int, block_height as int);
        assert(block_height * block_width == block_width * block_height) by (nonlinear_arith);
        assert(width <= width * height) by (nonlinear_arith) requires height >= 1, width >= 0;
        assert(height <= width * height) by (nonlinear_arith) requires width >= 1, height >= 0;
        assert(by * num_blocks_x + bx + 1 <= num_blocks_x * num_blocks_y) by (nonlinear_arith) requires bx + 1 <= num_blocks_x, by + 1 <= num_blocks_y, by >= 0, bx >= 0;
        assert(data@.subrange(off, data@.len() as int).subrange(0, 16) =~= data@.subrange(off, off + 16));
    }
//@end
    proof {
        assert((bx + 1) * block_width == bx * block_width + block_width) by (nonlinear_arith);
        assert((by + 1) * block_height == by * block_height + block_height) by (nonlinear_arith);
        assert((by * num_blocks_x + bx + 1) * 16 == (by * num_blocks_x + bx) * 16 + 16) by (nonlinear_arith);
        [P01] assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * block_height || y < (by + 1) * block_height && x < (bx + 1) * block_width) implies #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, block_width as int, block_height as int, x, y) by { if bx * block_width <= x < (bx + 1) * block_width && by * block_height <= y < (by + 1) * block_height { locate(block_width as int, bx as int, x); locate(block_height as int, by as int, y); assert(0 <= (y - by * block_height) * block_width + (x - bx * block_width) < block_width * block_height) by (nonlinear_arith) requires bx * block_width <= x < (bx + 1) * block_width, by * block_height <= y < (by + 1) * block_height; } else { assert(before[ix(width as int, x, y)] == tx(data@, width as int, block_width as int, block_height as int, x, y)); } }
    }
