//@top
pub uninterp spec fn blk(d: Seq<u8>) -> Seq<u32>;
pub open spec fn kept(s: Seq<u32>) -> bool { @KEPT@ }
[P31] pub open spec fn opaque(c: u32) -> bool { c & 0xff000000u32 == 0xff000000u32 }
pub open spec fn tx(data: Seq<u8>, w: int, x: int, y: int) -> u32 { texel(|d: Seq<u8>| blk(d), data, w, @BW@, @BH@, @SIZE@, x, y) }
#[verifier::external_body]
fn @CALLEE@(data: &[u8], outbuf: &mut [u32])
    requires data@.len() >= @SIZE@, old(outbuf)@.len() == @BW@ * @BH@, kept(old(outbuf)@)
    ensures final(outbuf)@.len() == old(outbuf)@.len(), kept(final(outbuf)@),
        [P31] forall|i: int| 0 <= i < @BW@ * @BH@ ==> opaque(#[trigger] final(outbuf)@[i]),
        forall|i: int| 0 <= i < @BW@ * @BH@ ==> #[trigger] final(outbuf)@[i] == blk(data@.subrange(0, @SIZE@))[i]
{ unimplemented!() }
//@contract
    ensures
        [P01][P02][P31] final(image)@.len() == old(image)@.len(),
        [P03] r is Ok <==> data@.len() >= nblocks(width as int, @BW@) * nblocks(height as int, @BH@) * @SIZE@ && old(image)@.len() >= width * height,
        [P02] r is Err ==> final(image)@ == old(image)@,
        [P02] r is Ok ==> forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] final(image)@[i] == old(image)@[i],
        [P01] r is Ok ==> forall|x: int, y: int| 0 <= x < width && 0 <= y < height ==> #[trigger] final(image)@[ix(width as int, x, y)] == tx(data@, width as int, x, y),
        [P31] r is Ok ==> forall|x: int, y: int| 0 <= x < width && 0 <= y < height ==> opaque(#[trigger] final(image)@[ix(width as int, x, y)]),
//@start
    proof {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, @BW@);
        nblocks_facts(height as int, @BH@);
        let a = nblocks(width as int, @BW@);
        let b = nblocks(height as int, @BH@);
        assert(0 <= a * b) by (nonlinear_arith) requires a >= 0, b >= 0;
        assert(color_of(0, 0, 0, 255) == 0xff000000u32) by (compute);
        assert(0xff000000u32 & @KEEP@u32 == @KEEP@u32 & 0xff000000u32) by (bit_vector);
        @KEEPPROOF@
        assert(0 * a == 0) by (nonlinear_arith);
    }
//@loop
    invariant
        num_blocks_x == nblocks(width as int, @BW@), num_blocks_y == nblocks(height as int, @BH@),
        num_blocks_x * num_blocks_y * @SIZE@ <= data@.len(), width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        data_offset == by * num_blocks_x * @SIZE@, buffer@.len() == @BW@ * @BH@, kept(buffer@),
        [P01] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && y < by * @BH@ ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, x, y),
        [P31] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && y < by * @BH@ ==> opaque(#[trigger] image@[ix(width as int, x, y)]),
        [P02] forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i],
//@begin
    proof {
        nblocks_facts(width as int, @BW@);
        nblocks_facts(height as int, @BH@);
        assert(by * @BH@ < height);
        assert(by * num_blocks_x * @SIZE@ == (by * num_blocks_x + 0) * @SIZE@);
        assert(0 * @BW@ == 0);
    }
//@end
    proof {
        assert(by * num_blocks_x + num_blocks_x == (by + 1) * num_blocks_x) by (nonlinear_arith);
        nblocks_facts(width as int, @BW@);
        nblocks_facts(height as int, @BH@);
    }
//@loop
    invariant
        by < num_blocks_y, by * @BH@ < height,
        num_blocks_x == nblocks(width as int, @BW@), num_blocks_y == nblocks(height as int, @BH@),
        num_blocks_x * num_blocks_y * @SIZE@ <= data@.len(), width * height <= old(image)@.len(), image@.len() == old(image)@.len(),
        data_offset == (by * num_blocks_x + bx) * @SIZE@, buffer@.len() == @BW@ * @BH@, kept(buffer@),
        [P01] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * @BH@ || y < (by + 1) * @BH@ && x < bx * @BW@) ==> #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, x, y),
        [P31] forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * @BH@ || y < (by + 1) * @BH@ && x < bx * @BW@) ==> opaque(#[trigger] image@[ix(width as int, x, y)]),
        [P02] forall|i: int| width * height <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i],
//@begin
    let ghost off = data_offset as int;
    let ghost before = image@;
    proof {
        slice_limit(data);
        seq_limit(image@);
        nblocks_facts(width as int, @BW@);
        nblocks_facts(height as int, @BH@);
        assert(bx * @BW@ < width);
        assert(width <= width * height) by (nonlinear_arith) requires height >= 1, width >= 0;
        assert(height <= width * height) by (nonlinear_arith) requires width >= 1, height >= 0;
        assert(by * num_blocks_x + bx + 1 <= num_blocks_x * num_blocks_y) by (nonlinear_arith) requires bx + 1 <= num_blocks_x, by + 1 <= num_blocks_y, by >= 0, bx >= 0;
        assert(data@.subrange(off, data@.len() as int).subrange(0, @SIZE@) =~= data@.subrange(off, off + @SIZE@));
    }
//@end
    proof {
        [P01] assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * @BH@ || y < (by + 1) * @BH@ && x < (bx + 1) * @BW@) implies #[trigger] image@[ix(width as int, x, y)] == tx(data@, width as int, x, y) by { if bx * @BW@ <= x < (bx + 1) * @BW@ && by * @BH@ <= y < (by + 1) * @BH@ { locate(@BW@, bx as int, x); locate(@BH@, by as int, y); assert(0 <= (y - by * @BH@) * @BW@ + (x - bx * @BW@) < @BW@ * @BH@) by (nonlinear_arith) requires bx * @BW@ <= x < (bx + 1) * @BW@, by * @BH@ <= y < (by + 1) * @BH@; } else { assert(before[ix(width as int, x, y)] == tx(data@, width as int, x, y)); } }
        [P31] assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height && (y < by * @BH@ || y < (by + 1) * @BH@ && x < (bx + 1) * @BW@) implies opaque(#[trigger] image@[ix(width as int, x, y)]) by { if bx * @BW@ <= x < (bx + 1) * @BW@ && by * @BH@ <= y < (by + 1) * @BH@ { locate(@BW@, bx as int, x); locate(@BH@, by as int, y); assert(0 <= (y - by * @BH@) * @BW@ + (x - bx * @BW@) < @BW@ * @BH@) by (nonlinear_arith) requires bx * @BW@ <= x < (bx + 1) * @BW@, by * @BH@ <= y < (by + 1) * @BH@; } else { assert(opaque(before[ix(width as int, x, y)])); } }
    }
