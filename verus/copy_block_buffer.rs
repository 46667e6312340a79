//@fn copy_block_buffer
//@contract
    requires
        bw >= 1, bh >= 1, bx * bw < w, by * bh < h, w * h <= old(image)@.len(), bw * bh <= buffer@.len(),
        w + bw <= usize::MAX, h + bh <= usize::MAX,
    ensures
        final(image)@.len() == old(image)@.len(),
        forall|xx: int, yy: int| 0 <= xx < w && 0 <= yy < h ==> #[trigger] final(image)@[ix(w as int, xx, yy)] ==
            (if bx * bw <= xx < (bx + 1) * bw && by * bh <= yy < (by + 1) * bh { buffer@[(yy - by * bh) * bw + (xx - bx * bw)] }
             else { old(image)@[ix(w as int, xx, yy)] }),
        forall|i: int| w * h <= i < old(image)@.len() ==> #[trigger] final(image)@[i] == old(image)@[i],
//@start
    proof {
        assert((bx + 1) * bw == bx * bw + bw) by (nonlinear_arith);
        assert((by + 1) * bh == by * bh + bh) by (nonlinear_arith);
        assert(bw * (bx + 1) == (bx + 1) * bw) by (nonlinear_arith);
        assert(bh * (by + 1) == (by + 1) * bh) by (nonlinear_arith);
        assert(bw * bx == bx * bw) by (nonlinear_arith);
        assert(bx < w) by (nonlinear_arith) requires bx * bw < w, bw >= 1;
        assert(by < h) by (nonlinear_arith) requires by * bh < h, bh >= 1;
    }
//@loop
    invariant
        bw >= 1, bh >= 1, bx * bw < w, by * bh < h, w * h <= image@.len(), bw * bh <= buffer@.len(),
        (bx + 1) * bw == bx * bw + bw, (by + 1) * bh == by * bh + bh,
        image@.len() == old(image)@.len(),
        x == bx * bw, y_0 == by * bh,
        copy_width == (if bx * bw + bw > w { w - x } else { bw as int }),
        copy_height == (if by * bh + bh > h { h - y_0 } else { bh as int }),
        buffer_offset == (y - y_0) * bw,
        forall|xx: int, yy: int| 0 <= xx < w && 0 <= yy < h ==> #[trigger] image@[ix(w as int, xx, yy)] ==
            (if bx * bw <= xx < (bx + 1) * bw && by * bh <= yy < y { buffer@[(yy - by * bh) * bw + (xx - bx * bw)] }
             else { old(image)@[ix(w as int, xx, yy)] }),
        forall|i: int| w * h <= i < old(image)@.len() ==> #[trigger] image@[i] == old(image)@[i],
//@before
    proof { assert((y_0 - y_0) * bw == 0) by (nonlinear_arith); }
//@begin
    let ghost before = image@;
    proof {
        slice_limit(buffer);
        seq_limit(image@);
        mul_le(y + 1, h as int, w as int);
        mul_le(y as int, y + 1, w as int);
        mul_le(y - y_0 + 1, bh as int, bw as int);
        assert((y + 1) * w == y * w + w && (y - y_0 + 1) * bw == (y - y_0) * bw + bw) by (nonlinear_arith);
        assert(h * w == w * h && bh * bw == bw * bh) by (nonlinear_arith);
    }
//@end
    proof {
        assert forall|xx: int, yy: int| 0 <= xx < w && 0 <= yy < h implies #[trigger] image@[ix(w as int, xx, yy)] ==
            (if bx * bw <= xx < (bx + 1) * bw && by * bh <= yy < y + 1 { buffer@[(yy - by * bh) * bw + (xx - bx * bw)] }
             else { old(image)@[ix(w as int, xx, yy)] }) by {
            inside(w as int, h as int, xx, yy);
            rows(w as int, xx, yy, y as int);
            assert(image@[ix(w as int, xx, yy)] == before[ix(w as int, xx, yy)] || yy == y);
        }
    }
