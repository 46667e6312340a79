BUGS = {
"p04-equal-endpoints": dict(property="P04",
  edits=[("src/bcn/bc1.rs", "if use_alpha { 0 } else { 255 }", "if use_alpha || q0 == q1 { 0 } else { 255 }")],
  demo='fn main(){ blk(t::decode_bc1_block,&[0x34,0x12,0x34,0x12,0xff,0xe4,0,0x1b]); blk(t::decode_bc1a_block,&[0x34,0x12,0x34,0x12,0xff,0xe4,0,0x1b]); }',
  needs="a block whose two end points are equal and a texel with index 3",
  what="a BC1 block with equal end points gets a transparent texel, although BC1 without alpha is opaque"),
"p05-alpha-rounding": dict(property="P05",
  edits=[("src/bcn/bc3.rs", "a[4] = (a[0] * 2 + a[1] * 3) / 5;", "a[4] = (a[0] * 2 + a[1] * 3 + 2) / 5;")],
  demo='fn main(){ for a in 0..255u8 { blk(t::decode_bc3_block,&[a,a|3,0x44,0x92,0x24,0x49,0x92,0x24,1,2,3,4,5,6,7,8]); } }',
  needs="six-step mode (alpha0 <= alpha1) and alpha index 4",
  what="one of the six-step alpha values is rounded instead of truncated"),
"p06-last-index": dict(property="P06",
  edits=[("src/bcn/bc3.rs", "(u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize", "(u64::from_le_bytes(data[..8].try_into().unwrap()) << 1 >> 17) as usize")],
  demo='fn main(){ blk(t::decode_bc4_block,&[9,200,1,2,3,4,5,0xf0]); blk(t::decode_bc5_block,&[200,9,1,2,3,4,5,0xf0,9,1,1,2,3,4,5,0x80]); }',
  needs="a block whose last texel has an index with its top bit set",
  what="the index of the last texel loses its top bit"),
}
