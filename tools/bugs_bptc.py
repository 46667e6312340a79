LOOP = '''fn main(){ let mut r=R(%d); for k in 0..%d { let mut d=r.bytes(16); %s blk(%s,&d); } }'''
BUGS = {
"p09-third-subset-anchor": dict(property="P09",
  edits=[("src/bcn/consts.rs", "15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3,\n        15, 6, 10, 15, 15, 10, 8, 15, 3,", "15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3,\n        15, 6, 10, 15, 15, 10, 8, 15, 15,")],
  demo=LOOP % (3, 400, "d[0]=4|((33&0x1f)<<3); d[1]=(d[1]&0xfe)|1;", "t::decode_bc7_block"),
  needs="a mode 2 block with partition 33", what="the anchor texel of the third subset of one partition is misplaced"),
"p09-rotation-selection": dict(property="P09",
  edits=[("src/bcn/bc7.rs", "                3 => {\n                    swap(&mut aa, &mut bb);", "                3 if index_selection_mode == 0 => {\n                    swap(&mut aa, &mut bb);")],
  demo=LOOP % (5, 400, "d[0]=0x10|(k as u8 &7)<<5;", "t::decode_bc7_block"),
  needs="a mode 4 block with rotation 3 and the index selection bit set", what="alpha and blue are not swapped"),
"p07-mode12-delta": dict(property="P07",
  edits=[("src/bcn/bc6.rs", "                ep_g[1] |= bit.read(8);\n                ep_g[0] |= bit.read(1) << 11;\n                ep_g[0] |= bit.read(1) << 10;", "                ep_g[1] |= bit.read(8);\n                ep_g[0] |= bit.read(1) << 10;\n                ep_g[0] |= bit.read(1) << 11;")],
  demo=LOOP % (7, 400, "d[0]=(d[0]&0xe0)|11;", "t::decode_bc6_block_unsigned"),
  needs="a mode 12 (01011) block whose two high green bits differ", what="the top bits of the green end point are exchanged"),
"p08-saturated-endpoint": dict(property="P08",
  edits=[("src/bcn/bc6.rs", "} else if _value >= max_value - 1 {", "} else if _value >= max_value {")],
  demo='''fn main(){ let mut r=R(9); for k in 0..2000u32 { let mut d=r.bytes(16); d[0]=(d[0]&0xe0)|3;
   // red end point 0 = 0x1ff, the largest positive one; the second one is zero
   let mut v=u128::from_le_bytes(d[..].try_into().unwrap());
   v&=!(0x3ffu128<<5); v|=0x1ffu128<<5; v&=!(0x3ffu128<<35); blk(t::decode_bc6_block_signed,&v.to_le_bytes()); } }''',
  needs="a signed block with the largest positive end point, mixed with a small one", what="the largest signed end point no longer saturates to 0x7fff"),
}
