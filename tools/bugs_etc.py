BUGS = {
"p10-diff-blue-wrap": dict(property="P10",
  edits=[("src/etc/etc1.rs", "c[1][2] |= c[1][2] >> 5;\n    } else {", "c[1][2] |= c[0][2] >> 5;\n    } else {")],
  demo='fn main(){ blk(t::decode_etc1_block,&[0x81,0x82,0xfc,0x02,0x12,0x34,0x56,0x78]); blk(t::decode_etc1_block,&[0x81,0x82,0x24,0x03,0x12,0x34,0x56,0x78]); }',
  needs="a differential block whose two blue base colours differ in their top three bits",
  what="the second blue base colour is widened with the first one's top bits"),
"p11-h-ordering-tie": dict(property="P11",
  edits=[("src/etc/etc2.rs", "c[0][2] >= c[1][2])))", "c[0][2] > c[1][2])))")], nth=0,
  demo='fn main(){ let mut r=R(7); let mut k=0; while k<200000 { let mut d=r.bytes(8); d[3]|=2; let g=(d[1]>>3) as i32; let dg=((d[1]&7) as i32^4)-4; let rr=(d[0]>>3) as i32; let dr=((d[0]&7) as i32^4)-4; if (rr+dr<0||rr+dr>31)||!(g+dg<0||g+dg>31) {k+=1;continue;} let c0=[(d[0]>>3)&15,((d[0]&7)<<1)|((d[1]>>4)&1),(d[1]&8)|((d[1]<<1)&6)|(d[2]>>7)]; let c1=[(d[2]>>3)&15,((d[2]&7)<<1)|(d[3]>>7),(d[3]>>3)&15]; if c0==c1 { blk(t::decode_etc2_rgb_block,&d);} k+=1; } for g in [0x04u8,0x0c,0xfb,0xf3] { for r0 in 0..16u8 { let d0=(r0<<3)&0x78|((g>>4)&1); let c0=[(d0>>3)&15,((d0&7)<<1)|((g>>4)&1),(g&8)|((g<<1)&6)]; let d2=(c0[0]<<3)|(c0[1]>>1); let d3=(c0[1]<<7)|(c0[2]<<3)|2; blk(t::decode_etc2_rgb_block,&[d0,g,d2,d3,0x12,0x34,0x56,0x78]); } } }',
  needs="an H mode block whose two base colours are equal",
  what="the ordering bit of the distance index is wrong when the two colours are equal"),
"p12-t-transparent": dict(property="P12",
  edits=[("src/etc/etc2.rs", "            let index = (k & 2) | (j & 1);\n            outbuf[WRITE_ORDER_TABLE[i]] = color_set[index];\n            if !obaq && index == 2 {", "            let index = (k & 2) | (j & 1);\n            outbuf[WRITE_ORDER_TABLE[i]] = color_set[index];\n            if !obaq && d != 3 && index == 2 {")],
  demo='fn main(){ for dd in 0..16u8 { blk(t::decode_etc2_rgba1_block,&[0xf9|7,0x12,0x34,0x50|(dd&0xd),0xff,0x0f,0,0xf0]); } for dd in 0..16u8 { blk(t::decode_etc2_rgba1_block,&[0x04,0x12,0x34,0x50|(dd&0xd),0xff,0x0f,0,0xf0]); } }',
  needs="a T mode block without the opaque bit and with the smallest distance",
  what="the transparent entry is drawn opaque for one distance"),
"p13-alpha-multiplier": dict(property="P13",
  edits=[("src/etc/etc2.rs", "let multiplier: i32 = (data[1] >> 4) as i32;", "let multiplier: i32 = (data[1] >> 4 & !((data[0] & 0x80) >> 4)) as i32;")],
  demo='fn main(){ for b in [0x10u8,0x7f,0x80,0xc0] { for m in 1..16u8 { blk(t::decode_etc2_rgba8_block,&[b,m<<4|3,0x05,0x39,0x77,0x12,0x34,0x56,1,2,3,4,5,6,7,8]); } } }',
  needs="an alpha block with base >= 128 and a large multiplier",
  what="the multiplier loses bits for bright base values"),
"p14-signed-clamp": dict(property="P14",
  edits=[("src/etc/eac.rs", "let base: i32 = (data[0] as i8) as i32;", "let base: i32 = ((data[0] as i8) as i32).max(-126);")],
  demo='fn main(){ for b in 120..140u8 { blk(t::decode_eacr_signed_block,&[b,0x13,0x05,0x39,0x77,0x12,0x34,0x56]); } }',
  needs="a signed block whose base is -127", what="the lowest legal signed base is clamped"),
"p15-green-six": dict(property="P15",
  edits=[("src/atc.rs", "colors[9] = expand_quantized(((c0 >> 5) & 0x1f) as u8, 5);", "colors[9] = expand_quantized(((c0 >> 5) & 0x1f) as u8 , 6) << 1;")],
  demo='fn main(){ for g in 0..32u16 { let c0=0x8000|g<<5; blk(t::decode_atc_rgb4_block,&[c0 as u8,(c0>>8) as u8,0x12,0x34,0x1b,0xe4,0x55,0xaa]); } }',
  needs="the alternate mode and a green end point whose low bits show", what="green of color0 is widened wrongly in the alternate mode"),
}
