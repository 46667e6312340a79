//@fn color out
//@top
// u32::from_le_bytes as documented (the verifier cannot name its array-typed signature)
#[verifier::external_body]
const fn u32_from_le_bytes(x: [u8; 4]) -> (r: u32)
    ensures r == ((x[0] as int) + 256 * (x[1] as int) + 65536 * (x[2] as int) + 16777216 * (x[3] as int)) as u32
{ unimplemented!() }
//@contract
    ensures out == color_of(r, g, b, a)
