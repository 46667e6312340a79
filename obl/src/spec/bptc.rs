//! Partition tables shared by BC6H and BC7: one digit per texel, raster order.
pub const P2: [&[u8; 16]; 64] = [
    b"0011001100110011",
    b"0001000100010001",
    b"0111011101110111",
    b"0001001100110111",
    b"0000000100010011",
    b"0011011101111111",
    b"0001001101111111",
    b"0000000100110111",
    b"0000000000010011",
    b"0011011111111111",
    b"0000000101111111",
    b"0000000000010111",
    b"0001011111111111",
    b"0000000011111111",
    b"0000111111111111",
    b"0000000000001111",
    b"0000100011101111",
    b"0111000100000000",
    b"0000000010001110",
    b"0111001100010000",
    b"0011000100000000",
    b"0000100011001110",
    b"0000000010001100",
    b"0111001100110001",
    b"0011000100010000",
    b"0000100010001100",
    b"0110011001100110",
    b"0011011001101100",
    b"0001011111101000",
    b"0000111111110000",
    b"0111000110001110",
    b"0011100110011100",
    b"0101010101010101",
    b"0000111100001111",
    b"0101101001011010",
    b"0011001111001100",
    b"0011110000111100",
    b"0101010110101010",
    b"0110100101101001",
    b"0101101010100101",
    b"0111001111001110",
    b"0001001111001000",
    b"0011001001001100",
    b"0011101111011100",
    b"0110100110010110",
    b"0011110011000011",
    b"0110011010011001",
    b"0000011001100000",
    b"0100111001000000",
    b"0010011100100000",
    b"0000001001110010",
    b"0000010011100100",
    b"0110110010010011",
    b"0011011011001001",
    b"0110001110011100",
    b"0011100111000110",
    b"0110110011001001",
    b"0110001100111001",
    b"0111111010000001",
    b"0001100011100111",
    b"0000111100110011",
    b"0011001111110000",
    b"0010001011101110",
    b"0100010001110111",
];
pub const P3: [&[u8; 16]; 64] = [
    b"0011001102212222",
    b"0001001122112221",
    b"0000200122112211",
    b"0222002200110111",
    b"0000000011221122",
    b"0011001100220022",
    b"0022002211111111",
    b"0011001122112211",
    b"0000000011112222",
    b"0000111111112222",
    b"0000111122222222",
    b"0012001200120012",
    b"0112011201120112",
    b"0122012201220122",
    b"0011011211221222",
    b"0011200122002220",
    b"0001001101121122",
    b"0111001120012200",
    b"0000112211221122",
    b"0022002200221111",
    b"0111011102220222",
    b"0001000122212221",
    b"0000001101220122",
    b"0000110022102210",
    b"0122012200110000",
    b"0012001211222222",
    b"0110122112210110",
    b"0000011012211221",
    b"0022110211020022",
    b"0110011020022222",
    b"0011012201220011",
    b"0000200022112221",
    b"0000000211221222",
    b"0222002200120011",
    b"0011001200220222",
    b"0120012001200120",
    b"0000111122220000",
    b"0120120120120120",
    b"0120201212010120",
    b"0011220011220011",
    b"0011112222000011",
    b"0101010122222222",
    b"0000000021212121",
    b"0022112200221122",
    b"0022001100220011",
    b"0220122102201221",
    b"0101222222220101",
    b"0000212121212121",
    b"0101010101012222",
    b"0222011102220111",
    b"0002111200021112",
    b"0000211221122112",
    b"0222011101110222",
    b"0002111211120002",
    b"0110011001102222",
    b"0000000021122112",
    b"0110011022222222",
    b"0022001100110022",
    b"0022112211220022",
    b"0000000000002112",
    b"0002000100020001",
    b"0222122202221222",
    b"0101222222222222",
    b"0111201122012220",
];
pub const A2: [u8; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 2, 8, 2, 2, 8, 8, 15, 2, 8, 2, 2, 8, 8, 2, 2,
    15, 15, 6, 8, 2, 8, 15, 15, 2, 8, 2, 2, 2, 15, 15, 6,
    6, 2, 6, 8, 15, 15, 2, 2, 15, 15, 15, 15, 15, 2, 2, 15,
];
pub const A3_1: [u8; 64] = [
    3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3,
    3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5, 15, 15,
    8, 15, 3, 5, 6, 10, 8, 15, 15, 3, 15, 5, 15, 15, 15, 15,
    3, 15, 5, 5, 5, 8, 5, 10, 5, 10, 8, 13, 15, 12, 3, 3,
];
pub const A3_2: [u8; 64] = [
    15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8,
    15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6, 10, 15, 15, 10, 8,
    15, 3, 15, 10, 10, 8, 9, 10, 6, 15, 8, 15, 3, 6, 6, 8,
    15, 3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 3, 15, 15, 8,
];
