// Code generated by cmd/mine twins; DO NOT EDIT.

package g

// MinedTwins are, per length of TwinLens, pairs of numbers whose TwinBytes have one of Digests32 in common.
var MinedTwins = [][]uint64{
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x3611, 0x4164, 0xd74e, 0xe4d9, 0xc78e, 0x1dc94, 0xedfb, 0x24786, 0x48de, 0xcca7, 0x274be, 0x2f949, 0x375d, 0x4e7f, 0x1a6f, 0xe9a7, 0x9d1, 0x4513, 0x8559, 0xcef8, 0xdd34, 0x14433, 0x2fd8, 0x145ee, 0x484, 0xef5f, 0x3bc2, 0xff97, 0x1db09, 0x1ff37, 0x44fc, 0x2c4d7, 0x9e14, 0xc98f, 0x9ca1, 0x12281, 0x3a3d, 0x4367, 0x70c1, 0xe3dc},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x58ab, 0x5dc9, 0x49bb, 0x1c471, 0x602e, 0x65ad, 0x100b5, 0x140b0, 0xa62d, 0xbc45, 0x46cf, 0x12084, 0xcedb, 0x1278d, 0x14576, 0x1d7a0, 0x4160, 0x157b7, 0x82e4, 0x246ae, 0x45f1, 0xbf3c, 0x14610, 0x187db, 0x1b6e, 0xd0b8, 0x1b234, 0x1e546, 0x11d47, 0x19182, 0x12efc, 0x214d2, 0x251d, 0x6035, 0x139d, 0xed6d, 0x62c, 0x3695, 0x114a6, 0x15a35},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x7f37, 0x18404, 0x2b2f, 0x1cc31, 0x192ae, 0x1cde0, 0x182be, 0x1d3b3, 0x1374, 0xaf82, 0x1bab, 0xb3b1, 0x4f13, 0xe081, 0x9865, 0x10909, 0x1c5c2, 0x21297, 0x2bdd0, 0x369a5, 0x6dd, 0xe15c, 0xdc6f, 0xfbd5, 0x738b, 0xb7a8, 0x9c4e, 0x1a03b, 0xb710, 0x1af33, 0xa084, 0x1b269, 0x377e, 0x7708, 0xf19a, 0x19002, 0x9ae0, 0xe5a3, 0xef5a, 0xfc7f},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x238dc, 0x2a9ab, 0x1175f, 0x2fe1b, 0x6bc2, 0xc56e, 0x9157, 0xd6d7, 0x4552, 0x1485b, 0x1c7c0, 0x2d433, 0x108e6, 0x2317a, 0x12bf0, 0x1bdea, 0x181a2, 0x1e172, 0xa9b7, 0x20473, 0x4678, 0x25f87, 0x89cb, 0x29c8c, 0x25cba, 0x2b82c, 0x78d6, 0x13cf3, 0x13183, 0x1ac67, 0x3b3e, 0x1490b, 0x2f46, 0x1947f, 0x1455e, 0x17860, 0x23ba7, 0x244bd},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x40c4, 0x86f3, 0x191a, 0x156d9, 0x6316, 0x1abbe, 0x16feb, 0x1f640, 0xc95c, 0xff45, 0x163de, 0x16d61, 0x29a7, 0x6eb5, 0x4083, 0x14260, 0x5664, 0xb271, 0x12ca2, 0x1fec9, 0x683f, 0xea0f, 0x70e0, 0x1f4c9, 0x6528, 0x1ef25, 0x2a9c, 0x2376d, 0xed94, 0xf40e, 0x8bcf, 0x1660c, 0xcec7, 0x169b2, 0x1c0c, 0x1ce16, 0xf8c, 0x1196e, 0x1907, 0x14b89},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x4dae, 0x181e5, 0x4166, 0x1a3a3, 0x1783a, 0x20413, 0x2ab6, 0x21253, 0x79f0, 0x100b2, 0xfde5, 0x2c821, 0xfd4e, 0x2429c, 0x14434, 0x2a5c7, 0x420d, 0x25858, 0x1221b, 0x2661c, 0x49dd, 0xb732, 0x1e1f, 0x144dc, 0x6562, 0xf657, 0x13043, 0x144fa, 0x7cf0, 0xcaa3, 0x4c4d, 0xe901, 0x10ad4, 0x122ca, 0xfeb0, 0x1828b, 0x6931, 0xaf1e, 0x1b3b8, 0x26759},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x53c2, 0x84cc, 0xc6bc, 0x2eb54, 0x40b6, 0x3f490, 0x11315, 0x3f997, 0x1d32f, 0x1eb5b, 0x1015e, 0x21258, 0xbcf7, 0x176c6, 0x1e06b, 0x25161, 0x4a26, 0x18599, 0x25479, 0x298ad, 0x450, 0xfc52, 0x1bfbd, 0x277cc, 0x4289, 0x7b07, 0x141a1, 0x185a9, 0x4fe5, 0x1336d, 0x274f8, 0x277ea, 0x104fa, 0x1198d, 0x18180, 0x19bca, 0x1e9c1, 0x21234, 0x1998d, 0x25613},
	{0xa4cf, 0x13f24, 0x55c5, 0x15008, 0x2b4c, 0x1728d, 0xc122, 0x1c365, 0x23, 0x988e, 0x2d, 0x9898, 0x4e81, 0x510a, 0xbfd, 0x52d8, 0x8a86, 0xda08, 0x19b00, 0x2c762, 0x79e, 0x9491, 0x8b94, 0xb2db, 0xaad9, 0x1924c, 0x904e, 0x1d024, 0xc33f, 0x10d6f, 0x1a2d9, 0x1a803, 0x6100, 0xd2b1, 0x2630, 0x12c83, 0xef50, 0x1dfee, 0xe81a, 0x215e0, 0x3e1, 0x93c, 0x3580, 0x1061b, 0xd162, 0x1add3, 0x68ff, 0x1dc3b, 0xd9c0, 0x17d95, 0x2105, 0x1f9df},
}

// MinedKeyTwins are pairs of private keys that have four bytes of their public keys, hashes, addresses or scripts in common, or a digest of them.
var MinedKeyTwins = []uint64{0x2f73, 0xa227, 0x1656c, 0x19e37, 0x1c16, 0xcca5, 0x1025f, 0x22109, 0x2169, 0x2e01, 0x482, 0x425d, 0x158ce, 0x33c53, 0x2f1b, 0xe2c7, 0x13859, 0x1a969, 0x3e5b, 0x675a, 0x1489c, 0x1fa05, 0x2a90f, 0x2ae85, 0xaad1, 0x2c1cd, 0x16699, 0x1cf13, 0x1bdf3, 0x1e3b0, 0x15ad, 0x56b6, 0x160be, 0x19c28, 0x43ea, 0xdad0, 0x6cee, 0x1679e, 0xd4db, 0x1267b, 0xeb8c, 0x1ea4b, 0xaa9, 0x130d1, 0xb60b, 0x18fb4, 0x1cf, 0x3778, 0x5e99, 0xc72a, 0x18336, 0x1e637, 0x1e83, 0x23f72, 0x2341, 0xf967, 0xbaf7, 0x14689, 0x63ea, 0x1f01e, 0x35f5, 0x2964d, 0x119, 0x480, 0x482, 0x549, 0x4074, 0x96b4, 0x7b08, 0xcef4, 0x4442, 0x19655, 0x38fc, 0x2537a, 0xe4b, 0x2fff, 0x690e, 0x1a939, 0x2639, 0x1cbf0, 0x32370, 0x33dbe, 0x304a4, 0x31df1, 0x12e49, 0x31fcb, 0x1cd2c, 0x24aac, 0x1c4b8, 0x2c426, 0x23f7, 0x8218, 0x1037d, 0x21872, 0x141a8, 0x17f02, 0x25bfa, 0x27433, 0x12628, 0x1e9d6, 0x93f5, 0x25ec0, 0x54d, 0x84c, 0x186d, 0x1e8f, 0x10c65, 0x13e2d, 0x3b10, 0x19064, 0x113dd, 0x18863, 0x106ab, 0x1b359, 0x9205, 0x20ba2, 0x10bc3, 0x214a3, 0x1b889, 0x1bdaf, 0x199a0, 0x21fda, 0xe11c, 0x2106d, 0x2112, 0x2d56b, 0x151cc, 0x15f5f, 0xfc2c, 0x1bdd8, 0x762f, 0x11dcf, 0x1c00d, 0x1cfc2, 0x2ae0, 0x19b15, 0x10a91, 0x1bef6, 0xf3d3, 0x16af3, 0x1a3b7, 0x21c9f, 0x164, 0x592, 0x677, 0x6cc, 0x10582, 0x164fb, 0x11430, 0x26397, 0x53a0, 0xedac, 0x7a63, 0x120ad, 0x2097, 0x2297, 0x9bb6, 0xc7f9, 0x41ba, 0xe250, 0x672d, 0x19ea3, 0xb6c9, 0xbd7e, 0x9950, 0x1b7ac, 0x6ea1, 0x6f06, 0xc2bd, 0x166ff, 0x4e7a, 0x11ac0, 0x1a5b7, 0x1ea64, 0xc3, 0x27e, 0xc2, 0x2d5, 0xfd0, 0x10c3, 0xca6, 0x169b, 0x551c, 0xba10, 0xb805, 0x12f3a, 0xd42a, 0xe4a4, 0x10bf6, 0x132bb, 0x18a, 0xbd5, 0x51, 0xca3, 0x8f76, 0x10458, 0x1f71c, 0x246c0, 0xa12e, 0xf58d, 0x1550a, 0x18c95, 0x1cc3e, 0x1d5d2, 0x29009, 0x2c778, 0xc6d0, 0xd338, 0x1b143, 0x23162, 0xa2f2, 0x2474a, 0x95e2, 0x25ebd, 0xb230, 0x226b7, 0x11c01, 0x3a712, 0xcc1, 0xc8f7, 0x894b, 0x13870, 0x2341, 0xf967, 0xbaf7, 0x14689, 0x63ea, 0x1f01e, 0x35f5, 0x2964d, 0x119, 0x480, 0x482, 0x549, 0x163e, 0x1b81b, 0x13af5, 0x2a24a, 0xcbaa, 0xd12a, 0x19860, 0x2b51f, 0xbfb0, 0x18361, 0x7513, 0x22f23, 0x8d41, 0x14225, 0x1949c, 0x2edf2, 0xd5b, 0x62ef, 0x2499, 0x151fa, 0x1cd2c, 0x24aac, 0x1c4b8, 0x2c426, 0x23f7, 0x8218, 0x1037d, 0x21872}

// MinedVoutTwins are pairs of output indexes for which the digests of MinedTx have four bytes, or a digest of them, in common.
var MinedVoutTwins = []uint64{0xc060, 0xddc1, 0x10145, 0x1cc1e, 0x1b9d3, 0x1f61e, 0x6930, 0x1fae2, 0x25816, 0x28ec9, 0x1d1a6, 0x30f96, 0x11b1a, 0x327de, 0x1fe5, 0x364ff, 0x27078, 0x37eaf, 0xeef9, 0x3ccc3, 0x1c2e, 0x3f342, 0x21504, 0x4060f, 0xb1e3, 0x40e86, 0x170c9, 0x40ff6, 0x499c, 0x48cdf, 0x1a4b1, 0x54e42, 0x1cb9f, 0x5a3e8, 0x3949c, 0x5a857, 0x4808d, 0x5c2ec, 0x1cf6e, 0x5ee1b, 0x5a05f, 0x67fe1, 0x11ca1, 0x688a4, 0x384a3, 0x6ad75, 0x28c40, 0x72755, 0x1c58e, 0x746dd, 0x186cf, 0x74929, 0x74bf3, 0x7b489, 0x72d4b, 0x80119, 0x79c30, 0x82222, 0x50345, 0x82b0e, 0x1e7fb, 0x87dc5, 0x30a03, 0x8a1f4, 0x6ce15, 0x8aa70, 0x4a470, 0x8b2de, 0x3eb9f, 0x8c39b, 0x69418, 0x8ebde, 0x48067, 0x8ee32, 0x7d27d, 0x92356, 0x11cf2, 0x92e7f, 0x10714, 0x96880, 0x6b5bc, 0x9b468, 0x61877, 0x9ebdd, 0x4e858, 0xa0520, 0x49967, 0xa1c30, 0x3b070, 0xa2c6f, 0xa1914, 0xa2cae, 0x443b6, 0xa793b, 0x182c, 0xa9fce, 0xa1ef1, 0xab8fe, 0xa6aa8, 0xadc48, 0xac823, 0xadf27, 0x1b7fb, 0xae6a0, 0xad4d9, 0xaf093, 0x14108, 0xaf57f, 0x2c9a4, 0xb1b8d, 0x237cf, 0xb2361, 0xa57b7, 0xb267b, 0x6ae7b, 0xb32a5, 0x4210c, 0xb341c, 0x7b5f7, 0xb357d, 0x11ee4, 0x242f9, 0x1e54, 0x324ba, 0x24ed5, 0x375c7, 0xf340, 0x3938c, 0x8fdf, 0x3ae40, 0x18907, 0x3f720, 0x176f7, 0x42899, 0x19534, 0x4bd4b, 0x380eb, 0x4c080, 0x11863, 0x4f2c5, 0x467bc, 0x4ff06, 0x7c25, 0x535fb, 0x555c9, 0x61005, 0x25402, 0x636ed, 0x6478, 0x63df7, 0x4f971, 0x69f5d, 0x4df2c, 0x6a0ae, 0x2878d, 0x6ef0b, 0x30cf8, 0x6f230, 0x45803, 0x721b5, 0x6c0aa, 0x73760, 0x31623, 0x73eef, 0x5016f, 0x743bd, 0x1e2f5, 0x7941b, 0x1921d, 0x79e48, 0x42464, 0x7b462, 0x4559a, 0x7c3dc, 0x488a0, 0x7d88d, 0x3d5dc, 0x7d8dd, 0x41664, 0x7fec7, 0x77f17, 0x80e20, 0xe66a, 0x81b3b, 0x3b693, 0x81dd7, 0x777e4, 0x82764, 0x9604, 0x853ea, 0x5d775, 0x89333, 0x76c5e, 0x8a348, 0x3e977, 0x8bc14, 0x6374f, 0x8c669, 0x69d91, 0x8cc6f, 0x23a9d, 0x8ff42, 0x79b62, 0x918b5, 0xef78, 0x918f2, 0x79d59, 0x91ad7, 0x86592, 0x937f7, 0x76d54, 0x960b0, 0x7257c, 0x963f5, 0x4c0eb, 0x976ab, 0x4bc84, 0x97929, 0x53032, 0x9855d, 0x28afd, 0x9a134, 0x1a462, 0x9e7cc, 0xbaaf, 0xa16a0, 0x482a1, 0xa2415, 0x9b457, 0xa4026, 0x6f296, 0xa42fc, 0x526ca, 0xa6504, 0x413db, 0xa7437, 0x144f2, 0xa79e1, 0x96106, 0xa8078, 0x16333, 0x17ccb, 0xc6c4, 0x24dc1, 0x101f7, 0x2ba21, 0x5d1a, 0xa8c1, 0xc4c5, 0x142b3, 0x125e7, 0x1f0dc, 0x612, 0x1076, 0x10cb, 0x253b, 0x12a8, 0x2b54, 0x3649, 0xf6c4, 0xa26f, 0x25502, 0x201bd, 0x2f278, 0x17999, 0x2ef72, 0x1159d, 0x378b2, 0x1a6e8, 0x3f9a0, 0x4d4a, 0x8997, 0x1b5eb, 0x1b68d, 0xd902, 0x24609, 0xa16b, 0xf245, 0x1c5e6, 0x1d5d6, 0x425f, 0x1e734, 0x2240, 0x181c8, 0x13006, 0x25939, 0x2679, 0x26b43, 0x1940, 0x19bd, 0x1dac1, 0x1e816, 0xa90b, 0x2b659, 0x1f28b, 0x27403, 0x1870f, 0x2c695, 0x1b527, 0x32452}

// MinedLockTwins are pairs of numbers: the locktimes v*0x9e3779b1 give MinedTx(0) encodings or ids with four bytes, or a digest of them, in common.
var MinedLockTwins = []uint64{0x2, 0x631b, 0x6, 0x631f, 0x1a6b, 0x38f7, 0x39b4, 0x6a06, 0x11d83, 0x194af, 0x1de3e, 0x1f2aa, 0xb0af, 0xd293, 0x761a, 0xf7be, 0x8dba, 0x116a9, 0x1868a, 0x2cacd, 0x0, 0x10, 0x1, 0x11, 0x744e, 0x10648, 0xb180, 0x1a2af, 0x20c12, 0x29a86, 0x1ed4f, 0x2dfe9, 0x50b6, 0x54c2, 0x980, 0xc29e, 0xc520, 0x10161, 0x2cf9, 0x14754}

// MinedSiblingTwins are pairs of numbers v for which the parents of MinedLeaf(0) and MinedLeaf(v) have four bytes, or a digest of them, in common.
var MinedSiblingTwins = []uint64{0xcb9f, 0x156be, 0x932, 0x1de44, 0x1981b, 0x22150, 0x1e4e1, 0x289fc, 0xb832, 0x1ab4c, 0x13297, 0x1f200, 0x177fb, 0x281fa, 0x8f5e, 0x2c7a7, 0x17fae, 0x1af37, 0xca30, 0x1dd33, 0x1529f, 0x1e04d, 0x4cfe, 0x1eb4c, 0x11558, 0x12217, 0x141b3, 0x1dbac, 0x111c9, 0x2a757, 0x221b7, 0x2d887, 0x187d, 0x2149, 0x359, 0x2c55, 0x2bdc, 0x2d6a, 0x2f68, 0x3118, 0x15c61, 0x21aed, 0x6684, 0x33666, 0x682c, 0x39f5b, 0x3246f, 0x3c826, 0x9072, 0x13173, 0x129a1, 0x13313, 0x95a0, 0x136a8, 0x278f6, 0x291a5, 0x847, 0xbd31, 0x44bd, 0x11114, 0xae24, 0x1a4bc, 0x554, 0x1f06d, 0x294b, 0xe007, 0x1aefe, 0x1f320, 0x1a1c3, 0x22af7, 0x1c81e, 0x257df, 0xbd78, 0xd654, 0x8833, 0x1bd27, 0x17d62, 0x1e9ab, 0x1ca1e, 0x20fae, 0x202d, 0x13ce7, 0x208e5, 0x2fa42, 0x26692, 0x3c36d, 0x19173, 0x3e450, 0x104c6, 0x13c08, 0xe0ca, 0x18988, 0x1c45e, 0x290f2, 0x113, 0x2bf1d}
