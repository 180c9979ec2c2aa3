// Code generated by cmd/mine; DO NOT EDIT.

package g

// MinedKeys are private keys whose public key, its hash or its address's checksum has two zero or ff bytes at an end.
var MinedKeys = []uint64{0x2a8, 0x6f20, 0x1383f, 0x1160, 0x1a02, 0x85e4, 0x14e44, 0x1d686, 0x21b22, 0x19c24, 0x25f01, 0x2fd38, 0x2cd76, 0x13fdb, 0x2ff85, 0x34acb, 0x31808, 0xa478, 0x17dc7, 0x22842, 0x18daa, 0x3353a, 0xa504, 0x2183b, 0x31504, 0x150a, 0x9b8d, 0x330bb, 0x2092e, 0x21334, 0x2514b, 0xd6fd, 0x2f17c, 0x2f5c9, 0x35fd, 0xa293, 0x1aebd, 0x1a20f, 0x3ca96, 0x3d001, 0xd1b9, 0x1dfd7, 0x2f489, 0x166bb, 0x34899, 0x41294, 0x77d, 0xbb0e, 0xc6bb, 0xae55, 0xe335, 0xf7cf, 0x2aa4, 0x1bfe6, 0x3a2f5, 0x5936, 0xfd7e, 0x13929, 0x1c1f3, 0x1d510, 0x1d63e, 0xa0e8, 0x2120, 0x7843, 0x158fa}

// MinedVouts41 are output indexes for which the digest of MinedTx or a part of its signature is short.
var MinedVouts41 = []uint64{0x184f6, 0x1a90e, 0x1f145, 0x16f8a, 0x1ea88, 0x2e522, 0x2211, 0x40ae, 0xa401, 0x374a, 0x6626, 0xda31, 0x45fd, 0x9b00, 0xa390, 0x35fc, 0x17687, 0x24f6e, 0x28b, 0x4dd, 0x62f, 0x15970, 0x19cf2, 0x29814, 0x42, 0xd9, 0x357}

// MinedVoutsC3 are output indexes for which the digest of MinedTx or a part of its signature is short.
var MinedVoutsC3 = []uint64{0x3da8, 0x9014, 0x1dac2, 0x16c3b, 0x1d295, 0x1f010, 0x2f068, 0x39b48, 0x165e, 0x1201a, 0x1c13f, 0x66be, 0x11ec4, 0x1add4, 0x100, 0x381, 0x3d2, 0x627b, 0x97fa, 0x9fc5, 0x9d, 0xfc, 0x4c6}

// MinedSha256 are numbers whose eight little-endian bytes have a digest with three zero or ff bytes at an end.
var MinedSha256 = []uint64{0xc7cd54, 0x148f913, 0x1f29e68, 0x13bd55, 0x65c096, 0xc041d4, 0x9a133f}

// MinedSha256d are numbers whose eight little-endian bytes have a digest with three zero or ff bytes at an end.
var MinedSha256d = []uint64{0xca13fe, 0x1b79651, 0x1c5b340, 0x2b50a5, 0x850894, 0x1a0713d, 0x1b04b92}

// MinedRipemd160 are numbers whose eight little-endian bytes have a digest with three zero or ff bytes at an end.
var MinedRipemd160 = []uint64{0x596c93, 0x80677e, 0xcd9608, 0x1bf475c, 0x1c739b0, 0x1e22473, 0x140d318, 0x16e409f}

// MinedHash160 are numbers whose eight little-endian bytes have a digest with three zero or ff bytes at an end.
var MinedHash160 = []uint64{0xace5de, 0x25abaf0, 0x1dcb15b, 0x1e41429, 0xb500e7, 0x1d11adf}

// MinedLocks are locktimes that give MinedTx(0) an id with three zero or ff bytes at an end.
var MinedLocks = []uint64{0x15f38d1, 0xcbe4cf, 0x22b688c, 0x831416, 0xa594f8, 0x1e6e49b, 0x1ee13c2}

// MinedSiblings are numbers v for which the parent of MinedLeaf(0) and MinedLeaf(v) has three zero or ff bytes at an end.
var MinedSiblings = []uint64{0xbe2b59, 0xe3936c, 0xebfdcf, 0x14b969, 0x4cab4b, 0xcfe754, 0xf35d3e, 0x187727a, 0x1952723, 0x1bd0563}
