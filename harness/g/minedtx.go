package g

import "encoding/binary"

// The fixed shapes that the numbers in mined.go belong to.

// MinedKey is the private key that owns the input of MinedTx.
const MinedKey = "0000000000000000000000000000000000000000000000000000000000000007"

// MinedSats is the amount that MinedTx spends.
const MinedSats = 12345678

// MinedTx is a transaction with one input and one output.
func MinedTx(vout uint32) Tx {
	return Tx{Version: 1, In: []TxIn{{ID: "1b05fe88e1a1f28b0b2ae18d5a0f3e24dd5cf8ac0d79a4d6f73a1a4fd0bb1c77", Vout: vout, Seq: 0xffffffff}},
		Out: []TxOut{{Sats: 1000, Script: Blob{H: "76a914", N: 20, S: 9, T: "88ac"}}}}
}

// MinedLeaf is a 32-byte hash, in wire order.
func MinedLeaf(v uint64) []byte {
	b := make([]byte, 32)
	binary.LittleEndian.PutUint64(b, v)
	binary.LittleEndian.PutUint64(b[24:], ^v)
	return b
}
