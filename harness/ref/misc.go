package ref

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode is Base58.
func B58Encode(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var digits []byte
	m, base := new(big.Int), big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, base, m)
		digits = append(digits, b58[m.Int64()])
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		digits = append(digits, '1')
	}
	return string(Rev(digits))
}

// B58Decode is the inverse; ok is false on a foreign character.
func B58Decode(s string) ([]byte, bool) {
	n, base := new(big.Int), big.NewInt(58)
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58, s[i])
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			zeros++
		} else {
			lead = false
		}
		n.Mul(n, base).Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, zeros), n.Bytes()...), true
}

// B58Check is the Base58Check form of payload.
func B58Check(payload []byte) string {
	b := append([]byte{}, payload...)
	return B58Encode(append(b, Sha256d(payload)[:4]...))
}

// ParseAddress decodes a P2PKH address of either network.
func ParseAddress(s string) (version byte, hash []byte, ok bool) {
	b, good := B58Decode(s)
	if !good || len(b) != 25 || b[0] != 0 && b[0] != 0x6f {
		return 0, nil, false
	}
	if string(Sha256d(b[:21])[:4]) != string(b[21:]) {
		return 0, nil, false
	}
	return b[0], b[1:21], true
}

// Address is the P2PKH address of a key hash.
func Address(hash []byte, mainnet bool) string {
	v := byte(0x6f)
	if mainnet {
		v = 0
	}
	return B58Check(append([]byte{v}, hash...))
}

// BIP276 is the text form: prefix ":" network version data checksum.
func BIP276(prefix string, network, version int, data []byte) string {
	p := fmt.Sprintf("%s:%02x%02x%s", prefix, network, version, hex.EncodeToString(data))
	return p + hex.EncodeToString(Sha256d([]byte(p))[:4])
}

// ParentHashes is one level of a merkle tree.
func parentHashes(level [][]byte) [][]byte {
	var up [][]byte
	for i := 0; i < len(level); i += 2 {
		j := i + 1
		if j == len(level) {
			j = i
		}
		up = append(up, Sha256d(append(append([]byte{}, level[i]...), level[j]...)))
	}
	return up
}

// Merkle returns the root of the leaves (all in hash byte order), and for
// position pos the siblings from the bottom up.
func Merkle(leaves [][]byte, pos int) (root []byte, path [][]byte) {
	level := leaves
	for len(level) > 1 {
		sib := pos ^ 1
		if sib >= len(level) {
			sib = pos
		}
		path = append(path, level[sib])
		level = parentHashes(level)
		pos >>= 1
	}
	return level[0], path
}

// Fold recomputes a root from a leaf, its position and a path.
func Fold(leaf []byte, pos int, path [][]byte) []byte {
	h := leaf
	for _, p := range path {
		if pos&1 == 1 {
			h = Sha256d(append(append([]byte{}, p...), h...))
		} else {
			h = Sha256d(append(append([]byte{}, h...), p...))
		}
		pos >>= 1
	}
	return h
}
