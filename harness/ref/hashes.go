package ref

import (
	"encoding/binary"
	"math/bits"
)

// SHA-256 and RIPEMD-160 written from their specifications, as a second
// opinion next to the libraries.

var sha256K = func() (k [64]uint32) {
	// the first 32 bits of the fractional parts of the cube roots of the first 64 primes
	n := 0
	for p := uint64(2); n < 64; p++ {
		prime := true
		for d := uint64(2); d*d <= p; d++ {
			if p%d == 0 {
				prime = false
				break
			}
		}
		if prime {
			k[n] = rootFraction(p, 3)
			n++
		}
	}
	return
}()

// rootFraction is floor(frac(p^(1/deg)) * 2^32), by bisection on integers.
func rootFraction(p uint64, deg int) uint32 {
	// find the largest x with x^deg <= p * 2^(32*deg), as big as 2^37
	lo, hi := uint64(0), uint64(1)<<41
	for lo+1 < hi {
		m := (lo + hi) / 2
		if powLE(m, deg, p) {
			lo = m
		} else {
			hi = m
		}
	}
	return uint32(lo)
}

// powLE says whether m^deg <= p * 2^(32*deg); deg is 2 or 3.
func powLE(m uint64, deg int, p uint64) bool {
	// little-endian 64-bit words
	w := []uint64{m, 0, 0, 0}
	for d := 1; d < deg; d++ {
		var out [5]uint64
		for i, x := range w {
			h, l := bits.Mul64(x, m)
			var c uint64
			out[i], c = bits.Add64(out[i], l, 0)
			out[i+1] += h + c
		}
		copy(w, out[:4])
	}
	r := []uint64{0, 0, 0, 0}
	if deg == 2 {
		r[1] = p
	} else {
		r[1], r[2] = p<<32, p>>32
	}
	for i := 3; i >= 0; i-- {
		if w[i] != r[i] {
			return w[i] < r[i]
		}
	}
	return true
}

// SHA256 is FIPS 180-4.
func SHA256(msg []byte) []byte {
	var h [8]uint32
	n := 0
	for _, p := range []uint64{2, 3, 5, 7, 11, 13, 17, 19} {
		h[n] = rootFraction(p, 2)
		n++
	}
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.BigEndian.AppendUint64(m, uint64(len(msg))*8)
	var w [64]uint32
	for ; len(m) > 0; m = m[64:] {
		for t := 0; t < 16; t++ {
			w[t] = binary.BigEndian.Uint32(m[4*t:])
		}
		for t := 16; t < 64; t++ {
			x, y := w[t-15], w[t-2]
			s0 := bits.RotateLeft32(x, -7) ^ bits.RotateLeft32(x, -18) ^ x>>3
			s1 := bits.RotateLeft32(y, -17) ^ bits.RotateLeft32(y, -19) ^ y>>10
			w[t] = s1 + w[t-7] + s0 + w[t-16]
		}
		v := h
		for t := 0; t < 64; t++ {
			a, e := v[0], v[4]
			S1 := bits.RotateLeft32(e, -6) ^ bits.RotateLeft32(e, -11) ^ bits.RotateLeft32(e, -25)
			t1 := v[7] + S1 + (e&v[5] ^ ^e&v[6]) + sha256K[t] + w[t]
			S0 := bits.RotateLeft32(a, -2) ^ bits.RotateLeft32(a, -13) ^ bits.RotateLeft32(a, -22)
			t2 := S0 + (a&v[1] ^ a&v[2] ^ v[1]&v[2])
			v = [8]uint32{t1 + t2, v[0], v[1], v[2], v[3] + t1, v[4], v[5], v[6]}
		}
		for i := range h {
			h[i] += v[i]
		}
	}
	var out []byte
	for _, x := range h {
		out = binary.BigEndian.AppendUint32(out, x)
	}
	return out
}

var (
	rmdR  = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdRR = []int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS  = []int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdSS = []int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK  = []uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdKK = []uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

// RIPEMD160 is the 1996 definition by Dobbertin, Bosselaers and Preneel.
func RIPEMD160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.LittleEndian.AppendUint64(m, uint64(len(msg))*8)
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, b := h, h
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a[0]+rmdF(j, a[1], a[2], a[3])+x[rmdR[j]]+rmdK[j/16], rmdS[j]) + a[4]
			a = [5]uint32{a[4], t, a[1], bits.RotateLeft32(a[2], 10), a[3]}
			t = bits.RotateLeft32(b[0]+rmdF(79-j, b[1], b[2], b[3])+x[rmdRR[j]]+rmdKK[j/16], rmdSS[j]) + b[4]
			b = [5]uint32{b[4], t, b[1], bits.RotateLeft32(b[2], 10), b[3]}
		}
		h = [5]uint32{h[1] + a[2] + b[3], h[2] + a[3] + b[4], h[3] + a[4] + b[0], h[4] + a[0] + b[1], h[0] + a[1] + b[2]}
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}
