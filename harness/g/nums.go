package g

import (
	"encoding/hex"
	"math/bits"

	"pgregory.net/rapid"

	"verif/harness/tape"
)

var edgeLens = []int{0, 1, 2, 3, 4, 5, 8, 19, 20, 21, 31, 32, 33, 55, 56, 63, 64, 65, 74, 75, 76, 77, 78, 99, 100, 101, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258,
	511, 512, 513, 519, 520, 521, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 70000, 99999, 100000, 100001, 131071, 131072, 131073, 262144, 524288, 1000000, 1048575, 1048576, 1048577}

// EdgeLens are the interesting lengths up to max.
func EdgeLens(max int) []int {
	var out []int
	for _, n := range edgeLens {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// Len draws a length in 0..max: mostly small, often at a boundary.
func Len(t *rapid.T, max int, label string) int {
	switch Int(t, 0, 9, label+"?") {
	case 0, 1, 2, 3, 4:
		return Int(t, 0, min(max, 40), label)
	case 5:
		return Int(t, 0, min(max, 600), label)
	case 6, 7:
		m := max
		if m > 600 && Int(t, 0, 3, label+".big") != 0 {
			m = 600
		}
		return Pick(t, EdgeLens(m), label)
	case 8:
		m := max
		if m > 600 && Int(t, 0, 3, label+".big") != 0 {
			m = 600
		}
		if d := DictLens(m); len(d) > 0 {
			return Pick(t, d, label)
		}
		return 0
	default:
		m := max
		if m > 5000 && Int(t, 0, 3, label+".big") != 0 {
			m = 5000
		}
		return Int(t, 0, m, label)
	}
}

var edgeU64 = []uint64{0, 1, 2, 3, 0x4b, 0x4c, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000,
	0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 100000000, 2100000000000000, 2100000000000001, 5000000000,
	0xffffffffff, 0xffffffffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff}

// U64 draws a 64-bit value: edges, literals, any bit width.
func U64(t *rapid.T, label string) uint64 {
	switch Int(t, 0, 5, label+"?") {
	case 0:
		return Pick(t, edgeU64, label)
	case 1:
		if d := largeDict(); len(d) > 0 {
			return Pick(t, d, label) + uint64(Int(t, 0, 2, label+".d")) - 1
		}
	case 2:
		return uint64(Int(t, 0, 300, label))
	case 3:
		return Raw64(t, label)
	}
	w := Int(t, 1, 64, label+".w")
	v := Raw64(t, label)
	return v >> (64 - w)
}

// U32 draws a 32-bit value.
func U32(t *rapid.T, label string) uint32 {
	switch Int(t, 0, 4, label+"?") {
	case 0:
		var e []uint32
		for _, v := range edgeU64 {
			if bits.Len64(v) <= 32 {
				e = append(e, uint32(v))
			}
		}
		return Pick(t, e, label)
	case 1:
		if d := largeDict(); len(d) > 0 {
			return uint32(Pick(t, d, label)) + uint32(Int(t, 0, 2, label+".d")) - 1
		}
	case 2:
		return uint32(Int(t, 0, 300, label))
	}
	return uint32(Raw64(t, label))
}

// Hash32 draws 32 bytes as hex, sometimes with runs of zeroes or all equal.
func Hash32(t *rapid.T, label string) string {
	if Int(t, 0, 19, label+".z") == 0 {
		return hex.EncodeToString(make([]byte, 32))
	}
	return BlobN(t, 32, label).Hex()
}

// Raw64 draws a 64-bit value, close to uniform apart from the small values
// that shrinking heads for. (rapid's own integers favour small widths, which
// starves choices and byte values above the first few.)
func Raw64(t *rapid.T, label string) uint64 { return tape.Raw64(t, label) }

// Int draws from lo..hi.
func Int(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	return lo + int(Raw64(t, label)%uint64(hi-lo+1))
}

// Chance is true about once in n.
func Chance(t *rapid.T, n int, label string) bool { return Int(t, 0, n-1, label) == n-1 }

// Pick draws an element.
func Pick[T any](t *rapid.T, xs []T, label string) T { return xs[Int(t, 0, len(xs)-1, label)] }

// Bool draws a boolean.
func Bool(t *rapid.T, label string) bool { return Int(t, 0, 1, label) == 1 }
