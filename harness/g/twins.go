package g

import (
	"crypto/sha256"
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"

	"golang.org/x/crypto/ripemd160"
)

// Digest32 is a way to make four bytes of a byte string. Code that remembers
// results under such a digest confuses strings that have it in common.
type Digest32 struct {
	Name string
	Sum  func([]byte) uint32
}

// Digests32 are the usual ways.
var Digests32 = []Digest32{
	{"crc32", crc32.ChecksumIEEE},
	{"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }},
	{"adler32", adler32.Checksum},
	{"fnv32", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
	{"fnv32a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
	{"fnv64a low", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) }},
	{"fnv64a high", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64() >> 32) }},
	{"crc64 low", func(b []byte) uint32 { return uint32(crc64.Checksum(b, crc64iso)) }},
	{"times 31", func(b []byte) (h uint32) {
		for _, c := range b {
			h = h*31 + uint32(c)
		}
		return h
	}},
	{"times 33", func(b []byte) uint32 {
		h := uint32(5381)
		for _, c := range b {
			h = h*33 + uint32(c)
		}
		return h
	}},
	{"sha256 first", func(b []byte) uint32 { h := sha256.Sum256(b); return binary.BigEndian.Uint32(h[:]) }},
	{"sha256 last", func(b []byte) uint32 { h := sha256.Sum256(b); return binary.BigEndian.Uint32(h[28:]) }},
	{"sha256d first", func(b []byte) uint32 {
		h := sha256.Sum256(b)
		h = sha256.Sum256(h[:])
		return binary.BigEndian.Uint32(h[:])
	}},
	{"sha256d last", func(b []byte) uint32 {
		h := sha256.Sum256(b)
		h = sha256.Sum256(h[:])
		return binary.BigEndian.Uint32(h[28:])
	}},
	{"hash160 first", func(b []byte) uint32 { return binary.BigEndian.Uint32(hash160(b)) }},
	{"hash160 last", func(b []byte) uint32 { return binary.BigEndian.Uint32(hash160(b)[16:]) }},
}

var (
	castagnoli = crc32.MakeTable(crc32.Castagnoli)
	crc64iso   = crc64.MakeTable(crc64.ISO)
)

func hash160(b []byte) []byte {
	s := sha256.Sum256(b)
	h := ripemd160.New()
	h.Write(s[:])
	return h.Sum(nil)
}

// TwinLens are the lengths for which cmd/mine looked for strings with equal
// digests (MinedTwins).
var TwinLens = []int{8, 20, 25, 32, 33, 64, 65, 80}

// TwinBytes are n bytes (at least 8) that are a function of v. The pairs of
// numbers in MinedTwins belong to it.
func TwinBytes(n int, v uint64) []byte {
	b := Pat(n, 4).Bytes()
	binary.LittleEndian.PutUint64(b[n-8:], v*0x9e3779b97f4a7c15)
	return b
}

// Pairs yields the numbers of a list of pairs: both of a pair, and the first
// once more.
func Pairs(l []uint64, yield func(uint64)) {
	for i := 0; i+1 < len(l); i += 2 {
		yield(l[i])
		yield(l[i+1])
		yield(l[i])
	}
}

// crcMultiples are the polynomials of the usual checks (CRC-32, Castagnoli,
// Koopman, CRC-64 ISO and ECMA), as bytes: putting one over a string does not
// change its check.
var crcMultiples = func() (out [][]byte) {
	poly := func(width int, low uint64) {
		b := make([]byte, width/8+1)
		b[0] = 1
		for i := 1; i <= width; i++ {
			b[i/8] |= byte(low>>(width-i)&1) << (i % 8)
		}
		out = append(out, b)
	}
	poly(32, 0x04c11db7)
	poly(32, 0x1edc6f41)
	poly(32, 0x741b8cd7)
	poly(64, 0x1b)
	poly(64, 0x42f0e1eba9ea3693)
	return
}()

// Twins yields pairs of different strings of n bytes that have much in common:
// either half, all bytes but one, the same bytes in another order, the same
// sum, the same digest of four bytes.
func Twins(n int, yield func(a, b []byte)) {
	if n < 2 {
		return
	}
	a := Pat(n, 41).Bytes()
	with := func(edit func(b []byte)) {
		b := append([]byte{}, a...)
		edit(b)
		if string(a) != string(b) {
			yield(append([]byte{}, a...), b)
		}
	}
	for _, at := range []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 19, 20, 31, 32, n / 2, n - 9, n - 8, n - 5, n - 4, n - 2, n - 1} {
		if at >= 0 && at < n {
			with(func(b []byte) { b[at] ^= 0x80 })
			with(func(b []byte) { b[at] ^= 1 })
		}
	}
	o := Pat(n, 42).Bytes()
	for _, k := range []int{4, 8, 16, 20, 32, n / 2} { // equal but for the first or last k
		if k < n {
			with(func(b []byte) { copy(b[:k], o) })
			with(func(b []byte) { copy(b[n-k:], o) })
			with(func(b []byte) { copy(b[k:], o) })
			with(func(b []byte) { copy(b[:n-k], o) })
		}
	}
	with(func(b []byte) { // the same bytes
		for i := range b {
			b[i] = a[n-1-i]
		}
	})
	with(func(b []byte) { copy(b, a[n/2:]); copy(b[n-n/2:], a) })
	with(func(b []byte) { b[0], b[n-1] = b[n-1], b[0] })
	with(func(b []byte) { b[n/2], b[n/2-1] = b[n/2-1], b[n/2] })
	with(func(b []byte) { b[0]++; b[n-1]-- })
	with(func(b []byte) { b[0] ^= 5; b[n-1] ^= 5 })
	for _, at := range []int{0, n / 2, n - 2} { // the same sum of powers of k
		for _, k := range []byte{31, 33, 37, 131} {
			if at+1 < n {
				with(func(b []byte) { b[at], b[at+1] = 1, 200; copy(a, b); b[at]++; b[at+1] -= k })
			}
		}
	}
	for _, at := range []int{0, 1, n / 3, n / 2, n - 16, n - 8, n - 4, n - 3} {
		if at < 0 {
			continue
		}
		if at+3 <= n { // the same sum, and sum of sums
			with(func(b []byte) { b[at], b[at+1], b[at+2] = 50, 50, 50; copy(a, b); b[at]++; b[at+1] -= 2; b[at+2]++ })
		}
		for _, w := range []int{1, 2, 4, 8, 16} { // the same sum or xor of words, or the same words
			if at+2*w > n {
				continue
			}
			with(func(b []byte) { b[at] ^= 0x15; b[at+w] ^= 0x15 })
			with(func(b []byte) { copy(b[at:], a[at+w:at+2*w]); copy(b[at+w:], a[at:at+w]) })
			with(func(b []byte) { b[at], b[at+w] = 100, 100; copy(a, b); b[at]++; b[at+w]-- })
		}
		for _, p := range crcMultiples { // the same cyclic redundancy check
			if at+len(p) <= n {
				with(func(b []byte) {
					for i := range p {
						b[at+i] ^= p[i]
					}
				})
			}
		}
	}
	for k, l := range TwinLens {
		if l != n {
			continue
		}
		for i := 0; i+1 < len(MinedTwins[k]); i += 2 {
			yield(TwinBytes(n, MinedTwins[k][i]), TwinBytes(n, MinedTwins[k][i+1]))
		}
	}
}
