// Package g holds the case building blocks and generators.
package g

import (
	"encoding/hex"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/tape"
)

// Blob is a byte string in a compact, shrinkable, JSON form: hex head, then N
// bytes of a deterministic pattern chosen by S (or of R repeated), then hex
// tail.
type Blob struct {
	H string `json:"h,omitempty"`
	N int    `json:"n,omitempty"`
	S uint32 `json:"s,omitempty"`
	R string `json:"r,omitempty"` // instead of the pattern: these bytes over and over
	T string `json:"t,omitempty"`
}

// Raw makes a Blob of the given bytes.
func Raw(b []byte) Blob { return Blob{H: hex.EncodeToString(b)} }

// Pat makes a pattern Blob.
func Pat(n int, s uint32) Blob { return Blob{N: n, S: s} }

// Nil is the empty byte string as a nil slice.
var Nil = Blob{S: 7}

// Len is the length in bytes.
func (b Blob) Len() int { return len(b.H)/2 + b.N + len(b.T)/2 }

// Bytes expands the blob into a fresh slice.
func (b Blob) Bytes() []byte {
	if b == Nil {
		return nil
	}
	out := make([]byte, 0, b.Len())
	out = append(out, unhex(b.H)...)
	r := unhex(b.R)
	if len(r) > 0 {
		for i := 0; i < b.N; i++ {
			out = append(out, r[i%len(r)])
		}
		return append(out, unhex(b.T)...)
	}
	switch b.S {
	case 0:
		out = append(out, make([]byte, b.N)...)
	case 1:
		for i := 0; i < b.N; i++ {
			out = append(out, 0xff)
		}
	case 2:
		for i := 0; i < b.N; i++ {
			out = append(out, byte(i))
		}
	default:
		x := b.S
		for i := 0; i < b.N; i++ {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			out = append(out, byte(x>>11))
		}
	}
	return append(out, unhex(b.T)...)
}

// Hex is the expanded blob in hex.
func (b Blob) Hex() string { return hex.EncodeToString(b.Bytes()) }

func unhex(s string) []byte {
	r, err := hex.DecodeString(s)
	if err != nil {
		panic(fmt.Sprintf("bad hex in case: %v", err))
	}
	return r
}

// Bytes draws a short byte string with skewed contents.
func Bytes(t *rapid.T, max int, label string) []byte {
	n := Len(t, max, label+".len")
	return BytesN(t, n, label)
}

// BytesN draws exactly n bytes.
func BytesN(t *rapid.T, n int, label string) []byte {
	return BlobN(t, n, label).Bytes()
}

// BlobN draws a blob of exactly n bytes: random, constant, with runs of
// zeroes or 0xff at either end, or mostly literals from the source.
func BlobN(t *rapid.T, n int, label string) Blob {
	if n == 0 {
		if Chance(t, 2, label+".nil") {
			return Nil
		}
		return Blob{}
	}
	b := blobN(t, n, label)
	if n <= 5000 {
		if c := tape.Blob(t, label, b.Bytes()); c != nil {
			return Raw(c)
		}
	}
	return b
}

func blobN(t *rapid.T, n int, label string) Blob {
	kind := Int(t, 0, 12, label+".kind")
	switch {
	case kind == 11: // the same few bytes over and over
		k := Int(t, 1, min(n, 5), label+".period")
		r := make([]byte, k)
		for i := range r {
			r[i] = Byte(t, label+".b")
		}
		return Blob{N: n, R: hex.EncodeToString(r)}
	case kind == 12 && n <= 5000: // a shape of fixed fields
		return Raw(Shape(n, Int(t, 0, 1<<20, label+".shape")))
	case kind == 12:
		return Pat(n, uint32(Int(t, 3, 1<<30, label+".seed")))
	case kind <= 4:
		return Pat(n, uint32(Int(t, 3, 1<<30, label+".seed")))
	case kind == 5:
		return Pat(n, uint32(Int(t, 0, 2, label+".pat")))
	case kind == 6: // a run of one byte at the front, then pattern
		k := Int(t, 1, min(n, 6), label+".run")
		v := Byte(t, label+".v")
		return Blob{H: hex.EncodeToString(rep(v, k)), N: n - k, S: uint32(Int(t, 3, 1<<30, label+".seed"))}
	case kind == 7: // pattern, then a run at the back
		k := Int(t, 1, min(n, 6), label+".run")
		v := Byte(t, label+".v")
		return Blob{N: n - k, S: uint32(Int(t, 3, 1<<30, label+".seed")), T: hex.EncodeToString(rep(v, k))}
	case kind == 8: // text of one alphabet
		a := Pick(t, alphabets, label+".abc")
		b := Pat(n, uint32(Int(t, 3, 1<<30, label+".seed"))).Bytes()
		if n > 5000 {
			return Pat(n, uint32(a[0]))
		}
		for i := range b {
			b[i] = a[int(b[i])%len(a)]
		}
		return Raw(b)
	default:
		// individually drawn bytes up front
		k := min(n, 12)
		head := make([]byte, k)
		for i := range head {
			head[i] = Byte(t, label+".b")
		}
		if n == k {
			return Raw(head)
		}
		return Blob{H: hex.EncodeToString(head), N: n - k, S: uint32(Int(t, 0, 1<<30, label+".seed"))}
	}
}

var alphabets = []string{"0123456789abcdef", "0123456789abcdef", "0123456789ABCDEF", "0123456789", "01", " \t\r\n", "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "abcdefghijklmnopqrstuvwxyz", "Aa bB", "\x51\x52\x00\x4f\x60", "%sdx\\\"'"}

// Formatted lists texts and byte strings that mean something somewhere.
func Formatted() []string { return formatted }

var formatted = []string{
	"0x1234", "0X", "0x", "-1", "+1", "1e9", "1.5", "0b101", "017", "NaN", "true", "null", "nil", "0", "1", "16", "17", "81", "0000", "00", "0101",
	"{\"a\":1}", "[]", "<a>", "a=b&c=d", "%41%00", "http://a.b/c", "a@b.c", "# x", "// x", "-- x", "'", "\"\"", "\\x00", "\\n", "%s%d%v", "${a}", "$(a)", "*", "..", "/", "~",
	"OP_RETURN", "OP_FALSE", "OP_0", "op_dup", "OP_PUSHDATA1", "bitcoin-script:0101", "bitcoin:", "Bitcoin Signed Message:\n",
	"114ZWApV4EEU8frr7zygqQcB1V2BodGZuS", "mfaWoDuTsFfiunLTqZx4fKpVsUctiDV9jk", "5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ",
	"aGVsbG8=", "aGVsbG8", "====", "2019-01-01T00:00:00Z", "00:00",
	"e\u0301", "\u00e9", "\ufeffa", "\u200b", "\u202e", "\u00df", "\u0130", "\ufb01", "\U0001f600", "\u2028", "\u00a0", "a\x00b", "\x00", "\x00a", "a\x00", " a", "a ", "a\n", "\na", "a\r\n", "\t", "A", "a", "Z\x7f", "\x1b[0m",
	"\xff\xfe", "\xc3\x28", "\xed\xa0\x80", "\x1f\x8b\x08", "\x89PNG", "\x30\x06\x02\x01\x01\x02\x01\x01",
	"\x6a", "\x00\x6a", "\x6a\x01\x61", "\x00\x6a\x01\x61", "\x4c\x01\x61", "\x01\x61", "\x02\x61\x62", "\xfd\x01\x00", "\xfd\xfd\x00",
	"deadbeef", "DEADBEEF", "abc", "ab c", "ab",
}

// AnyBlob draws a blob of 0..max bytes.
func AnyBlob(t *rapid.T, max int, label string) Blob {
	if Chance(t, 12, label+".fmt") {
		s := Pick(t, formatted, label+".text")
		if len(s) <= max {
			return Raw([]byte(s))
		}
	}
	return BlobN(t, Len(t, max, label+".len"), label)
}

func rep(v byte, k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = v
	}
	return b
}

// Byte draws a byte, often a special one.
func Byte(t *rapid.T, label string) byte {
	switch Int(t, 0, 3, label+"?") {
	case 0:
		return Pick(t, edgeBytes, label)
	case 1:
		if d := smallDict(); len(d) > 0 {
			return byte(Pick(t, d, label))
		}
	}
	return byte(Raw64(t, label))
}

var edgeBytes = []byte{0, 1, 2, 0x14, 0x20, 0x21, 0x41, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x6a, 0x76, 0x7f, 0x80, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xfc, 0xfd, 0xfe, 0xff}

// Texts yields byte strings and texts that code may read something into: the
// formatted ones, the literals of the code under test, and for several
// alphabets one of every short length.
func Texts(yield func(Blob)) {
	for _, s := range formatted {
		yield(Raw([]byte(s)))
	}
	for _, s := range DictStrings() {
		yield(Raw([]byte(s)))
		yield(Raw([]byte(strings.ToUpper(s))))
		yield(Raw([]byte(s + ":01")))
	}
	seen := map[string]bool{}
	for _, a := range alphabets {
		if seen[a] {
			continue
		}
		seen[a] = true
		for n := 1; n <= 130; n++ {
			if n > 80 && n != 100 && n != 111 && n != 128 && n != 130 {
				continue
			}
			b := Pat(n, uint32(n)+5).Bytes()
			for i := range b {
				b[i] = a[int(b[i])%len(a)]
			}
			yield(Raw(b))
		}
	}
}

// Shapes is the number of shapes of n bytes.
func Shapes(n int) int { return 256 + 6*n + len(wellKnown) + 4 }

var wellKnown = []string{
	"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", // the field of secp256k1, and its order
	"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0",
	"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
	"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", // of nothing: SHA-256, SHA-256d, RIPEMD-160, HASH160
	"5df6e0e2761359d30a8275058e299fcc0381534545f55cf43e41983f5d4c9456", "9c1185a5c5e9fc54612808977ee8f548b2258d31", "b472a266d0bd89c13706a4132ccfb16f7c3b9fcb",
	"000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f", "4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b",
	"62e907b15cbf27d5425399ebf6f0fb50ebb88f18",
}

// Shape is shape k of n bytes: one byte over and over, runs of 00, ff or 01
// at either end, well-known values, palindromes, equal halves, counting up
// and down.
func Shape(n, k int) []byte {
	if n == 0 {
		return nil
	}
	k %= Shapes(n)
	if k < 256 {
		return rep(byte(k), n)
	}
	b := Pat(n, uint32(k)|4).Bytes()
	k -= 256
	if k < 6*n {
		v, at := []byte{0, 0xff, 1}[k%3], 1+k/6
		for i := 0; i < at; i++ {
			if k/3%2 == 0 {
				b[i] = v
			} else {
				b[n-1-i] = v
			}
		}
		return b
	}
	k -= 6 * n
	if k < len(wellKnown) {
		copy(b, unhex(wellKnown[k]))
		return b
	}
	for i := range b {
		switch k - len(wellKnown) {
		case 0:
			b[i] = b[n-1-i]
		case 1:
			b[i] = b[i%((n+1)/2)]
		case 2:
			b[i] = byte(i)
		default:
			b[i] = byte(n - i)
		}
	}
	return b
}

// AllShapes yields every shape of n bytes, and the twins, one after the other.
func AllShapes(n int, yield func([]byte)) {
	for k := 0; k < Shapes(n); k++ {
		yield(Shape(n, k))
	}
	Twins(n, func(a, b []byte) {
		yield(a)
		yield(b)
		yield(append([]byte{}, a...))
	})
}
