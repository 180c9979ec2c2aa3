package g

import (
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"testing"
)

func TestTwins(t *testing.T) {
	sums := map[string]func([]byte) uint64{
		"adler":  func(b []byte) uint64 { return uint64(adler32.Checksum(b)) },
		"crc":    func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) },
		"crc c":  func(b []byte) uint64 { return uint64(crc32.Checksum(b, castagnoli)) },
		"crc k":  func(b []byte) uint64 { return uint64(crc32.Checksum(b, crc32.MakeTable(crc32.Koopman))) },
		"crc 64": func(b []byte) uint64 { return crc64.Checksum(b, crc64iso) },
		"crc e":  func(b []byte) uint64 { return crc64.Checksum(b, crc64.MakeTable(crc64.ECMA)) },
	}
	for _, n := range []int{9, 32, 100, 256} {
		found := map[string]int{}
		Twins(n, func(a, b []byte) {
			if len(a) != n || len(b) != n || string(a) == string(b) {
				t.Fatalf("bad pair %x %x", a, b)
			}
			for name, f := range sums {
				if f(a) == f(b) {
					found[name]++
				}
			}
		})
		for name := range sums {
			if found[name] == 0 {
				t.Errorf("%d bytes: no pair with the same %s", n, name)
			}
		}
	}
}
