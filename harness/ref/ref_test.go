package ref

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"testing"

	"golang.org/x/crypto/ripemd160"
)

func TestHashes(t *testing.T) {
	b := make([]byte, 1000)
	for i := range b {
		b[i] = byte(i * 7)
		s := sha256.Sum256(b[:i])
		if !bytes.Equal(SHA256(b[:i]), s[:]) {
			t.Fatalf("sha256 of %d bytes", i)
		}
		r := ripemd160.New()
		r.Write(b[:i])
		if !bytes.Equal(RIPEMD160(b[:i]), r.Sum(nil)) {
			t.Fatalf("ripemd160 of %d bytes", i)
		}
	}
	if hex.EncodeToString(SHA256(nil)) != "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855" || hex.EncodeToString(RIPEMD160([]byte("abc"))) != "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" {
		t.Fatal("vectors")
	}
}

func TestChild(t *testing.T) {
	// BIP32 test vector 2, chain m/0: its neutered children
	k, ok := ParseExtKeyText("xpub661MyMwAqRbcFW31YEwpkMuc5THy2PSt5bDMsktWQcFF8syAmRUapSCGu8ED9W6oDMSgv6Zz8idoc4a6mr8BDzTJY47LJhkJ8UB7WEGuduB")
	if !ok {
		t.Fatal("parse")
	}
	c, _, ok := k.Child(0)
	if !ok || hex.EncodeToString(c.Pub) != "02fc9e5af0ac8d9b3cecfe2a888e2117ba3d089d8585886c9c826b6b22a98d12ea" {
		t.Fatalf("child %x", c.Pub)
	}
	p, ok := ParseExtKeyText("xprv9s21ZrQH143K31xYSDQpPDxsXRTUcvj2iNHm5NUtrGiGG5e2DtALGdso3pGz6ssrdK4PFmM8NSpSBHNqPqm55Qn3LqFtT2emdEXVYsCzC2U")
	if !ok {
		t.Fatal("parse")
	}
	d, _, ok := p.Child(0)
	if !ok || !bytes.Equal(c.Pub, d.Pub) {
		t.Fatal("private and public children differ")
	}
	e, _, ok := d.Child(1<<31 + 2147483647) // m/0/2147483647'
	if !ok || hex.EncodeToString(e.Pub) != "03c01e7425647bdefa82b12d9bad5e3e6865bee0502694b94ca58b666abc0a5c3b" {
		t.Fatalf("hardened %x", e.Pub)
	}
}
