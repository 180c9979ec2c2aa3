// Command mine searches for inputs whose hashes, keys or signatures have rare
// byte patterns (zero or ff bytes at either end) and writes g/mined.go, or, with
// the argument twins, for pairs with four bytes of such values in common, and
// writes g/minedtwins.go. It uses no libsv code. Run it from the harness
// directory: go run ./cmd/mine
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/format"
	"math/big"
	"os"
	"sort"
	"sync"

	"github.com/bitcoinsv/bsvd/bsvec"
	"golang.org/x/crypto/ripemd160"

	"verif/harness/g"
	"verif/harness/ref"
)

func sha(b []byte) []byte  { h := sha256.Sum256(b); return h[:] }
func shad(b []byte) []byte { return sha(sha(b)) }
func ripe(b []byte) []byte { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }
func h160(b []byte) []byte { return ripe(sha(b)) }
func le8(v uint64) []byte  { return binary.LittleEndian.AppendUint64(nil, v) }
func ends(b []byte, n int) string {
	z, f := make([]byte, n), bytes.Repeat([]byte{0xff}, n)
	switch {
	case bytes.HasPrefix(b, z):
		return "zeros first"
	case bytes.HasSuffix(b, z):
		return "zeros last"
	case bytes.HasPrefix(b, f):
		return "ff first"
	case bytes.HasSuffix(b, f):
		return "ff last"
	}
	return ""
}

type finds struct {
	sync.Mutex
	m map[string][]uint64
}

func (f *finds) add(class string, v uint64) {
	f.Lock()
	f.m[class] = append(f.m[class], v)
	f.Unlock()
}

func search(n uint64, one func(v uint64, add func(class string))) []uint64 {
	f := &finds{m: map[string][]uint64{}}
	var wg sync.WaitGroup
	const procs = 8
	for p := uint64(0); p < procs; p++ {
		wg.Add(1)
		go func(p uint64) {
			defer wg.Done()
			for v := 1 + p; v <= n; v += procs {
				one(v, func(c string) { f.add(c, v) })
			}
		}(p)
	}
	wg.Wait()
	var out []uint64
	var names []string
	for c := range f.m {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		l := f.m[c]
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if len(l) > 3 {
			l = l[:3]
		}
		fmt.Fprintln(os.Stderr, c, l)
		out = append(out, l...)
	}
	return out
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "twins" {
		twins()
		return
	}
	var w bytes.Buffer
	fmt.Fprintf(&w, "// Code generated by cmd/mine; DO NOT EDIT.\n\npackage g\n\n")
	list := func(name, doc string, l []uint64) { fmt.Fprintf(&w, "// %s %s\nvar %s = %#v\n\n", name, doc, name, l) }
	curve := bsvec.S256()
	list("MinedKeys", "are private keys whose public key, its hash or its address's checksum has two zero or ff bytes at an end.", search(300000, func(v uint64, add func(string)) {
		_, pub := bsvec.PrivKeyFromBytes(curve, new(big.Int).SetUint64(v).FillBytes(make([]byte, 32)))
		hit := func(what string, b []byte) {
			if e := ends(b, 2); e != "" {
				add(what + " " + e)
			}
		}
		c, u := pub.SerializeCompressed(), pub.SerializeUncompressed()
		hit("x", c[1:])
		hit("y", u[33:])
		hit("hash", h160(c))
		hit("uncompressed hash", h160(u))
		hit("checksum", shad(append([]byte{0}, h160(c)...))[:4])
		hit("testnet checksum", shad(append([]byte{0x6f}, h160(c)...))[:4])
	}))
	for _, flag := range []byte{0x41, 0xc3} {
		key, pub := bsvec.PrivKeyFromBytes(curve, g.Unhex(g.MinedKey))
		prev := ref.P2PKH(h160(pub.SerializeCompressed()))
		list(fmt.Sprintf("MinedVouts%02X", flag), "are output indexes for which the digest of MinedTx or a part of its signature is short.", search(250000, func(v uint64, add func(string)) {
			t := g.MinedTx(uint32(v))
			h := t.Ref().SigHash(0, prev, g.MinedSats, flag)
			if e := ends(h, 2); e != "" {
				add("digest " + e)
			}
			sig, err := key.Sign(ref.Rev(h))
			if err != nil {
				panic(err)
			}
			for n, x := range map[string]*big.Int{"r": sig.R, "s": sig.S} {
				if x.BitLen() <= 240 {
					add(n + " short")
				}
				if x.BitLen() > 240 && x.BitLen() <= 248 && x.Bit(247) == 1 {
					add(n + " short, padded")
				}
			}
			if sig.R.BitLen() <= 248 && sig.S.BitLen() <= 248 {
				add("both shorter")
			}
		}))
	}
	const n = 40000000
	for _, x := range []struct {
		name string
		f    func(uint64) []byte
	}{
		{"Sha256", func(v uint64) []byte { return sha(le8(v)) }},
		{"Sha256d", func(v uint64) []byte { return shad(le8(v)) }},
		{"Ripemd160", func(v uint64) []byte { return ripe(le8(v)) }},
		{"Hash160", func(v uint64) []byte { return h160(le8(v)) }},
	} {
		list("Mined"+x.name, "are numbers whose eight little-endian bytes have a digest with three zero or ff bytes at an end.", search(n, func(v uint64, add func(string)) {
			if e := ends(x.f(v), 3); e != "" {
				add(x.name + " " + e)
			}
		}))
	}
	head := g.MinedTx(0).Ref().Bytes()
	list("MinedLocks", "are locktimes that give MinedTx(0) an id with three zero or ff bytes at an end.", search(n, func(v uint64, add func(string)) {
		b := append([]byte{}, head...)
		binary.LittleEndian.PutUint32(b[len(b)-4:], uint32(v))
		if e := ends(shad(b), 3); e != "" {
			add("id " + e)
		}
	}))
	list("MinedSiblings", "are numbers v for which the parent of MinedLeaf(0) and MinedLeaf(v) has three zero or ff bytes at an end.", search(n, func(v uint64, add func(string)) {
		if e := ends(shad(append(g.MinedLeaf(0), g.MinedLeaf(v)...)), 3); e != "" {
			add("parent " + e)
		}
	}))
	out, err := format.Source(w.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile("g/mined.go", out, 0o644); err != nil {
		panic(err)
	}
}
