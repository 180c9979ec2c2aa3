package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/format"
	"math/big"
	"os"
	"runtime"
	"sync"

	"github.com/bitcoinsv/bsvd/bsvec"

	"verif/harness/g"
	"verif/harness/ref"
)

// pairs finds, for every digest, up to most pairs of numbers below n whose
// strings have it in common. (Two views of one number, say, are two calls.)
func pairs(n uint64, most int, view func(v uint64) []byte, digests []g.Digest32) []uint64 {
	all := make([][]byte, n)
	var wg sync.WaitGroup
	procs := uint64(runtime.NumCPU())
	for p := uint64(0); p < procs; p++ {
		wg.Add(1)
		go func(p uint64) {
			defer wg.Done()
			for v := p; v < n; v += procs {
				all[v] = view(v)
			}
		}(p)
	}
	wg.Wait()
	var out []uint64
	for _, d := range digests {
		seen := make(map[uint32]uint64, n)
		found := 0
		for v := uint64(0); v < n && found < most; v++ {
			if all[v] == nil {
				continue
			}
			s := d.Sum(all[v])
			if w, ok := seen[s]; ok && !bytes.Equal(all[w], all[v]) {
				out = append(out, w, v)
				found++
			}
			seen[s] = v
		}
		fmt.Fprintln(os.Stderr, d.Name, found)
	}
	return out
}

func twins() {
	var w bytes.Buffer
	fmt.Fprintf(&w, "// Code generated by cmd/mine twins; DO NOT EDIT.\n\npackage g\n\n")
	list := func(name, doc string, l []uint64) { fmt.Fprintf(&w, "// %s %s\nvar %s = %#v\n\n", name, doc, name, l) }
	fmt.Fprintf(&w, "// MinedTwins are, per length of TwinLens, pairs of numbers whose TwinBytes have one of Digests32 in common.\nvar MinedTwins = [][]uint64{\n")
	for _, n := range g.TwinLens {
		l := pairs(1<<18, 2, func(v uint64) []byte { return g.TwinBytes(n, v) }, g.Digests32)
		fmt.Fprintf(&w, "%s,\n", fmt.Sprintf("%#v", l)[len("[]uint64"):])
	}
	fmt.Fprintf(&w, "}\n\n")
	ends4 := []g.Digest32{
		{Name: "first", Sum: func(b []byte) uint32 { return binary.BigEndian.Uint32(b) }},
		{Name: "last", Sum: func(b []byte) uint32 { return binary.BigEndian.Uint32(b[len(b)-4:]) }},
	}
	curve := bsvec.S256()
	pub := func(v uint64) []byte {
		if v == 0 {
			return nil
		}
		_, p := bsvec.PrivKeyFromBytes(curve, new(big.Int).SetUint64(v).FillBytes(make([]byte, 32)))
		return p.SerializeCompressed()
	}
	const keys = 1 << 18
	pubs := make([][]byte, keys)
	var wg sync.WaitGroup
	for p := uint64(0); p < 8; p++ {
		wg.Add(1)
		go func(p uint64) {
			defer wg.Done()
			for v := p; v < keys; v += 8 {
				pubs[v] = pub(v)
			}
		}(p)
	}
	wg.Wait()
	of := func(f func(pub []byte) []byte) func(uint64) []byte {
		return func(v uint64) []byte {
			if v == 0 {
				return nil
			}
			return f(pubs[v])
		}
	}
	weak := g.Digests32[:10]
	l := pairs(keys, 2, of(func(b []byte) []byte { return b }), weak)
	l = append(l, pairs(keys, 2, of(func(b []byte) []byte { return b[1:] }), ends4)...)
	l = append(l, pairs(keys, 2, of(h160), append(ends4, weak...))...)
	l = append(l, pairs(keys, 2, of(func(b []byte) []byte { return []byte(hex.EncodeToString(b)) }), weak)...)
	l = append(l, pairs(keys, 2, of(func(b []byte) []byte { return []byte(hex.EncodeToString(h160(b))) }), weak)...)
	l = append(l, pairs(keys, 2, of(func(b []byte) []byte { return []byte(ref.B58Check(append([]byte{0}, h160(b)...))) }), append(ends4, weak...))...)
	l = append(l, pairs(keys, 2, of(func(b []byte) []byte { return ref.P2PKH(h160(b)) }), weak)...)
	list("MinedKeyTwins", "are pairs of private keys that have four bytes of their public keys, hashes, addresses or scripts in common, or a digest of them.", l)

	_, p7 := bsvec.PrivKeyFromBytes(curve, g.Unhex(g.MinedKey))
	prev := ref.P2PKH(h160(p7.SerializeCompressed()))
	sigHash := func(v uint64) []byte {
		t := g.MinedTx(uint32(v))
		return t.Ref().SigHash(0, prev, g.MinedSats, 0x41)
	}
	l = pairs(1<<20, 60, sigHash, ends4)
	l = append(l, pairs(1<<18, 3, sigHash, weak)...)
	list("MinedVoutTwins", "are pairs of output indexes for which the digests of MinedTx have four bytes, or a digest of them, in common.", l)

	head := g.MinedTx(0).Ref().Bytes()
	lock := func(v uint64) []byte {
		b := append([]byte{}, head...)
		binary.LittleEndian.PutUint32(b[len(b)-4:], uint32(v*0x9e3779b1))
		return b
	}
	l = pairs(1<<18, 2, lock, weak)
	l = append(l, pairs(1<<18, 4, func(v uint64) []byte { return shad(lock(v)) }, ends4)...)
	list("MinedLockTwins", "are pairs of numbers: the locktimes v*0x9e3779b1 give MinedTx(0) encodings or ids with four bytes, or a digest of them, in common.", l)

	l = pairs(1<<18, 4, func(v uint64) []byte { return shad(append(g.MinedLeaf(0), g.MinedLeaf(v)...)) }, append(ends4, weak...))
	list("MinedSiblingTwins", "are pairs of numbers v for which the parents of MinedLeaf(0) and MinedLeaf(v) have four bytes, or a digest of them, in common.", l)

	out, err := format.Source(w.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile("g/minedtwins.go", out, 0o644); err != nil {
		panic(err)
	}
}
