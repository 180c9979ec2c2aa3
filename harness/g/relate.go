package g

import (
	"crypto/sha256"
	"encoding/hex"
	"math/bits"

	"verif/harness/ref"
)

// Relations between the parts of one case: code that goes wrong only when two
// arguments are equal, or one is the other backwards or its digest, is never
// reached by drawing them independently.

// Relatives are values of the length of b that stand in a simple relation to it:
// the same, backwards, its digests, its complement, neighbours, halves swapped.
func Relatives(b []byte) [][]byte {
	n := len(b)
	fit := func(x []byte) []byte {
		x = append([]byte{}, x...)
		for len(x) < n {
			x = append(x, x...)
		}
		return x[:n:n]
	}
	cp := func() []byte { return append([]byte{}, b...) }
	out := [][]byte{cp(), ref.Rev(b)}
	if n == 0 {
		return out
	}
	d := ref.Sha256d(b)
	s := sha256.Sum256(b)
	out = append(out, fit(s[:]), fit(d), fit(ref.Rev(d)), fit(ref.Rev(s[:])), fit(ref.Hash160(b)))
	inv, sw, up := cp(), cp(), cp()
	for i := range b {
		inv[i] = ^b[i]
		sw[i] = b[(i+n/2)%n]
	}
	up[n-1]++
	low, first := cp(), cp()
	low[n-1] ^= 0x80
	first[0] ^= 1
	pairs := cp() // nibbles exchanged
	for i := range pairs {
		pairs[i] = pairs[i]<<4 | pairs[i]>>4
	}
	words := cp() // each four bytes backwards
	for i := 0; i+4 <= n; i += 4 {
		words[i], words[i+1], words[i+2], words[i+3] = b[i+3], b[i+2], b[i+1], b[i]
	}
	return append(out, inv, sw, up, low, first, pairs, words, fit([]byte(hex.EncodeToString(b))))
}

// Relations is how many relations Related knows.
const Relations = 64

// Related makes parts of a transaction from other parts of it, in the how-th
// way (of Relations). It does not change t.
func Related(t Tx, how int) Tx {
	t.In, t.Out = append([]TxIn{}, t.In...), append([]TxOut{}, t.Out...)
	if len(t.In) == 0 {
		return t
	}
	a := &t.In[0]
	b := &t.In[len(t.In)-1]
	var o *TxOut
	if len(t.Out) > 0 {
		o = &t.Out[len(t.Out)/2]
	} else {
		o = &TxOut{}
	}
	id := func() []byte { return unhex(a.ID) }
	raw := func(x []byte) *Blob { r := Raw(x); return &r }
	sc := func(p *Blob) []byte {
		if p == nil {
			return nil
		}
		return p.Bytes()
	}
	cut := func(x []byte) []byte { return x[:min(len(x), 3000)] }
	if how < 17 { // the ids of two inputs
		r := Relatives(id())
		b.ID = hex.EncodeToString(r[how%len(r)])
		if how%2 == 0 {
			b.Vout = a.Vout
		}
		return t
	}
	switch how {
	case 17:
		a.Vout, a.Seq = t.Version, t.Version
		t.Lock = t.Version
	case 18:
		a.Seq = a.Vout
		t.Lock = a.Vout
	case 19:
		t.Version, t.Lock, a.Vout, a.Seq = 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff
	case 20:
		t.Version, t.Lock, a.Vout, a.Seq = 0, 0, 0, 0
	case 21:
		t.Lock = bits.ReverseBytes32(t.Version)
		a.Vout = bits.ReverseBytes32(a.Seq)
	case 22:
		a.Vout = uint32(unhex(a.ID)[31]) | uint32(unhex(a.ID)[30])<<8 | uint32(unhex(a.ID)[29])<<16 | uint32(unhex(a.ID)[28])<<24
	case 23:
		a.Seq = uint32(unhex(a.ID)[0]) | uint32(unhex(a.ID)[1])<<8 | uint32(unhex(a.ID)[2])<<16 | uint32(unhex(a.ID)[3])<<24
	case 24:
		b.Vout, b.Seq = a.Seq, a.Vout
	case 25:
		b.Vout = a.Vout + 1
		b.ID = a.ID
	case 26:
		b.Vout = a.Vout ^ 1<<31
		b.ID = a.ID
	case 27:
		o.Sats = a.Sats
	case 28:
		o.Sats = uint64(a.Vout)<<32 | uint64(a.Seq)
	case 29:
		o.Sats, a.Sats = bits.ReverseBytes64(a.Sats), bits.ReverseBytes64(o.Sats)
	case 30:
		b.Sats = a.Sats
		o.Sats = 2 * a.Sats
	case 31:
		o.Sats = uint64(len(t.In))
		t.Lock = uint32(len(t.Out))
	case 32:
		o.Sats = uint64(o.Script.Len())
	case 33:
		a.Vout = uint32(len(t.Out))
		a.Seq = uint32(len(t.In))
	case 34:
		a.Prev = raw(o.Script.Bytes())
	case 35:
		a.Script = raw(o.Script.Bytes())
	case 36:
		a.Script = a.Prev
	case 37:
		if a.Script != nil && a.Prev != nil {
			a.Script, a.Prev = a.Prev, a.Script
		}
	case 38:
		if a.Prev != nil && b.Prev != nil {
			a.Prev, b.Prev = b.Prev, a.Prev
		}
	case 39:
		b.Prev, b.Script, b.Sats = a.Prev, a.Script, a.Sats
	case 40:
		a.Script = raw(id())
		o.Script = Raw(id())
	case 41:
		a.Script = raw(ref.Rev(id()))
		o.Script = Raw(ref.Rev(id()))
	case 42:
		o.Script = Raw(ref.Rev(cut(sc(a.Script))))
	case 43:
		o.Script = Raw(append(cut(sc(a.Script)), cut(sc(a.Prev))...))
	case 44: // pay to the hash of the script
		o.Script = Raw(append(append([]byte{0xa9, 0x14}, ref.Hash160(cut(sc(a.Script)))...), 0x87))
	case 45: // the script holds the id of what it spends, pushed
		a.Script = raw(ref.Push(id()))
		a.Prev = raw(ref.Push(ref.Rev(id())))
	case 46: // one input serialised inside another's script
		x := a.Ref()
		x.Script = cut(x.Script)
		b.Script = raw(ref.InBytes(x))
	case 47: // an output serialised inside an output
		x := o.Script.Bytes()
		o.Script = Raw(ref.OutBytes(ref.Out{Sats: o.Sats, Script: cut(x)}))
	case 48: // a transaction inside a transaction
		o.Script = Raw((&ref.Tx{Version: t.Version, In: []ref.In{{Hash: id(), Vout: a.Vout, Seq: a.Seq}}, Lock: t.Lock}).Bytes())
	case 49: // its own beginning
		a.Script = raw([]byte{byte(t.Version), byte(t.Version >> 8), byte(t.Version >> 16), byte(t.Version >> 24), byte(len(t.In))})
	case 50:
		a.Script = raw([]byte{byte(a.Seq), byte(a.Seq >> 8), byte(a.Seq >> 16), byte(a.Seq >> 24)})
	case 51:
		o.Script = Raw([]byte{byte(t.Lock), byte(t.Lock >> 8), byte(t.Lock >> 16), byte(t.Lock >> 24)})
	case 52:
		a.Prev = raw(ref.P2PKH(ref.Hash160(cut(sc(a.Script)))))
	case 53:
		a.ID = hex.EncodeToString(ref.Sha256d(cut(sc(a.Script))))
	case 54:
		a.ID = hex.EncodeToString(ref.Sha256d(o.Script.Bytes()))
	case 55: // spends an input's spender: a cycle
		x := t
		x.In = []TxIn{*b}
		a.ID = hex.EncodeToString(ref.Rev(ref.Sha256d(x.Ref().Bytes())))
	case 56:
		for k := range t.Out {
			t.Out[k] = *o
		}
	case 57:
		for k := range t.In {
			t.In[k] = *a
		}
	case 58:
		for k := range t.Out {
			t.Out[k].Script = o.Script
		}
	case 59:
		for k := range t.Out {
			t.Out[k].Sats = o.Sats
		}
	case 60: // in ascending and descending order
		for k := range t.Out {
			t.Out[k].Sats = uint64(k)
		}
		for k := range t.In {
			t.In[k].Vout = uint32(len(t.In) - k)
		}
	case 61: // palindromes
		h := id()
		copy(h[16:], ref.Rev(h[:16]))
		a.ID = hex.EncodeToString(h)
	case 62: // scripts that differ in their last byte
		x := append(cut(o.Script.Bytes()), 0)
		for k := range t.Out {
			x[len(x)-1] = byte(k)
			t.Out[k].Script = Raw(x)
		}
	case 63: // scripts each a beginning of the next
		x := cut(o.Script.Bytes())
		for k := range t.Out {
			t.Out[k].Script = Raw(x)
			x = append(x, byte(k))
		}
	}
	return t
}

// RelatedTxs yields every relation over a few transactions. With prev, inputs
// have previous scripts.
func RelatedTxs(prev bool, yield func(Tx)) {
	for _, n := range [][2]int{{1, 1}, {2, 1}, {2, 2}, {3, 4}} {
		for seed := uint32(0); seed < 2; seed++ {
			for _, script := range []Blob{Raw(ref.P2PKH(Pat(20, 9+seed).Bytes())), Pat(int(37*seed), 8)} {
				t := Tx{Version: 2 + seed*0x01020304, Lock: 0x11223344 * seed}
				for k := 0; k < n[0]; k++ {
					s := Pat(20+k+int(seed), 7+uint32(k))
					in := TxIn{ID: Pat(32, 8*uint32(k)+6+seed).Hex(), Vout: uint32(k) + 0x050607*seed, Seq: 0xfffffff0 + uint32(k), Script: &s}
					if prev {
						p := script
						in.Prev, in.Sats = &p, uint64(k)*1000003+seed32(seed)
					}
					t.In = append(t.In, in)
				}
				for k := 0; k < n[1]; k++ {
					t.Out = append(t.Out, TxOut{Sats: uint64(k)<<33 + 7*seed32(seed), Script: Raw(ref.P2PKH(Pat(20, 5+uint32(k)).Bytes()))})
				}
				for how := 0; how < Relations; how++ {
					x := Related(t, how)
					if !prev {
						for k := range x.In {
							x.In[k].Prev = nil
						}
					}
					yield(x)
				}
			}
		}
	}
}

func seed32(s uint32) uint64 { return uint64(s) * 0x0102030405060708 }
