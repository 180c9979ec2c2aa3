// Package ref holds the reference models: written from the Bitcoin
// specifications, sharing no code with the library under test.
package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"

	"golang.org/x/crypto/ripemd160"
)

// In, Out and Tx are the plain contents of a transaction.
type In struct {
	Hash   []byte // 32 bytes in wire order
	Vout   uint32
	Script []byte
	Seq    uint32
}

// Out is an output.
type Out struct {
	Sats   uint64
	Script []byte
}

// Tx is a transaction.
type Tx struct {
	Version uint32
	In      []In
	Out     []Out
	Lock    uint32
}

// Compact is the compact-size encoding.
func Compact(v uint64) []byte {
	switch {
	case v <= 252:
		return []byte{byte(v)}
	case v <= 65535:
		return []byte{253, byte(v), byte(v >> 8)}
	case v <= 4294967295:
		return []byte{254, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
	}
	b := []byte{255}
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

// ReadCompact reads a compact-size integer of any form; ok is false when b is
// too short.
func ReadCompact(b []byte) (v uint64, n int, ok bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	w := 0
	switch b[0] {
	case 253:
		w = 2
	case 254:
		w = 4
	case 255:
		w = 8
	default:
		return uint64(b[0]), 1, true
	}
	if len(b) < 1+w {
		return 0, 0, false
	}
	for i := w; i >= 1; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, 1 + w, true
}

func u32(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
func u64(b []byte, v uint64) []byte { return u32(u32(b, uint32(v)), uint32(v>>32)) }

// InBytes is the wire form of an input.
func InBytes(in In) []byte {
	b := append([]byte{}, in.Hash...)
	b = u32(b, in.Vout)
	b = append(b, Compact(uint64(len(in.Script)))...)
	b = append(b, in.Script...)
	return u32(b, in.Seq)
}

// OutBytes is the wire form of an output.
func OutBytes(o Out) []byte {
	b := u64(nil, o.Sats)
	b = append(b, Compact(uint64(len(o.Script)))...)
	return append(b, o.Script...)
}

// Bytes is the wire form of a transaction.
func (t *Tx) Bytes() []byte {
	b := u32(nil, t.Version)
	b = append(b, Compact(uint64(len(t.In)))...)
	for _, in := range t.In {
		b = append(b, in.Hash...)
		b = u32(b, in.Vout)
		b = append(b, Compact(uint64(len(in.Script)))...)
		b = append(b, in.Script...)
		b = u32(b, in.Seq)
	}
	b = append(b, Compact(uint64(len(t.Out)))...)
	for _, o := range t.Out {
		b = u64(b, o.Sats)
		b = append(b, Compact(uint64(len(o.Script)))...)
		b = append(b, o.Script...)
	}
	return u32(b, t.Lock)
}

// Parsed says how a parse went.
type Parsed struct {
	OK      bool
	Minimal bool // every length prefix was minimal
	Used    int
}

type reader struct {
	b   []byte
	pos int
	bad bool
	non bool // saw a non-minimal prefix
}

func (r *reader) take(n uint64) []byte {
	if r.bad || n > uint64(len(r.b)-r.pos) {
		r.bad = true
		return nil
	}
	s := r.b[r.pos : r.pos+int(n)]
	r.pos += int(n)
	return s
}
func (r *reader) u32() uint32 {
	s := r.take(4)
	if s == nil {
		return 0
	}
	return binary.LittleEndian.Uint32(s)
}
func (r *reader) compact() uint64 {
	if r.bad {
		return 0
	}
	v, n, ok := ReadCompact(r.b[r.pos:])
	if !ok {
		r.bad = true
		return 0
	}
	if n != len(Compact(v)) {
		r.non = true
	}
	r.pos += n
	return v
}
func (r *reader) in() In {
	var in In
	in.Hash = append([]byte{}, r.take(32)...)
	in.Vout = r.u32()
	in.Script = append([]byte{}, r.take(r.compact())...)
	in.Seq = r.u32()
	return in
}
func (r *reader) out() Out {
	var o Out
	lo, hi := r.u32(), r.u32()
	o.Sats = uint64(hi)<<32 | uint64(lo)
	o.Script = append([]byte{}, r.take(r.compact())...)
	return o
}
func (r *reader) done() Parsed { return Parsed{OK: !r.bad, Minimal: !r.non, Used: r.pos} }

// ParseIn parses an input from the front of b.
func ParseIn(b []byte) (In, Parsed) { r := &reader{b: b}; in := r.in(); return in, r.done() }

// ParseOut parses an output from the front of b.
func ParseOut(b []byte) (Out, Parsed) { r := &reader{b: b}; o := r.out(); return o, r.done() }

// ParseTx parses exactly one transaction.
func ParseTx(b []byte) (*Tx, Parsed) {
	r := &reader{b: b}
	t := &Tx{Version: r.u32()}
	n := r.compact()
	for i := uint64(0); i < n && !r.bad; i++ {
		t.In = append(t.In, r.in())
	}
	n = r.compact()
	for i := uint64(0); i < n && !r.bad; i++ {
		t.Out = append(t.Out, r.out())
	}
	t.Lock = r.u32()
	if r.pos != len(b) {
		r.bad = true
	}
	return t, r.done()
}

// Sha256d is double SHA-256.
func Sha256d(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// Hash160 is RIPEMD-160 of SHA-256.
func Hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

// Rev is b reversed.
func Rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return r
}

// ID is the transaction id in hex.
func (t *Tx) ID() string { return hex.EncodeToString(Rev(Sha256d(t.Bytes()))) }

// SigHash is the replay-protected signature digest (bitcoin-sv
// doc/abc/replay-protected-sighash.md) in digest byte order.
func (t *Tx) SigHash(idx int, scriptCode []byte, value uint64, flag byte) []byte {
	base := flag & 0x1f
	anyone := flag&0x80 != 0
	zero := make([]byte, 32)
	prevouts, seqs, outs := zero, zero, zero
	if !anyone {
		var b []byte
		for _, in := range t.In {
			b = u32(append(b, in.Hash...), in.Vout)
		}
		prevouts = Sha256d(b)
	}
	if !anyone && base != 2 && base != 3 {
		var b []byte
		for _, in := range t.In {
			b = u32(b, in.Seq)
		}
		seqs = Sha256d(b)
	}
	if base != 2 && base != 3 {
		var b []byte
		for _, o := range t.Out {
			b = append(b, OutBytes(o)...)
		}
		outs = Sha256d(b)
	} else if base == 3 && idx < len(t.Out) {
		outs = Sha256d(OutBytes(t.Out[idx]))
	}
	b := u32(nil, t.Version)
	b = append(b, prevouts...)
	b = append(b, seqs...)
	b = u32(append(b, t.In[idx].Hash...), t.In[idx].Vout)
	b = append(b, Compact(uint64(len(scriptCode)))...)
	b = append(b, scriptCode...)
	b = u64(b, value)
	b = u32(b, t.In[idx].Seq)
	b = append(b, outs...)
	b = u32(b, t.Lock)
	b = u32(b, uint32(flag))
	return Sha256d(b)
}
