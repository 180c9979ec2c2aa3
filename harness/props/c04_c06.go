package props

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type c04 struct {
	Tx   g.Tx   `json:"tx"`
	Idx  uint32 `json:"idx"`
	Flag byte   `json:"flag"`
	Miss string `json:"miss,omitempty"` // "id" or "script": what the input lacks
	// Edits are made afterwards to the same transaction; after each the
	// digests of input Idx (again) and of the edited input are asked for.
	Edits []g.Edit `json:"edits,omitempty"`
}

// digest compares the digest of an input with the reference.
func digest(tx *transaction.Transaction, m g.Tx, idx int, flag byte) error {
	want := m.Ref()
	if m.In[idx].Prev == nil || m.In[idx].ID == "" {
		return nil
	}
	before := snapshot(tx)
	got, err := tx.GetInputSignatureHash(uint32(idx), flagOf(flag))
	if e := before.diff(snapshot(tx), -1); e != nil {
		return fmt.Errorf("GetInputSignatureHash changed the transaction: %v", e)
	}
	if err != nil {
		return fmt.Errorf("GetInputSignatureHash(%d, %02x): %v", idx, flag, err)
	}
	return same(fmt.Sprintf("signature hash of input %d of %d, %d outputs, flag %02x", idx, len(want.In), len(want.Out), flag),
		got, ref.Rev(want.SigHash(idx, m.In[idx].Prev.Bytes(), m.In[idx].Sats, flag)))
}

func check04(c c04) error {
	tx, want := c.Tx.Lib(), c.Tx.Ref()
	n := len(want.In)
	if int64(c.Idx) < int64(n) {
		switch c.Miss {
		case "id":
			tx.Inputs[c.Idx].PreviousTxID = ""
		case "script":
			tx.Inputs[c.Idx].PreviousTxScript = nil
		}
	}
	before := snapshot(tx)
	got, err := tx.GetInputSignatureHash(c.Idx, flagOf(c.Flag))
	if e := before.diff(snapshot(tx), -1); e != nil {
		return fmt.Errorf("GetInputSignatureHash changed the transaction: %v", e)
	}
	if int64(c.Idx) >= int64(n) {
		return mustErr(fmt.Sprintf("signature hash of input %d of %d", c.Idx, n), err)
	}
	if c.Miss != "" {
		return mustErr("signature hash of an input without its previous "+c.Miss, err)
	}
	if err != nil {
		return fmt.Errorf("GetInputSignatureHash(%d, %02x): %v", c.Idx, c.Flag, err)
	}
	in := c.Tx.Flat().In[c.Idx]
	if in.Prev == nil {
		return fmt.Errorf("bad case: no previous script")
	}
	if err := same(fmt.Sprintf("signature hash of input %d of %d, %d outputs, flag %02x", c.Idx, n, len(want.Out), c.Flag),
		got, ref.Rev(want.SigHash(int(c.Idx), in.Prev.Bytes(), in.Sats, c.Flag))); err != nil {
		return err
	}
	again, err := tx.GetInputSignatureHash(c.Idx, flagOf(c.Flag))
	if err != nil {
		return fmt.Errorf("second call: %v", err)
	}
	if err := same("signature hash asked for again", again, got); err != nil {
		return err
	}
	n = 0
	return edited(tx, c.Tx.Flat(), c.Edits, func(tx *transaction.Transaction, m g.Tx) error {
		e := c.Edits[n]
		n++
		if len(m.In) == 0 {
			return nil
		}
		for _, idx := range []int{int(c.Idx) % len(m.In), int(e.I) % len(m.In)} {
			for _, f := range []byte{c.Flag, byte(0x41 + n%3)} {
				if err := digest(tx, m, idx, f); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func genIdx(t *rapid.T, n int) uint32 {
	if n == 0 || g.Chance(t, 25, "badidx") {
		if g.Bool(t, "far") {
			return g.U32(t, "idx")
		}
		return uint32(n + g.Int(t, 0, 2, "past"))
	}
	return uint32(g.Int(t, 0, n-1, "idx"))
}

type c05 struct {
	Key  string `json:"key"`
	Tx   g.Tx   `json:"tx"`
	Idx  uint32 `json:"idx"`
	Sats uint64 `json:"sats"`
	Flag byte   `json:"flag"`
	Mut  string `json:"mut,omitempty"`
	A    uint32 `json:"a,omitempty"`
	B    uint32 `json:"b,omitempty"`
	Miss string `json:"miss,omitempty"`
	// Edits are made to the signed transaction before it is signed again,
	// with Flag2.
	Edits []g.Edit `json:"edits,omitempty"`
	Flag2 byte     `json:"flag2,omitempty"`
	// Pad inputs stand in front of the others; Idx does not count them.
	Pad int `json:"pad,omitempty"`
	// Old is a key the same signer value holds, and signs with, first.
	Old string `json:"old,omitempty"`
}

// newSigner is a signer for the case; now and then one that has signed with
// another key before.
func (c c05) newSigner(flag byte) *signature.InternalSigner {
	s := &signature.InternalSigner{PrivateKey: privKey(c.Key), SigHashFlag: flagOf(flag)}
	if c.Old == "" {
		return s
	}
	s.PrivateKey = privKey(c.Old)
	x := transaction.New()
	_ = x.From(id1, 3, hex.EncodeToString(ref.P2PKH(ref.Hash160(pubKey(c.Old)))), 4)
	if c.A%2 == 0 {
		_ = x.Sign(0, s)
	} else {
		_ = x.SignAuto(s)
	}
	if c.A/2%2 == 0 {
		*s.PrivateKey = *privKey(c.Key) // the same object holds another key now
	} else {
		s.PrivateKey = privKey(c.Key)
	}
	s.SigHashFlag = flagOf(flag)
	return s
}

// resign edits the signed transaction and signs the same input again.
func resign(c c05, tx *transaction.Transaction, unlock, pub, prev []byte) error {
	m := c.Tx.Flat()
	u := g.Raw(unlock)
	idx := int(c.Idx)
	m.In[idx].Script = &u
	for n, e := range c.Edits {
		at, other := int(e.I)%len(m.In), int(uint32(e.V)%uint32(len(m.In)))
		switch e.K {
		case "prev", "prevbyte", "id":
			if at == idx && e.K != "id" {
				continue
			}
		case "delin":
			if at == idx {
				continue
			}
		case "swapin":
			if at == idx {
				idx = other
			} else if other == idx {
				idx = at
			}
		}
		k := len(m.In)
		m = g.Edited(tx, m, e)
		if e.K == "delin" && at < idx && len(m.In) < k {
			idx--
		}
		before := snapshot(tx)
		if err := tx.Sign(uint32(idx), c.newSigner(c.Flag2)); err != nil {
			return fmt.Errorf("after edit %d (%s), signing input %d: %v", n, e.K, idx, err)
		}
		if err := before.diff(snapshot(tx), idx); err != nil {
			return fmt.Errorf("after edit %d (%s), signing changed more than the unlocking script: %v", n, e.K, err)
		}
		b := g.Raw(scriptBytes(tx.Inputs[idx].UnlockingScript))
		m.In[idx].Script = &b
		if err := checkUnlock(b.Bytes(), pub, effFlag(c.Flag2)); err != nil {
			return fmt.Errorf("after edit %d (%s): %v", n, e.K, err)
		}
		if err := engine(m.Ref(), idx, prev, m.In[idx].Sats); err != nil {
			return fmt.Errorf("the interpreter rejects input %d signed again after edit %d (%s), flag %02x: %v", idx, n, e.K, effFlag(c.Flag2), err)
		}
	}
	return nil
}

var mutations = []string{"none", "version", "lock", "selfseq", "otherseq", "selfvout", "selfhash", "othervout", "otherhash", "outsats", "outscript", "addout", "removeout", "swapout",
	"addin", "removein", "swapin", "amount", "flagbyte", "outsats@idx", "outscript@idx", "otherscript"}

// mutate changes one thing in the signed transaction. It returns the new
// index of the signed input, the amount, and whether anything was changed.
func mutate(t *ref.Tx, idx int, value uint64, kind string, a, b uint32) (int, uint64, bool) {
	other := func() int { // an input other than idx, -1 if none
		if len(t.In) < 2 {
			return -1
		}
		k := int(a) % (len(t.In) - 1)
		if k >= idx {
			k++
		}
		return k
	}
	o := -1
	if len(t.Out) > 0 {
		o = int(a) % len(t.Out)
	}
	flip := func(h []byte) []byte {
		r := append([]byte{}, h...)
		r[int(b)%len(r)] ^= 1 << (b >> 8 % 8 & 7)
		return r
	}
	switch kind {
	case "version":
		t.Version ^= 1 << (a % 32)
	case "lock":
		t.Lock ^= 1 << (a % 32)
	case "selfseq":
		t.In[idx].Seq ^= 1 << (a % 32)
	case "selfvout":
		t.In[idx].Vout ^= 1 << (a % 32)
	case "selfhash":
		t.In[idx].Hash = flip(t.In[idx].Hash)
	case "otherseq", "othervout", "otherhash", "removein", "swapin", "otherscript":
		k := other()
		if k < 0 {
			return idx, value, false
		}
		switch kind {
		case "otherseq":
			t.In[k].Seq ^= 1 << (b % 32)
		case "othervout":
			t.In[k].Vout ^= 1 << (b % 32)
		case "otherhash":
			t.In[k].Hash = flip(t.In[k].Hash)
		case "otherscript":
			t.In[k].Script = append(append([]byte{}, t.In[k].Script...), byte(b))
		case "removein":
			t.In = append(append([]ref.In{}, t.In[:k]...), t.In[k+1:]...)
			if k < idx {
				idx--
			}
		case "swapin":
			t.In[k], t.In[idx] = t.In[idx], t.In[k]
			idx = k
		}
	case "addin":
		k := int(a) % (len(t.In) + 1)
		in := ref.In{Hash: g.Pat(32, b|4).Bytes(), Vout: b, Seq: 0xffffffff}
		t.In = append(append(append([]ref.In{}, t.In[:k]...), in), t.In[k:]...)
		if k <= idx {
			idx++
		}
	case "outsats@idx", "outscript@idx":
		if idx >= len(t.Out) {
			return idx, value, false
		}
		if kind == "outsats@idx" {
			t.Out[idx].Sats ^= 1 << (b % 64)
		} else {
			t.Out[idx].Script = append(append([]byte{}, t.Out[idx].Script...), byte(b))
		}
	case "outsats", "outscript", "removeout", "swapout":
		if o < 0 {
			return idx, value, false
		}
		switch kind {
		case "outsats":
			t.Out[o].Sats ^= 1 << (b % 64)
		case "outscript":
			t.Out[o].Script = append(append([]byte{}, t.Out[o].Script...), byte(b))
		case "removeout":
			t.Out = append(append([]ref.Out{}, t.Out[:o]...), t.Out[o+1:]...)
		case "swapout":
			p := int(b) % len(t.Out)
			t.Out[o], t.Out[p] = t.Out[p], t.Out[o]
		}
	case "addout":
		k := int(a) % (len(t.Out) + 1)
		t.Out = append(append(append([]ref.Out{}, t.Out[:k]...), ref.Out{Sats: uint64(b), Script: []byte{0x51}}), t.Out[k:]...)
	case "amount":
		value ^= 1 << (a % 64)
	case "flagbyte":
		e, ok := ref.Tokenise(t.In[idx].Script)
		if !ok || len(e) == 0 || len(e[0].Data) == 0 {
			return idx, value, false
		}
		sig := append([]byte{}, e[0].Data...)
		old := sig[len(sig)-1]
		sig[len(sig)-1] = forkFlags[int(a)%len(forkFlags)]
		if sig[len(sig)-1] == old {
			return idx, value, false
		}
		t.In[idx].Script = append(ref.Push(sig), ref.Push(e[1].Data)...)
	default:
		return idx, value, false
	}
	return idx, value, true
}

func check05(c c05) error {
	c.Tx.Shared &= 3 // a signature goes to one input
	if c.Pad > 0 {
		c.Tx.In = append(g.Tx{In: []g.TxIn{{ID: id1, Seq: 9, Rep: c.Pad}}}.Flat().In, c.Tx.In...)
		c.Idx += uint32(c.Pad)
		c.Pad = 0
	}
	n := len(c.Tx.In)
	pub := pubKey(c.Key)
	prev := ref.P2PKH(ref.Hash160(pub))
	inRange := int64(c.Idx) < int64(n)
	build := func() *transaction.Transaction {
		if inRange {
			p := g.Raw(prev)
			c.Tx.In[c.Idx].Prev, c.Tx.In[c.Idx].Sats = &p, c.Sats
		}
		tx := c.Tx.Lib()
		if inRange && c.Miss == "id" {
			tx.Inputs[c.Idx].PreviousTxID = ""
		}
		if inRange && c.Miss == "script" {
			tx.Inputs[c.Idx].PreviousTxScript = nil
		}
		return tx
	}
	c.Tx.In = append([]g.TxIn{}, c.Tx.In...)
	tx := build()
	before := snapshot(tx)
	err := tx.Sign(c.Idx, c.newSigner(c.Flag))
	if !inRange || c.Miss != "" {
		if err == nil {
			return fmt.Errorf("signing input %d of %d (missing: %q) gave no error", c.Idx, n, c.Miss)
		}
		if e := before.diff(snapshot(tx), -1); e != nil {
			return fmt.Errorf("failed signing changed the transaction: %v", e)
		}
		direct := build()
		if _, err := c.newSigner(c.Flag).Sign(c.Idx, direct); err == nil {
			return fmt.Errorf("InternalSigner.Sign of input %d of %d (missing: %q) gave no error", c.Idx, n, c.Miss)
		}
		return before.diff(snapshot(direct), -1)
	}
	if err != nil {
		return fmt.Errorf("signing input %d: %v", c.Idx, err)
	}
	idx := int(c.Idx)
	if e := before.diff(snapshot(tx), idx); e != nil {
		return fmt.Errorf("signing changed more than the unlocking script: %v", e)
	}
	flag := effFlag(c.Flag)
	unlock := append([]byte{}, scriptBytes(tx.Inputs[idx].UnlockingScript)...)
	if err := checkUnlock(unlock, pub, flag); err != nil {
		return err
	}
	if e, ok := ref.Tokenise(unlock); ok { // the constructor, from the parts
		sig := reused(e[0].Data[:len(e[0].Data)-1], func(b []byte) { _, _ = script.NewP2PKHUnlockingScript(pub, b, flagOf(flag)) })
		if s, err := script.NewP2PKHUnlockingScript(pub, sig, flagOf(flag)); err != nil || !bytes.Equal(scriptBytes(s), unlock) {
			return fmt.Errorf("NewP2PKHUnlockingScript(%x, %x, %02x) = %x, %v, want %x", pub, sig, flag, scriptBytes(s), err, unlock)
		}
		key := reused(pub, func(b []byte) { _, _ = script.NewP2PKHUnlockingScript(b, sig, flagOf(flag)) })
		if s, err := script.NewP2PKHUnlockingScript(key, sig, flagOf(flag)); err != nil || !bytes.Equal(scriptBytes(s), unlock) {
			return fmt.Errorf("NewP2PKHUnlockingScript(%x, %x, %02x) again = %x, %v, want %x", key, sig, flag, scriptBytes(s), err, unlock)
		}
	}
	signed := c.Tx.Ref()
	signed.In[idx].Script = unlock
	if err := same("signed transaction", tx.ToBytes(), signed.Bytes()); err != nil {
		return err
	}
	if err := engine(signed, idx, prev, c.Sats); err != nil {
		return fmt.Errorf("the interpreter rejects the signed input %d of %d (flag %02x, %d outputs): %v", idx, n, flag, len(signed.Out), err)
	}
	// the same again, through the signer itself
	tx2 := build()
	got, err := c.newSigner(c.Flag).Sign(c.Idx, tx2)
	if err != nil || got == nil {
		return fmt.Errorf("InternalSigner.Sign: %v", err)
	}
	if err := same("signing again", got.ToBytes(), signed.Bytes()); err != nil {
		return err
	}
	spoilTx(tx)
	spoilTx(tx2)
	if len(c.Edits) > 0 {
		if err := resign(c, tx, unlock, pub, prev); err != nil {
			return err
		}
	}
	// one mutation
	m := &ref.Tx{Version: signed.Version, Lock: signed.Lock, In: append([]ref.In{}, signed.In...), Out: append([]ref.Out{}, signed.Out...)}
	at, value, changed := mutate(m, idx, c.Sats, c.Mut, c.A, c.B)
	if !changed {
		return nil
	}
	committed := c.Mut == "flagbyte" ||
		!bytes.Equal(signed.SigHash(idx, prev, c.Sats, flag), m.SigHash(at, prev, value, flag))
	verdict := engine(m, at, prev, value)
	if committed && verdict == nil {
		return fmt.Errorf("flag %02x commits to %q, but the interpreter accepts the changed transaction", flag, c.Mut)
	}
	if !committed && verdict != nil {
		return fmt.Errorf("flag %02x does not commit to %q, but the interpreter rejects the changed transaction: %v", flag, c.Mut, verdict)
	}
	return nil
}

// c06: inputs of several owners, signed automatically by several signers.
type c06 struct {
	Keys    []string `json:"keys"`
	Tx      g.Tx     `json:"tx"`
	Own     []int    `json:"own"`  // per input: index of the owning key, or -1
	Kind    []int    `json:"kind"` // per input without owner: which look-alike script
	Signers []int    `json:"signers"`
	Flags   []byte   `json:"flags"`
	Custom  string   `json:"custom,omitempty"`
	CIdx    uint32   `json:"cidx,omitempty"`
	NoID    []int    `json:"noid,omitempty"` // inputs without previous id
	// Edits are made after the first round of signers, which then sign again.
	Edits []g.Edit `json:"edits,omitempty"`
	// Pad inputs of nobody stand in front of the others.
	Pad int `json:"pad,omitempty"`
	// One signer value is given each key and flag in turn.
	One bool `json:"one,omitempty"`
}

// lookAlike scripts mention a signer's key hash without being its P2PKH
// script; nil stands for a missing previous script.
func lookAlike(kind int, h, pub []byte) []byte {
	p := ref.P2PKH(h)
	switch kind {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return p[:23] // no EQUALVERIFY CHECKSIG
	case 3:
		return append([]byte{0xa9, 0x14}, append(append([]byte{}, h...), 0x87)...) // P2SH of the same hash
	case 4:
		return append(append([]byte{0x76, 0xa9, 0x4c, 0x14}, h...), 0x88, 0xac) // non-minimal push
	case 5:
		return append(ref.Push(pub), 0xac) // P2PK of the key
	case 6:
		return append(p, 0x61)
	case 7:
		return append(p[:24], 0xad)
	case 8:
		return append([]byte{0x00, 0x6a}, ref.Push(h)...)
	case 9:
		return []byte{0x76, 0xa9}
	case 10:
		return append([]byte{0x76, 0xa9}, ref.Push(append(append([]byte{}, h...), 1))...)
	case 11:
		x := append([]byte{}, h...)
		x[19] ^= 1
		return ref.P2PKH(x)
	case 12:
		return []byte{0x76}
	case 13:
		x := append([]byte{}, h...)
		x[0] ^= 0x80
		return ref.P2PKH(x)
	case 14:
		return p[1:]
	}
	join := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
	o := ref.P2PKH(ref.Hash160(h))
	switch kind {
	case 15: // a hash puzzle in front
		return join([]byte{0xa9, 0x14}, ref.Hash160(h), []byte{0x88}, p)
	case 16:
		return join([]byte{0xa9, 0x14}, h, []byte{0x88}, p)
	case 17:
		return join(p, p)
	case 18:
		return join(o, p)
	case 19:
		return join(p, o)
	case 20:
		return join([]byte{0x00, 0x6a}, ref.Push([]byte("note")), p)
	case 21:
		return join(p, []byte{0x6a}, ref.Push([]byte("note")))
	case 22: // a token inscription before or after
		return join([]byte{0x00, 0x63, 3, 'o', 'r', 'd', 0x51, 4, 't', 'e', 'x', 't', 0x00, 2, 'h', 'i', 0x68}, p)
	case 23:
		return join(p, []byte{0x00, 0x63, 3, 'o', 'r', 'd', 0x51, 4, 't', 'e', 'x', 't', 0x00, 2, 'h', 'i', 0x68})
	case 24: // after a time
		return join([]byte{3, 1, 2, 3, 0xb1, 0x75}, p)
	case 25:
		return join([]byte{0x61}, p)
	case 26:
		return join([]byte{0xab}, p)
	case 27:
		return join(ref.Push([]byte("data")), []byte{0x75}, p)
	case 28:
		return ref.Push(p)
	case 29:
		return join([]byte{0x51}, ref.Push(pub), []byte{0x51, 0xae})
	case 30: // hashed in another way
		return join([]byte{0x76, 0xa8}, ref.Push(ref.SHA256(pub)), []byte{0x88, 0xac})
	case 31:
		return join([]byte{0x76, 0xaa}, ref.Push(ref.Sha256d(pub)), []byte{0x88, 0xac})
	case 32:
		return ref.P2PKH(ref.RIPEMD160(pub))
	case 33:
		return ref.P2PKH(ref.SHA256(pub)[:20])
	case 34:
		return ref.P2PKH(ref.Rev(h))
	case 35:
		return ref.P2PKH(pub[1:21])
	case 36:
		return ref.P2PKH(pub[13:])
	case 37: // of the same key's other form
		k, err := bsvec.ParsePubKey(pub, bsvec.S256())
		if err != nil {
			return p[1:]
		}
		return ref.P2PKH(ref.Hash160(k.SerializeUncompressed()))
	case 38: // of the negative key
		x := append([]byte{}, pub...)
		x[0] ^= 1
		return ref.P2PKH(ref.Hash160(x))
	case 39:
		return join([]byte{0x76, 0xa9, 0x4d, 0x14, 0}, h, []byte{0x88, 0xac})
	case 40:
		return join([]byte{0x76, 0xa9, 0x4e, 0x14, 0, 0, 0}, h, []byte{0x88, 0xac})
	case 41:
		return join(p[:23], []byte{0x69, 0xac}) // EQUAL VERIFY apart
	case 42:
		return join([]byte{0x76, 0xa9, 0x14}, h, []byte{0x87, 0xac})
	case 43:
		return join([]byte{0x76, 0xa6, 0x14}, h, []byte{0x88, 0xac})
	case 44:
		return join([]byte{0x63}, p, []byte{0x67}, o, []byte{0x68})
	case 45:
		return join([]byte{0x63}, o, []byte{0x67}, p, []byte{0x68})
	case 46:
		return join([]byte{0xa9, 0x14}, ref.Hash160(p), []byte{0x87}) // P2SH of the P2PKH
	case 47:
		return join([]byte{0x00, 0x14}, h)
	case 48:
		return join(p, []byte{0x00})
	}
	return []byte(fmt.Sprintf("%x", p)) // its text
}

// lookAlikes is the number of kinds.
const lookAlikes = 50

type customSigner struct {
	mode string
	want *transaction.Transaction
	give *transaction.Transaction
	seen []string
	idx  uint32
}

var errCustom = errors.New("custom signer refuses")

func (s *customSigner) do(what string, idx uint32, tx *transaction.Transaction) (*transaction.Transaction, error) {
	s.seen = append(s.seen, what)
	s.idx = idx
	s.want = tx
	if s.mode == "fail" {
		return nil, errCustom
	}
	if s.mode == "failtx" {
		return s.give, errCustom
	}
	if s.mode == "same" {
		return tx, nil
	}
	if s.mode == "panic" {
		s.mode = "other"
		panic(errCustom)
	}
	if s.mode == "nested" {
		// a signer that has another one do the work
		inner := &customSigner{mode: "other", give: s.give}
		var err error
		if what == "Sign" {
			err = tx.Sign(idx, inner)
		} else {
			err = tx.SignAuto(inner)
		}
		if err != nil {
			return nil, fmt.Errorf("a signer within the signer: %v", err)
		}
		if err := snapshot(s.give).diff(snapshot(tx), -1); err != nil {
			return nil, fmt.Errorf("a signer within the signer: %v", err)
		}
		return tx, nil
	}
	return s.give, nil
}
func (s *customSigner) Sign(idx uint32, tx *transaction.Transaction) (*transaction.Transaction, error) {
	return s.do("Sign", idx, tx)
}
func (s *customSigner) SignAuto(tx *transaction.Transaction) (*transaction.Transaction, error) {
	return s.do("SignAuto", 0, tx)
}

func check06(c c06) error {
	pubs := make([][]byte, len(c.Keys))
	for k := range c.Keys {
		pubs[k] = pubKey(c.Keys[k])
	}
	c.Tx.Shared &= 3 // a signature goes to one input
	c.Tx.In = append(g.Tx{In: []g.TxIn{{ID: id1, Seq: 9, Rep: c.Pad}}}.Flat().In, c.Tx.In...)
	if c.Pad == 0 {
		c.Tx.In = c.Tx.In[1:]
	}
	c.Own = append(make([]int, c.Pad), c.Own...)
	c.Kind = append(make([]int, c.Pad), c.Kind...)
	for k := 0; k < c.Pad; k++ {
		c.Own[k], c.Kind[k] = -1, len(pubs) // an empty previous script
	}
	prevs := make([][]byte, len(c.Tx.In))
	for i := range c.Tx.In {
		if o := c.Own[i]; o >= 0 {
			prevs[i] = ref.P2PKH(ref.Hash160(pubs[o]))
		} else {
			k := c.Kind[i] % len(pubs)
			prevs[i] = lookAlike(c.Kind[i]/len(pubs)%lookAlikes, ref.Hash160(pubs[k]), pubs[k])
		}
		c.Tx.In[i].Prev = nil
		if prevs[i] != nil {
			b := g.Raw(prevs[i])
			c.Tx.In[i].Prev = &b
		}
	}
	if c.Custom != "" {
		tx := c.Tx.Lib()
		before := snapshot(tx)
		alt := g.Tx{Version: 77, In: []g.TxIn{{ID: id1, Vout: 3}}, Out: []g.TxOut{{Sats: 4, Script: g.Pat(3, 2)}}, Lock: 5}
		// near: a copy of the transaction with one thing changed
		if c.Custom == "near" {
			alt = c.Tx
			alt.In, alt.Out = append([]g.TxIn{}, c.Tx.In...), append([]g.TxOut{}, c.Tx.Out...)
			i, o, v := len(alt.In)-1, len(alt.Out)-1, c.CIdx/16
			switch k := c.CIdx % 16; {
			case k == 0:
				alt.Version++
			case k == 1:
				alt.Lock ^= 1 << (v % 32)
			case k == 2:
				alt.In = nil
			case k == 3:
				alt.Out = nil
			case k == 4 && i >= 0:
				alt.In[i].Sats ^= 1 << (v % 64)
			case k == 5 && i >= 0:
				p := g.Pat(int(v%30), 8)
				alt.In[i].Prev = &p
			case k == 6 && i >= 0:
				alt.In[i].Prev = nil
			case k == 7 && i >= 0:
				p := g.Pat(int(v%300), 8)
				alt.In[i].Script = &p
			case k == 8 && i >= 0:
				alt.In[i].Seq ^= 1 << (v % 32)
			case k == 9 && i >= 0:
				alt.In[i].Vout ^= 1 << (v % 32)
			case k == 10 && i >= 0:
				alt.In[i].ID = id2
			case k == 11 && i >= 0:
				alt.In = append(alt.In, alt.In[0])
			case k == 12 && i >= 0:
				alt.In = alt.In[:i]
			case k == 13 && o >= 0:
				alt.Out[o].Sats ^= 1 << (v % 64)
			case k == 14 && o >= 0:
				alt.Out[o].Script = g.Pat(int(v%30), 8)
			case k == 15:
				alt.Out = append(alt.Out, g.TxOut{Sats: uint64(v)})
			}
		}
		for _, what := range []string{"Sign", "SignAuto"} {
			s := &customSigner{mode: c.Custom, give: alt.Lib()}
			var err error
			sign := func() {
				defer func() {
					if r := recover(); r != nil && r != errCustom {
						panic(r)
					}
				}()
				if what == "Sign" {
					err = tx.Sign(c.CIdx, s)
				} else {
					err = tx.SignAuto(s)
				}
			}
			if c.Custom == "panic" { // once; it works the next time
				sign()
				tx, err, s.seen = c.Tx.Lib(), nil, nil
			}
			sign()
			if len(s.seen) != 1 || s.seen[0] != what {
				return fmt.Errorf("Transaction.%s called the signer's %v", what, s.seen)
			}
			if what == "Sign" && s.idx != c.CIdx {
				return fmt.Errorf("Transaction.Sign(%d) passed index %d to the signer", c.CIdx, s.idx)
			}
			switch c.Custom {
			case "fail", "failtx":
				if err == nil {
					return fmt.Errorf("Transaction.%s hides the signer's error", what)
				}
				if e := before.diff(snapshot(tx), -1); e != nil {
					return fmt.Errorf("Transaction.%s with a failing signer: %v", what, e)
				}
			case "same":
				if err != nil {
					return fmt.Errorf("Transaction.%s: %v", what, err)
				}
				if e := before.diff(snapshot(tx), -1); e != nil {
					return fmt.Errorf("Transaction.%s with a signer that changes nothing: %v", what, e)
				}
			default:
				if err != nil {
					return fmt.Errorf("Transaction.%s: %v", what, err)
				}
				if e := snapshot(alt.Lib()).diff(snapshot(tx), -1); e != nil {
					return fmt.Errorf("Transaction.%s did not take over the signer's transaction: %v", what, e)
				}
				tx = c.Tx.Lib()
			}
		}
		return nil
	}
	m := c.Tx.Flat()
	for _, i := range c.NoID {
		if i < len(m.In) {
			m.In[i].ID = ""
		}
	}
	tx := m.Lib()
	spoilTx(tx)
	m, err := autoSign(c, pubs, tx, m)
	if err != nil || len(c.Edits) == 0 {
		return err
	}
	for _, e := range c.Edits {
		m = g.Edited(tx, m, e)
	}
	if _, err = autoSign(c, pubs, tx, m); err != nil {
		return fmt.Errorf("after the edits: %v", err)
	}
	return nil
}

// autoSign has every signer sign and judges the outcome.
func autoSign(c c06, pubs [][]byte, tx *transaction.Transaction, m g.Tx) (g.Tx, error) {
	last := snapshot(tx)
	signedBy := map[int]byte{} // input -> flag it was signed with
	prev := func(i int) []byte {
		if m.In[i].Prev == nil {
			return nil
		}
		return m.In[i].Prev.Bytes()
	}
	signer := &signature.InternalSigner{}
	for n, k := range c.Signers {
		flag := effFlag(c.Flags[n])
		if !c.One {
			signer = &signature.InternalSigner{}
		}
		if signer.PrivateKey != nil && n%2 == 1 {
			*signer.PrivateKey = *privKey(c.Keys[k])
		} else {
			signer.PrivateKey = privKey(c.Keys[k])
		}
		signer.SigHashFlag = flagOf(c.Flags[n])
		own := ref.P2PKH(ref.Hash160(pubs[k]))
		err := tx.SignAuto(signer)
		now := snapshot(tx)
		if len(now.In) != len(last.In) {
			return m, fmt.Errorf("SignAuto changed the number of inputs")
		}
		unsignable := false
		for i := range m.In {
			unsignable = unsignable || m.In[i].ID == "" && bytes.Equal(prev(i), own)
		}
		if err != nil {
			// An input of the signer's without its previous id cannot be
			// signed: refusing to sign at all is one answer.
			if !unsignable {
				return m, fmt.Errorf("SignAuto: %v", err)
			}
			if e := last.diff(now, -1); e != nil {
				return m, fmt.Errorf("SignAuto failed and changed the transaction: %v", e)
			}
			continue
		}
		for i := range m.In {
			if m.In[i].ID != "" && bytes.Equal(prev(i), own) {
				if err := checkUnlock([]byte(now.In[i].Unlock), pubs[k], flag); err != nil {
					return m, fmt.Errorf("input %d of %d after SignAuto by key %d: %v", i, len(m.In), k, err)
				}
				signedBy[i] = flag
				last.In[i].Unlock, last.In[i].NilUn = now.In[i].Unlock, now.In[i].NilUn
			}
		}
		if err := last.diff(now, -1); err != nil {
			return m, fmt.Errorf("SignAuto by key %d changed something it does not own: %v", k, err)
		}
	}
	for i := range m.In {
		if s := tx.Inputs[i].UnlockingScript; s != nil {
			b := g.Raw(scriptBytes(s))
			m.In[i].Script = &b
		}
	}
	for i := range m.In {
		if m.In[i].ID == "" {
			return m, nil // has no wire form
		}
	}
	final := m.Ref()
	if err := same("transaction after automatic signing", tx.ToBytes(), final.Bytes()); err != nil {
		return m, err
	}
	for i := range final.In {
		if _, ok := signedBy[i]; !ok {
			continue
		}
		if err := engine(final, i, prev(i), m.In[i].Sats); err != nil {
			return m, fmt.Errorf("the interpreter rejects automatically signed input %d of %d: %v", i, len(final.In), err)
		}
	}
	return m, nil
}

func init() {
	pbt.Register(pbt.Def[c04]{
		ID: "C04",
		Rule: "random transactions (0..8 inputs and outputs, now and then hundreds) with previous scripts and amounts, an input index (1 in 25 out of range), one of the 128 flag bytes with the fork-id bit, now and then a missing previous id or script; " +
			"the sweep takes every flag over fixed shapes and every script-code length; non-trivial: a digest was compared and the transaction has at least two inputs or outputs. One case in three is a history: the transaction is changed in place or replaced between the calls, and checked again each time. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep also takes counts up to 70000. It takes digests of rare shapes (found by search), ids and script codes of special shapes, and the texts of the code's literals as script codes.",
		Gen: func(t *rapid.T) c04 {
			c := c04{Tx: g.GenTx(t, g.TxOpt{MaxIn: 8, MaxOut: 8, MaxScript: 1000, NilScript: true, Prev: true, Huge: true})}
			c.Idx = genIdx(t, len(c.Tx.Flat().In))
			c.Flag = byte(g.Int(t, 0, 255, "flag")) | 0x40
			if g.Bool(t, "std") {
				c.Flag = g.Pick(t, forkFlags, "stdflag")
			}
			if g.Chance(t, 25, "miss") {
				c.Miss = g.Pick(t, []string{"id", "script"}, "what")
			}
			for i := range c.Tx.In {
				if g.Chance(t, 40, "bigprev") {
					b := g.AnyBlob(t, 70000, "prev")
					c.Tx.In[i].Prev = &b
				}
			}
			if g.Chance(t, 3, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 5, 200, "edit"), 0
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c04)) {
			p := g.Raw(ref.P2PKH(g.Pat(20, 9).Bytes()))
			in := func(k int) g.TxIn {
				return g.TxIn{ID: g.Pat(32, uint32(k)+5).Hex(), Vout: uint32(k), Seq: uint32(0xffffffff - k), Prev: &p, Sats: uint64(k) << 33}
			}
			out := func(k int) g.TxOut { return g.TxOut{Sats: uint64(k) * 1000003, Script: g.Pat(k%4*10, uint32(k)+3)} }
			shape := func(ni, no int) g.Tx {
				t := g.Tx{Version: 2, Lock: 7}
				for k := 0; k < ni; k++ {
					t.In = append(t.In, in(k))
				}
				for k := 0; k < no; k++ {
					t.Out = append(t.Out, out(k))
				}
				return t
			}
			minedVouts(func(flag byte, tx g.Tx) {
				b := g.Raw(ref.P2PKH(ref.Hash160(pubKey(g.MinedKey))))
				tx.In[0].Prev, tx.In[0].Sats = &b, g.MinedSats
				yield(c04{Tx: tx, Flag: flag})
			})
			for f := 0; f < 256; f++ {
				if f&0x40 == 0 {
					continue
				}
				for ni := 1; ni <= 3; ni++ {
					for no := 0; no <= 3; no++ {
						for idx := 0; idx < ni; idx++ {
							yield(c04{Tx: shape(ni, no), Idx: uint32(idx), Flag: byte(f)})
						}
					}
				}
				yield(c04{Tx: shape(2, 1), Idx: 2, Flag: byte(f)})
				yield(c04{Tx: shape(2, 1), Idx: 1, Flag: byte(f), Miss: "id"})
				yield(c04{Tx: shape(2, 1), Idx: 1, Flag: byte(f), Miss: "script"})
			}
			for _, idx := range []uint32{1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff} {
				yield(c04{Tx: shape(1, 1), Idx: idx, Flag: 0x41})
				yield(c04{Tx: shape(0, 0), Idx: idx - 1, Flag: 0x43})
			}
			sweepScriptLens(thorough, func(n int) {
				if n > 320 && n > 70000 {
					return
				}
				t := shape(2, 2)
				q := g.Pat(n, uint32(n)+9)
				t.In[1].Prev = &q
				t.Out[1].Script = g.Pat(n, uint32(n)+11)
				yield(c04{Tx: t, Idx: 1, Flag: forkFlags[n%6]})
			})
			k := 0
			script := func(b g.Blob) { // as the script spent and paid to
				t := shape(2, 2)
				t.In[1].Prev, t.Out[1].Script = &b, b
				yield(c04{Tx: t, Idx: 1, Flag: forkFlags[k%6]})
				k++
			}
			for v := 0; v < 256; v++ {
				script(g.Raw([]byte{byte(v)}))
				script(g.Raw([]byte{0x51, byte(v), 0xac}))
				script(g.Raw(append(append([]byte{}, p.Bytes()...), byte(v))))
				script(g.Raw(append([]byte{byte(v)}, p.Bytes()...)))
			}
			for _, b := range templates(5) {
				script(g.Raw(b))
			}
			g.Texts(script)
			g.AllShapes(20, func(h []byte) { script(g.Raw(ref.P2PKH(h))) })
			g.AllShapes(32, func(h []byte) {
				t := shape(2, 2)
				t.In[1].ID, t.In[0].ID = hex.EncodeToString(h), hex.EncodeToString(ref.Rev(h))
				yield(c04{Tx: t, Idx: uint32(k % 2), Flag: forkFlags[k%6]})
				k++
			})
			for bit := 0; bit < 64; bit++ {
				for _, d := range []uint64{0, 1, ^uint64(0)} {
					v := uint64(1)<<bit + d
					for _, f := range forkFlags {
						t := shape(2, 2)
						t.In[1].Sats, t.Out[1].Sats = v, v
						yield(c04{Tx: t, Idx: 1, Flag: f})
						if bit < 32 {
							t := shape(2, 2)
							t.Version, t.Lock, t.In[1].Vout, t.In[0].Seq = uint32(v), uint32(v), uint32(v), uint32(v)
							yield(c04{Tx: t, Idx: uint32(bit % 2), Flag: f})
						}
					}
				}
			}
			g.RelatedTxs(true, func(x g.Tx) {
				for i := range x.In {
					for j, f := range forkFlags {
						if i == 0 || j == k%6 {
							yield(c04{Tx: x, Idx: uint32(i), Flag: f})
						}
					}
					k++
				}
			})
			for sh := 1; sh < 8; sh++ { // the same objects again
				for _, f := range forkFlags {
					for i := uint32(0); i < 4; i++ {
						in, out := g.TxIn{ID: id1, Vout: 3, Seq: 5, Prev: &p, Sats: 6}, g.TxOut{Sats: 7, Script: p}
						yield(c04{Tx: g.Tx{Version: 1, In: []g.TxIn{in, in, {ID: id1, Prev: &p}, in}, Out: []g.TxOut{out, out, {Sats: 7}, out}, Shared: sh}, Idx: i, Flag: f})
					}
				}
			}
			for _, n := range bigCounts(1100) {
				t := shape(1, 1)
				t.In[0].Rep, t.Out[0].Rep = n, n-n%2
				yield(c04{Tx: t, Idx: uint32(n - 1), Flag: forkFlags[n/3%6]})
				yield(c04{Tx: t, Idx: uint32(n), Flag: 0x41})
				if n >= 65535 {
					for k, f := range forkFlags {
						yield(c04{Tx: t, Idx: uint32(n - 1 - k%2), Flag: f})
					}
				}
			}
			for _, n := range append(g.SweepLens(1100), 127, 128, 129, 252, 253, 254, 255, 256, 257, 300, 1000) {
				for k, f := range forkFlags {
					if n == 0 || n != 127 && n != 253 && k != n%6 && k != n/2%6 {
						continue
					}
					t := shape(1, 1)
					t.In[0].Rep, t.Out[0].Rep = n, n+1
					for _, i := range []int{0, 127, 128, 255, 256, n / 2, n - 1} {
						if i < n {
							yield(c04{Tx: t, Idx: uint32(i), Flag: f})
						}
					}
				}
			}
		},
		Check: check04,
		Classify: func(c c04) (bool, []string) {
			f := c.Tx.Flat()
			in := int64(c.Idx) < int64(len(f.In))
			l := []string{fmt.Sprintf("base=%d", c.Flag&0x1f&3), fmt.Sprintf("anyonecanpay=%v", c.Flag&0x80 != 0)}
			if !in {
				l = append(l, "index out of range")
			} else if int(c.Idx) >= len(f.Out) {
				l = append(l, "index beyond outputs")
			}
			if c.Miss != "" {
				l = append(l, "missing "+c.Miss)
			}
			return in && c.Miss == "" && (len(f.In) > 1 || len(f.Out) > 1), l
		},
		Quick: 320000, Thorough: 2400000,
	})

	pbt.Register(pbt.Def[c05]{
		ID: "C05",
		Rule: "random transactions (1..6 inputs, 0..6 outputs) with one P2PKH input of a random key, one of the six fork-id flags or the default, signed and run in bsvd's script interpreter, then one of 21 mutations and run again " +
			"(the expected verdict follows from the reference digest); now and then a bad index or a missing previous id or script; non-trivial: signed, and the mutation changed something. One case in three is a history: signed, changed in place, signed again. The sweep takes keys, digests and signatures of rare shapes (leading zero bytes, short or long encodings, found by search), inputs behind up to 70000 others, and counts across 252/253. Keys come in families of relatives too; a signer's key object may have held another key.",
		Assumptions: []string{"bsvd/txscript judges P2PKH scripts and signatures correctly (cross-checked by the reference digest)"},
		Gen: func(t *rapid.T) c05 {
			c := c05{Key: genKey(t, "key"), Tx: g.GenTx(t, g.TxOpt{MaxIn: 6, MaxOut: 6, MaxScript: 120, NilScript: true, Prev: true}), Sats: g.U64(t, "sats")}
			if len(c.Tx.In) == 0 {
				c.Tx.In = append(c.Tx.In, g.GenIn(t, g.TxOpt{MaxScript: 60, Prev: true}))
			}
			c.Flag = g.Pick(t, append([]byte{0}, forkFlags...), "flag")
			c.Idx = genIdx(t, len(c.Tx.In))
			if g.Chance(t, 30, "miss") {
				c.Miss = g.Pick(t, []string{"id", "script"}, "what")
			}
			c.Mut = g.Pick(t, mutations, "mut")
			c.A, c.B = uint32(g.Raw64(t, "a")), uint32(g.Raw64(t, "b"))
			if g.Chance(t, 5, "old?") {
				c.Old = genKey(t, "old")
			}
			if g.Chance(t, 4, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 3, 100, "edit"), 0
				c.Flag2 = g.Pick(t, append([]byte{0, c.Flag, c.Flag, c.Flag, c.Flag}, forkFlags...), "flag2")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c05)) {
			for k, n := range bigCounts(300) { // behind many inputs
				if n >= 65500 || k%5 == 0 {
					yield(c05{Key: "0000000000000000000000000000000000000000000000000000000000000005", Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Vout: 7}}, Out: []g.TxOut{{Sats: 3, Script: g.Pat(4, 2), Rep: k%2*n + 1}}}, Sats: 9, Flag: forkFlags[k%6], Mut: "selfvout", Pad: n})
				}
			}
			minedVouts(func(flag byte, tx g.Tx) {
				yield(c05{Key: g.MinedKey, Tx: tx, Sats: g.MinedSats, Flag: flag, Mut: mutations[int(tx.In[0].Vout)%len(mutations)], A: 1, B: 1})
			})
			for n, k := range g.MinedKeys {
				yield(c05{Key: fmt.Sprintf("%064x", k), Tx: g.MinedTx(uint32(n)), Sats: 5, Flag: forkFlags[n%6], Mut: "none"})
			}
			g.Pairs(g.MinedKeyTwins, func(k uint64) {
				yield(c05{Key: fmt.Sprintf("%064x", k), Tx: g.MinedTx(5), Sats: 5, Flag: 0x41, Mut: "none"})
			})
			for n, k := range keyFamilies() { // keys that resemble one another, in turn
				yield(c05{Key: k, Tx: g.MinedTx(uint32(n)), Sats: 5, Flag: forkFlags[n%6], Mut: "none"})
			}
			key := "0000000000000000000000000000000000000000000000000000000000000007"
			k := 0
			g.RelatedTxs(true, func(x g.Tx) { // parts that are one another's relatives
				i := k % len(x.In)
				yield(c05{Key: fmt.Sprintf("%064x", k%19+2), Tx: x, Idx: uint32(i), Sats: []uint64{x.In[0].Sats, x.In[i].Sats, 5}[k%3], Flag: forkFlags[k%6], Mut: mutations[k%len(mutations)], A: uint32(k), B: uint32(k) + 3})
				k++
			})
			for _, f := range append([]byte{0}, forkFlags...) {
				for _, m := range mutations {
					for sh := 0; sh < 6; sh++ {
						tx := g.Tx{Version: 1}
						for k := 0; k < 1+sh%3; k++ {
							tx.In = append(tx.In, g.TxIn{ID: g.Pat(32, uint32(k)+77).Hex(), Vout: uint32(k), Seq: 0xffffffff - uint32(k)})
						}
						for k := 0; k < sh; k++ {
							tx.Out = append(tx.Out, g.TxOut{Sats: uint64(k) + 1, Script: g.Pat(k*3, 2)})
						}
						yield(c05{Key: key, Tx: tx, Idx: uint32(sh % 3), Sats: 12345678, Flag: f, Mut: m, A: uint32(sh), B: uint32(sh) + 1})
					}
				}
				for _, n := range []int{16, 17, 128, 253, 256, 257} {
					for _, idx := range []int{0, n - 1, n / 2} {
						yield(c05{Key: key, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Seq: 9, Rep: n}}, Out: []g.TxOut{{Sats: 1, Rep: n - 1}}}, Flag: f, Idx: uint32(idx), Sats: uint64(n), Mut: mutations[n%len(mutations)]})
					}
				}
				for _, miss := range []string{"id", "script"} {
					yield(c05{Key: key, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1}}, Out: []g.TxOut{{Sats: 1}}}, Flag: f, Miss: miss})
				}
				for _, idx := range []uint32{1, 2, 0x80000000, 0xffffffff} {
					yield(c05{Key: key, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1}}, Out: []g.TxOut{{Sats: 1}}}, Flag: f, Idx: idx})
				}
			}
		},
		Check: check05,
		Classify: func(c c05) (bool, []string) {
			in := int64(c.Idx) < int64(len(c.Tx.In))
			ok := in && c.Miss == ""
			l := []string{fmt.Sprintf("flag=%02x", c.Flag)}
			if ok {
				l = append(l, "mut="+c.Mut)
			} else {
				l = append(l, "cannot sign")
			}
			return ok && c.Mut != "none" && c.Mut != "", l
		},
		Quick: 130000, Thorough: 500000,
	})

	pbt.Register(pbt.Def[c06]{
		ID: "C06",
		Rule: "transactions of 0..8 inputs owned by 1..4 keys (P2PKH) or carrying one of 50 look-alike or missing previous scripts, signed automatically by a sequence of the keys in any order with any fork-id flag; " +
			"one case in six uses a custom signer that fails, returns another transaction, one that differs from it in a single field, or the same one, has another signer sign, or panics once; non-trivial: at least two inputs of different owners or kinds, or a custom signer. One case in three is a history: the transaction is changed and signed again. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep takes each kind of foreign input at each place, keys, digests and signatures of rare shapes (found by search), and inputs beyond the 65536th. Keys come in families of relatives too; a signer's key object may have held another key.",
		Assumptions: []string{"bsvd/txscript judges P2PKH scripts and signatures correctly"},
		Gen: func(t *rapid.T) c06 {
			var c c06
			for k := g.Int(t, 1, 4, "keys"); k > 0; k-- {
				c.Keys = append(c.Keys, genKey(t, "key"))
			}
			c.Tx = g.GenTx(t, g.TxOpt{MaxIn: 8, MaxOut: 5, MaxScript: 60, NilScript: true, Prev: true})
			for range c.Tx.In {
				own := g.Int(t, -1, len(c.Keys)-1, "own")
				c.Own = append(c.Own, own)
				c.Kind = append(c.Kind, g.Int(t, 0, 4*lookAlikes-1, "kind"))
			}
			for k := g.Int(t, 1, 5, "nsign"); k > 0; k-- {
				c.Signers = append(c.Signers, g.Int(t, 0, len(c.Keys)-1, "signer"))
				c.Flags = append(c.Flags, g.Pick(t, append([]byte{0}, forkFlags...), "flag"))
			}
			c.One = g.Chance(t, 3, "one")
			if g.Chance(t, 6, "custom") {
				c.Custom = g.Pick(t, []string{"fail", "failtx", "other", "same", "near", "near", "nested", "panic"}, "mode")
				c.CIdx = g.U32(t, "cidx")
			}
			if len(c.Tx.In) > 0 && g.Chance(t, 8, "noid") {
				c.NoID = []int{g.Int(t, 0, len(c.Tx.In)-1, "noid")}
			}
			if g.Chance(t, 4, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 4, 60, "edit"), 0
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c06)) {
			keys := []string{"0000000000000000000000000000000000000000000000000000000000000005", "0000000000000000000000000000000000000000000000000000000000000006"}
			for kind := 0; kind < 2*lookAlikes; kind++ {
				tx := g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 5}, {ID: id1, Vout: 1, Sats: 6}, {ID: id1, Vout: 2, Sats: 7}, {ID: id1, Vout: 3}}, Out: []g.TxOut{{Sats: 3, Script: g.Pat(4, 2)}}}
				yield(c06{Keys: keys, Tx: tx, Own: []int{0, -1, 1, -1}, Kind: []int{0, kind, 0, (kind + 1) % (2 * lookAlikes)}, Signers: []int{0, 1}, Flags: []byte{0x41, 0xc3}})
				yield(c06{Keys: keys, Tx: tx, Own: []int{-1, -1, 1, 0}, Kind: []int{kind, kind, 0, 0}, Signers: []int{1, 0, 1}, Flags: []byte{0, 0x42, 0x43}, One: kind%2 == 0})
				yield(c06{Keys: keys[:1], Tx: g.Tx{Version: 1, In: tx.In[:1]}, Own: []int{-1}, Kind: []int{kind / 2}, Signers: []int{0}, Flags: []byte{0}})
			}
			minedVouts(func(flag byte, tx g.Tx) {
				tx.In[0].Sats = g.MinedSats
				yield(c06{Keys: []string{g.MinedKey}, Tx: tx, Own: []int{0}, Kind: []int{0}, Signers: []int{0}, Flags: []byte{flag}})
			})
			for n, k := range g.MinedKeys {
				yield(c06{Keys: []string{keys[0], fmt.Sprintf("%064x", k)}, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 5}, {ID: id1, Vout: 1}}}, Own: []int{1, n%3 - 1}, Kind: []int{0, n % (2 * lookAlikes)}, Signers: []int{1, 0}, Flags: []byte{forkFlags[n%6], 0x41}})
			}
			for i := 0; i+1 < len(g.MinedKeyTwins); i += 2 { // keys that are nearly the same
				a, b := fmt.Sprintf("%064x", g.MinedKeyTwins[i]), fmt.Sprintf("%064x", g.MinedKeyTwins[i+1])
				tx := g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 5}, {ID: id1, Vout: 1}, {ID: id1, Vout: 2}}}
				yield(c06{Keys: []string{a, b}, Tx: tx, Own: []int{0, 1, 0}, Kind: []int{0, 0, 0}, Signers: []int{0, 1}, Flags: []byte{0x41, 0x41}})
				yield(c06{Keys: []string{a, b}, Tx: tx, Own: []int{1, 0, 1}, Kind: []int{0, 0, 0}, Signers: []int{0, 1}, Flags: []byte{0x41, 0x41}})
				yield(c06{Keys: []string{a, b}, Tx: tx, Own: []int{1, 1, -1}, Kind: []int{0, 0, 0}, Signers: []int{0}, Flags: []byte{0x41}})
			}
			for n, k := range keyFamilies() { // with a key and its relative
				a := keyFamilies()[n-n%10]
				tx := g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 5}, {ID: id1, Vout: 1}, {ID: id1, Vout: 2}}}
				if a != k {
					yield(c06{Keys: []string{a, k}, Tx: tx, Own: []int{n % 2, 1, 0}, Kind: []int{0, 0, 0}, Signers: []int{n / 2 % 2}, Flags: []byte{0x41}})
				}
			}
			// many inputs: the owner changes at a boundary, or every few
			for _, n := range []int{2, 5, 129, 257, 300} {
				for _, pat := range []string{"last", "first", "all", "thirds", "skip"} {
					if n == 300 && !thorough && pat != "thirds" {
						continue
					}
					x := g.Tx{Version: 1, Out: []g.TxOut{{Sats: 3, Script: g.Pat(4, 2)}}}
					var own, kind []int
					for i := 0; i < n; i++ {
						x.In = append(x.In, g.TxIn{ID: g.Pat(32, uint32(i)+9).Hex(), Vout: uint32(i), Seq: 0xffffffff, Sats: uint64(i) + 5})
						o := -1
						switch pat {
						case "last":
							if i == n-1 {
								o = 0
							}
						case "first":
							if i == 0 {
								o = 0
							}
						case "all":
							o = i % 2
						case "thirds":
							o = i%3 - 1
						case "skip":
							if i > n/2 && i%11 == 0 {
								o = 1
							}
						}
						own, kind = append(own, o), append(kind, i%(2*lookAlikes))
					}
					yield(c06{Keys: keys, Tx: x, Own: own, Kind: kind, Signers: []int{0, 1}, Flags: []byte{0x41, 0xc3}})
					if n <= 5 {
						for miss := 0; miss < n; miss++ {
							yield(c06{Keys: keys, Tx: x, Own: own, Kind: kind, Signers: []int{0, 1}, Flags: []byte{0x41, 0xc3}, NoID: []int{miss}})
						}
					}
				}
			}
			for _, n := range bigCounts(300) {
				yield(c06{Keys: keys, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 5}, {ID: id1, Vout: 1, Sats: 6}}}, Own: []int{0, 1}, Kind: []int{0, 0}, Signers: []int{1, 0}, Flags: []byte{0x41, 0xc1}, Pad: n - n%3})
			}
			nrel := 0
			g.RelatedTxs(true, func(x g.Tx) { // parts that are one another's relatives
				var own, kind []int
				for i := range x.In {
					own, kind = append(own, []int{0, 1, 0, -1}[(i+nrel)%4]), append(kind, nrel%(2*lookAlikes))
				}
				yield(c06{Keys: keys, Tx: x, Own: own, Kind: kind, Signers: []int{nrel % 2, 1 - nrel%2}, Flags: []byte{forkFlags[nrel%6], forkFlags[nrel/6%6]}, One: nrel%3 == 0})
				nrel++
			})
			for sh := 1; sh < 4; sh++ { // the same script objects again
				in, out := g.TxIn{ID: id1, Sats: 5}, g.TxOut{Sats: 7, Script: g.Pat(3, 4)}
				yield(c06{Keys: keys, Tx: g.Tx{Version: 1, In: []g.TxIn{in, in, in, in, in}, Out: []g.TxOut{out, out}, Shared: sh}, Own: []int{0, 1, -1, 0, 1}, Kind: []int{0, 0, 5, 0, 0}, Signers: []int{1, 0}, Flags: []byte{0x41, 0xc3}})
			}
			for idx := uint32(0); idx < 256; idx++ {
				p := g.Pat(4, 9)
				yield(c06{Keys: keys, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Sats: 7}, {ID: id2, Sats: 5, Script: &p}}, Out: []g.TxOut{{Sats: 3, Script: g.Pat(4, 2)}, {Sats: 4, Script: g.Pat(5, 2)}}}, Own: []int{0, 1}, Kind: []int{0, 0}, Custom: "near", CIdx: idx})
			}
			for _, m := range []string{"fail", "failtx", "other", "same", "nested", "panic"} {
				for _, idx := range []uint32{0, 1, 5, 0xffffffff} {
					yield(c06{Keys: keys, Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1}}}, Own: []int{0}, Kind: []int{0}, Custom: m, CIdx: idx})
				}
			}
		},
		Check: check06,
		Classify: func(c c06) (bool, []string) {
			if c.Custom != "" {
				return true, []string{"custom=" + c.Custom}
			}
			kinds := map[int]bool{}
			for i := range c.Own {
				if c.Own[i] >= 0 {
					kinds[c.Own[i]] = true
				} else {
					kinds[-1-c.Kind[i]] = true
				}
			}
			return len(kinds) > 1, []string{countLabel("inputs", len(c.Own)), fmt.Sprintf("signers=%d", len(c.Signers))}
		},
		Quick: 99000, Thorough: 495000,
	})
}
