package g

import (
	"encoding/hex"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// TxIn is an input in a case. Rep > 1 stands for that many inputs, with
// increasing output index.
type TxIn struct {
	ID     string `json:"id"`
	Vout   uint32 `json:"vout"`
	Seq    uint32 `json:"seq"`
	Script *Blob  `json:"script,omitempty"` // nil: no unlocking script
	Prev   *Blob  `json:"prev,omitempty"`   // nil: no previous script
	Sats   uint64 `json:"sats,omitempty"`
	Rep    int    `json:"rep,omitempty"`
}

// TxOut is an output in a case.
type TxOut struct {
	Sats   uint64 `json:"sats"`
	Script Blob   `json:"script"`
	Rep    int    `json:"rep,omitempty"`
}

// Tx is a transaction in a case.
type Tx struct {
	Version uint32  `json:"version"`
	In      []TxIn  `json:"in"`
	Out     []TxOut `json:"out"`
	Lock    uint32  `json:"lock"`
	// Shared says which equal parts are one object in the library's
	// transaction: 1 scripts, 2 outputs, 4 inputs. For transactions that are
	// not edited.
	Shared int `json:"shared,omitempty"`
}

// Flat expands the repetitions.
func (t Tx) Flat() Tx {
	f := Tx{Version: t.Version, Lock: t.Lock, Shared: t.Shared}
	for _, in := range t.In {
		n := max(in.Rep, 1)
		in.Rep = 0
		for k := 0; k < n; k++ {
			f.In = append(f.In, in)
			in.Vout++
		}
	}
	for _, o := range t.Out {
		n := max(o.Rep, 1)
		o.Rep = 0
		for k := 0; k < n; k++ {
			f.Out = append(f.Out, o)
			o.Sats++
		}
	}
	return f
}

// Ref is the reference form. Inputs without a script have an empty one on
// the wire.
func (t Tx) Ref() *ref.Tx {
	f := t.Flat()
	r := &ref.Tx{Version: f.Version, Lock: f.Lock}
	for _, in := range f.In {
		r.In = append(r.In, in.Ref())
	}
	for _, o := range f.Out {
		r.Out = append(r.Out, ref.Out{Sats: o.Sats, Script: o.Script.Bytes()})
	}
	return r
}

// Ref is the reference form of an input.
func (in TxIn) Ref() ref.In {
	x := ref.In{Hash: ref.Rev(unhex(in.ID)), Vout: in.Vout, Seq: in.Seq}
	if in.Script != nil {
		x.Script = in.Script.Bytes()
	}
	return x
}

// Lib builds the library's transaction field by field.
func (t Tx) Lib() *transaction.Transaction {
	f := t.Flat()
	tx := transaction.New()
	tx.Version, tx.Locktime = f.Version, f.Lock
	if f.Shared != 0 {
		return f.libShared(tx)
	}
	for _, in := range f.In {
		tx.AddInput(in.Lib())
	}
	for _, o := range f.Out {
		tx.AddOutput(o.Lib())
	}
	return tx
}

func (t Tx) libShared(tx *transaction.Transaction) *transaction.Transaction {
	scripts := map[string]*script.Script{}
	one := func(s *script.Script) *script.Script {
		if s == nil || t.Shared&1 == 0 {
			return s
		}
		if scripts[string(*s)] == nil {
			scripts[string(*s)] = s
		}
		return scripts[string(*s)]
	}
	type inKey struct {
		id           string
		vout, seq    uint32
		script, prev string
		sats         uint64
	}
	type outKey struct {
		sats   uint64
		script string
	}
	ins, outs := map[inKey]*input.Input{}, map[outKey]*output.Output{}
	str := func(s *script.Script) string {
		if s == nil {
			return "nil"
		}
		return "=" + string(*s)
	}
	for _, in := range t.In {
		i := in.Lib()
		k := inKey{in.ID, in.Vout, in.Seq, str(i.UnlockingScript), str(i.PreviousTxScript), in.Sats}
		if t.Shared&4 != 0 && ins[k] != nil {
			i = ins[k]
		}
		ins[k] = i
		i.UnlockingScript, i.PreviousTxScript = one(i.UnlockingScript), one(i.PreviousTxScript)
		tx.AddInput(i)
	}
	for _, out := range t.Out {
		o := out.Lib()
		k := outKey{out.Sats, str(o.LockingScript)}
		if t.Shared&2 != 0 && outs[k] != nil {
			o = outs[k]
		}
		outs[k] = o
		o.LockingScript = one(o.LockingScript)
		tx.AddOutput(o)
	}
	return tx
}

// Lib builds the library's input.
func (in TxIn) Lib() *input.Input {
	i := &input.Input{PreviousTxID: in.ID, PreviousTxOutIndex: in.Vout, PreviousTxSatoshis: in.Sats, SequenceNumber: in.Seq}
	if in.Script != nil {
		i.UnlockingScript = script.NewFromBytes(in.Script.Bytes())
	}
	if in.Prev != nil {
		i.PreviousTxScript = script.NewFromBytes(in.Prev.Bytes())
	}
	return i
}

// Lib builds the library's output.
func (o TxOut) Lib() *output.Output {
	return &output.Output{Satoshis: o.Sats, LockingScript: script.NewFromBytes(o.Script.Bytes())}
}

// TxOpt steers GenTx.
type TxOpt struct {
	MaxIn, MaxOut int
	MaxScript     int
	Huge          bool // now and then very many inputs or outputs
	NilScript     bool // now and then an input without script
	Prev          bool // give inputs previous scripts and amounts
}

// GenTx draws a transaction.
func GenTx(t *rapid.T, o TxOpt) Tx {
	tx := Tx{Version: U32(t, "version"), Lock: U32(t, "lock")}
	if Chance(t, 3, "v1") {
		tx.Version = uint32(Int(t, 1, 2, "v"))
	}
	nin, nout := count(t, o.MaxIn, "nin"), count(t, o.MaxOut, "nout")
	for i := 0; i < nin; i++ {
		tx.In = append(tx.In, GenIn(t, o))
	}
	for i := 0; i < nout; i++ {
		tx.Out = append(tx.Out, GenOut(t, o.MaxScript))
	}
	if Chance(t, 6, "echo") { // the same input or output again
		if Bool(t, "shared?") {
			tx.Shared = Int(t, 1, 7, "shared")
		}
		for k := Int(t, 1, 3, "echoes"); k > 0; k-- {
			if len(tx.In) > 0 && len(tx.In) < o.MaxIn && Bool(t, "echo in") {
				tx.In = append(tx.In, tx.In[Int(t, 0, len(tx.In)-1, "which")])
			} else if len(tx.Out) > 0 && len(tx.Out) < o.MaxOut {
				tx.Out = append(tx.Out, tx.Out[Int(t, 0, len(tx.Out)-1, "which")])
			}
		}
	}
	if Chance(t, 8, "related") { // parts made from other parts
		r := Related(tx, Int(t, 0, Relations-1, "how"))
		for k := range r.In {
			if !o.Prev {
				r.In[k].Prev, r.In[k].Sats = nil, 0
			}
			if r.In[k].Script == nil && !o.NilScript {
				r.In[k].Script = &Blob{}
			}
		}
		tx = r
	}
	if o.Huge && Chance(t, 12, "huge") {
		n := Pick(t, []int{2, 75, 127, 128, 252, 253, 254, 255, 256, 257, 300, 1000, 3000}, "rep")
		if Bool(t, "hugein") {
			if len(tx.In) == 0 {
				tx.In = append(tx.In, GenIn(t, o))
			}
			k := len(tx.In)
			tx.In[0].Rep = max(n-k+1, 1)
			if s := tx.In[0].Script; s != nil && s.Len() > 40 {
				tx.In[0].Script = nil
			}
		} else {
			if len(tx.Out) == 0 {
				tx.Out = append(tx.Out, TxOut{})
			}
			k := len(tx.Out)
			tx.Out[0].Rep = max(n-k+1, 1)
			if tx.Out[0].Script.Len() > 40 {
				tx.Out[0].Script = Pat(7, 9)
			}
		}
	}
	return tx
}

func count(t *rapid.T, max int, label string) int {
	if max <= 0 {
		return 0
	}
	if Chance(t, 4, label+"?") {
		return Int(t, 0, max, label)
	}
	return Int(t, 0, min(max, 3), label)
}

// GenIn draws an input.
func GenIn(t *rapid.T, o TxOpt) TxIn {
	in := TxIn{ID: Hash32(t, "id"), Vout: U32(t, "vout"), Seq: 0xffffffff}
	if Bool(t, "seq?") {
		in.Seq = U32(t, "seq")
	}
	if !(o.NilScript && Chance(t, 6, "nil")) {
		b := GenScript(t, o.MaxScript, "script")
		in.Script = &b
	}
	if o.Prev {
		b := GenScript(t, o.MaxScript, "prev")
		in.Prev = &b
		in.Sats = U64(t, "sats")
	}
	return in
}

// GenOut draws an output.
func GenOut(t *rapid.T, maxScript int) TxOut {
	return TxOut{Sats: U64(t, "sats"), Script: GenScript(t, maxScript, "script")}
}

// GenScript draws the bytes of a script: templates, element sequences,
// plain bytes.
func GenScript(t *rapid.T, max int, label string) Blob {
	switch Int(t, 0, 6, label+".shape") {
	case 0, 1:
		return AnyBlob(t, max, label)
	case 2:
		return Raw(ref.P2PKH(BytesN(t, 20, label)))
	case 3:
		return Raw(Elements(t, 6, 80, label))
	case 4:
		b := []byte{0x00, 0x6a}
		if Bool(t, label+".plain") {
			b = b[1:]
		}
		d := AnyBlob(t, min(max, 300), label)
		return Raw(append(b, ref.Push(d.Bytes())...))
	case 5:
		k := append([]byte{byte(Int(t, 2, 3, label+".kb"))}, BytesN(t, 32, label)...)
		return Raw(append(ref.Push(k), 0xac))
	default:
		return Raw(append(append([]byte{0xa9, 0x14}, BytesN(t, 20, label)...), 0x87))
	}
}

// Elements draws a decodable script of up to n elements, with pushes in any
// (also non-minimal) form.
func Elements(t *rapid.T, n, maxData int, label string) []byte {
	var b []byte
	for k := Int(t, 0, n, label+".n"); k > 0; k-- {
		b = append(b, Element(t, maxData, label)...)
	}
	return b
}

// Element draws one script element.
func Element(t *rapid.T, maxData int, label string) []byte {
	switch Int(t, 0, 5, label+".el") {
	case 0:
		return []byte{Pick(t, []byte{0, 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 0x63, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xae, 0xaf, 0xb9, 0xff}, label+".op")}
	case 1:
		op := byte(Int(t, 0x4f, 0x100, label+".op"))
		return []byte{op}
	case 2, 3:
		return ref.Push(nonEmpty(t, maxData, label))
	case 4: // one byte of data
		return []byte{1, Byte(t, label+".one")}
	default:
		d := AnyBlob(t, maxData, label).Bytes()
		return PushForm(d, Int(t, 0, 2, label+".form"))
	}
}

func nonEmpty(t *rapid.T, max int, label string) []byte {
	d := AnyBlob(t, max, label).Bytes()
	if len(d) == 0 {
		d = []byte{Byte(t, label+".one")}
	}
	return d
}

// PushForm pushes d with a chosen form: 0 one-byte, 1 two-byte, 2 four-byte
// length field (falling back to a wider one when needed).
func PushForm(d []byte, form int) []byte {
	n := len(d)
	switch {
	case form == 0 && n <= 255:
		return append([]byte{76, byte(n)}, d...)
	case form <= 1 && n <= 65535:
		return append([]byte{77, byte(n), byte(n >> 8)}, d...)
	}
	return append([]byte{78, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d...)
}

// HexOf is hex.EncodeToString.
func HexOf(b []byte) string { return hex.EncodeToString(b) }

// Unhex decodes hex that is known to be valid.
func Unhex(s string) []byte { return unhex(s) }
