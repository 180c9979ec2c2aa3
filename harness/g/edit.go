package g

import (
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Edit changes one thing in a transaction, through the fields its users have.
// Histories of edits between calls show results that were kept from before.
type Edit struct {
	K string `json:"k"`
	I uint32 `json:"i,omitempty"`
	V uint64 `json:"v,omitempty"`
	S *Blob  `json:"s,omitempty"`
}

var editKinds = []string{"version", "lock", "id", "vout", "seq", "script", "scriptbyte", "scriptpush", "noscript", "apply", "prev", "prevbyte", "sats",
	"outsats", "outscript", "outbyte", "outpush", "addin", "addout", "delin", "delout", "swapin", "swapout", "dupout", "from", "none"}

// GenEdits draws up to n edits.
func GenEdits(t *rapid.T, n, maxScript int, label string) []Edit {
	var es []Edit
	for k := Int(t, 0, n, label+".n"); k > 0; k-- {
		e := Edit{K: Pick(t, editKinds, label), I: uint32(Int(t, 0, 40, label+".i")), V: U64(t, label+".v")}
		switch e.K {
		case "script", "apply", "prev", "outscript", "addout", "from":
			b := GenScript(t, maxScript, label+".s")
			e.S = &b
		case "scriptpush", "outpush":
			b := BlobN(t, Int(t, 1, 80, label+".plen"), label+".s")
			e.S = &b
		case "id", "addin":
			b := BlobN(t, 32, label+".s")
			e.S = &b
		}
		es = append(es, e)
	}
	return es
}

// Edited applies an edit to the library's transaction and to its flat model.
func Edited(tx *transaction.Transaction, m Tx, e Edit) Tx {
	m.In, m.Out = append([]TxIn{}, m.In...), append([]TxOut{}, m.Out...)
	i, o := -1, -1
	if len(m.In) > 0 {
		i = int(e.I) % len(m.In)
	}
	if len(m.Out) > 0 {
		o = int(e.I) % len(m.Out)
	}
	v32 := uint32(e.V)
	blob := func() Blob {
		if e.S == nil {
			return Blob{}
		}
		return *e.S
	}
	switch e.K {
	case "version":
		tx.Version, m.Version = v32, v32
	case "lock":
		tx.Locktime, m.Lock = v32, v32
	case "addin", "from":
		in := TxIn{ID: Pat(32, e.I+3).Hex(), Vout: v32, Seq: 0xffffffff}
		if e.K == "addin" {
			if e.S != nil && e.S.Len() == 32 {
				in.ID = e.S.Hex()
			}
			in.Seq = e.I
			tx.AddInput(in.Lib())
		} else {
			p := blob()
			in.Prev, in.Sats = &p, e.V
			if tx.From(in.ID, in.Vout, p.Hex(), in.Sats) != nil {
				panic("From refuses valid details")
			}
		}
		m.In = append(m.In, in)
	case "addout":
		out := TxOut{Sats: e.V, Script: blob()}
		tx.AddOutput(out.Lib())
		m.Out = append(m.Out, out)
	}
	if i >= 0 {
		in, mi := tx.Inputs[i], &m.In[i]
		switch e.K {
		case "id":
			if e.S != nil && e.S.Len() == 32 {
				in.PreviousTxID, mi.ID = e.S.Hex(), e.S.Hex()
			}
		case "vout":
			in.PreviousTxOutIndex, mi.Vout = v32, v32
		case "seq":
			in.SequenceNumber, mi.Seq = v32, v32
		case "sats":
			in.PreviousTxSatoshis, mi.Sats = e.V, e.V
		case "script":
			b := blob()
			in.UnlockingScript, mi.Script = script.NewFromBytes(b.Bytes()), &b
		case "apply":
			b := blob()
			if tx.ApplyUnlockingScript(uint32(i), script.NewFromBytes(b.Bytes())) != nil {
				panic("ApplyUnlockingScript refuses a valid index")
			}
			mi.Script = &b
		case "noscript":
			in.UnlockingScript, mi.Script = nil, nil
		case "prev":
			b := blob()
			in.PreviousTxScript, mi.Prev = script.NewFromBytes(b.Bytes()), &b
		case "scriptbyte":
			mi.Script = flip(in.UnlockingScript, mi.Script, e.V)
		case "prevbyte":
			mi.Prev = flip(in.PreviousTxScript, mi.Prev, e.V)
		case "scriptpush":
			if mi.Script != nil && e.S != nil && e.S.Len() > 0 {
				mi.Script = push(in.UnlockingScript, *mi.Script, *e.S)
			}
		case "delin":
			tx.Inputs = append(tx.Inputs[:i], tx.Inputs[i+1:]...)
			m.In = append(m.In[:i], m.In[i+1:]...)
		case "swapin":
			j := int(v32 % uint32(len(m.In)))
			tx.Inputs[i], tx.Inputs[j] = tx.Inputs[j], tx.Inputs[i]
			m.In[i], m.In[j] = m.In[j], m.In[i]
		}
	}
	if o >= 0 {
		out, mo := tx.Outputs[o], &m.Out[o]
		switch e.K {
		case "outsats":
			out.Satoshis, mo.Sats = e.V, e.V
		case "outscript":
			out.LockingScript, mo.Script = script.NewFromBytes(blob().Bytes()), blob()
		case "outbyte":
			mo.Script = *flip(out.LockingScript, &mo.Script, e.V)
		case "outpush":
			if e.S != nil && e.S.Len() > 0 {
				mo.Script = *push(out.LockingScript, mo.Script, *e.S)
			}
		case "delout":
			tx.Outputs = append(tx.Outputs[:o], tx.Outputs[o+1:]...)
			m.Out = append(m.Out[:o], m.Out[o+1:]...)
		case "swapout":
			j := int(v32 % uint32(len(m.Out)))
			tx.Outputs[o], tx.Outputs[j] = tx.Outputs[j], tx.Outputs[o]
			m.Out[o], m.Out[j] = m.Out[j], m.Out[o]
		case "dupout":
			c := *mo
			tx.AddOutput(c.Lib())
			m.Out = append(m.Out, c)
		}
	}
	return m
}

// flip changes a byte of a script in place.
func flip(s *script.Script, b *Blob, v uint64) *Blob {
	if s == nil || b == nil || len(*s) == 0 || len(*s) != b.Len() {
		return b
	}
	x := byte(v>>8) | 1
	k := int(v>>16) % len(*s)
	if k < 0 {
		k = -k
	}
	(*s)[k] ^= x
	n := b.Bytes()
	n[k] ^= x
	r := Raw(n)
	return &r
}

func push(s *script.Script, b, d Blob) *Blob {
	if err := s.AppendPushData(d.Bytes()); err != nil {
		panic("AppendPushData refuses data")
	}
	r := Raw(append(b.Bytes(), ref.Push(d.Bytes())...))
	return &r
}
